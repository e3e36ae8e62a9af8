// Knot insertion / refinement preserves the geometry and edits the knot vector as requested.
// cfg: csym wsym rational pd dirs... refine direction nops (breakpoint times)*
// Interior multiplicity 0 marks a breakpoint that is not yet a knot.
#include "common.h"
using namespace vf;
#ifndef VDIM
#define VDIM 1
#endif
void harness_main() {
  Cfg c;
  int csym = (int)c.next(), wsym = (int)c.next();
  Model<VDIM> m;
  readModel(&c, &m);
  int refine = (int)c.next(), dir = (int)c.next(), nops = (int)c.next();
  std::vector<std::pair<int, int>> ops;
  for (int i = 0; i < nops; ++i) { int a = (int)c.next(), b = (int)c.next(); ops.push_back({a, b}); }
  for (int i = 0; i < VDIM; ++i) {
    int loc = chooseLoc(m.dir[i], nm("d", i));
    makeKnots(&m.dir[i], nm("d", i), loc);
  }
  m.makePoints("", csym, wsym);
  auto s = m.spline();
  query(*s, m.u(), dims(m.pd));  // what a query leaves behind must not show up later
  Dir after = m.dir[dir];
  std::vector<ParamCoord> list;
  for (auto &o : ops) {
    after.mult[o.first - 1] += o.second;
    ParamCoord k{m.dir[dir].brk[o.first]};
    if (refine) for (int i = 0; i < o.second; ++i) list.push_back(k);
    else if (o.second == 1) s->InsertKnot(k, dir);
    else s->InsertKnot(k, dir, o.second);
  }
  if (refine) s->RefineKnots(list, dir);
  // expected structure
  std::vector<double> want;
  int nb = after.nspans() + 1, added = 0;
  for (int i = 0; i < nb; ++i) { int q = (i == 0 || i == nb - 1) ? after.p + 1 : after.mult[i - 1]; for (int j = 0; j < q; ++j) want.push_back(after.brk[i]); }
  for (auto &o : ops) added += o.second;
  for (int i = 0; i < VDIM; ++i) {
    auto kv = s->GetKnotVector(i);
    const std::vector<double> &w = i == dir ? want : m.dir[i].knots;
    sym_check(kv->GetNumberOfKnots() == w.size(), "number of knots after insertion");
    for (size_t j = 0; j < w.size() && j < kv->GetNumberOfKnots(); ++j) sym_check_eq(kv->GetKnot(j).get(), w[j], "knots after insertion");
    sym_check(s->GetDegree(i).get() == m.dir[i].p, "degree after insertion");
    sym_check(s->GetPointsPerDirection()[i] == m.n[i] + (i == dir ? added : 0), "points per direction after insertion");
  }
  sym_check(s->GetNumberOfControlPoints() == m.total() / m.n[dir] * (m.n[dir] + added), "number of control points after insertion");
  auto e = s->Evaluate(m.u(), dims(m.pd));
  for (int j = 0; j < m.pd; ++j) sym_check_eq(e[j], m.refEval(j), "geometry after insertion");
  if (m.rational) {
    std::array<int, VDIM> z; z.fill(0);
    sym_check_eq(s->Evaluate(m.u(), {m.pd})[0], m.refHom(z, m.pd), "weight function after insertion");
  }
}
