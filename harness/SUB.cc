// Subdivision: the two parts are the original on the two sub-domains, and the original keeps its geometry.
// cfg: csym wsym rational pd dirs... direction breakpoint
#include "common.h"
using namespace vf;
#ifndef VDIM
#define VDIM 1
#endif
void harness_main() {
  Cfg c;
  int csym = (int)c.next(), wsym = (int)c.next();
  Model<VDIM> m;
  readModel(&c, &m);
  int dir = (int)c.next(), b = (int)c.next();
  for (int i = 0; i < VDIM; ++i) {
    int loc = chooseLoc(m.dir[i], nm("d", i));
    makeKnots(&m.dir[i], nm("d", i), loc);
  }
  m.makePoints("", csym, wsym);
  ParamCoord at{m.dir[dir].brk[b]};
  std::array<std::shared_ptr<spl::Spline<VDIM>>, 2> part;
  std::shared_ptr<spl::Spline<VDIM>> orig;
  if (m.rational) { auto s = m.nurbs(); query(*s, m.u(), dims(m.pd)); auto r = s->SudivideSpline(at, dir); part = {r[0], r[1]}; orig = s; }
  else { auto s = m.bspline(); query(*s, m.u(), dims(m.pd)); auto r = s->SudivideSpline(at, dir); part = {r[0], r[1]}; orig = s; }
  const Dir &a = m.dir[dir];
  int nb = a.nspans() + 1;
  std::array<std::vector<double>, 2> want;
  for (int i = 0; i < nb; ++i) {
    int q = (i == 0 || i == b || i == nb - 1) ? a.p + 1 : a.mult[i - 1];
    for (int j = 0; j < q; ++j) { if (i <= b) want[0].push_back(a.brk[i]); if (i >= b) want[1].push_back(a.brk[i]); }
  }
  bool structure = true;
  for (int h = 0; h < 2; ++h) {
    auto s = part[h];
    sym_check(s->GetPointDim() == m.pd, "point dimension of the part");
    for (int i = 0; i < VDIM; ++i) {
      auto kv = s->GetKnotVector(i);
      const std::vector<double> &w = i == dir ? want[h] : m.dir[i].knots;
      sym_check(kv->GetNumberOfKnots() == w.size(), "number of knots of the part");
      if (kv->GetNumberOfKnots() != w.size()) structure = false;
      for (size_t j = 0; j < w.size() && j < kv->GetNumberOfKnots(); ++j) sym_check_eq(kv->GetKnot(j).get(), w[j], "knots of the part");
      sym_check(s->GetDegree(i).get() == m.dir[i].p, "degree of the part");
      sym_check(s->GetPointsPerDirection()[i] == (int)w.size() - m.dir[i].p - 1, "points per direction of the part");
    }
  }
  if (!structure) return;
  for (int h = 0; h < 2; ++h) {
    if (h == 0 ? a.loc > 2 * b : a.loc < 2 * b) continue;
    auto e = part[h]->Evaluate(m.u(), dims(m.pd));
    for (int j = 0; j < m.pd; ++j) sym_check_eq(e[j], m.refEval(j), h ? "second part equals the original" : "first part equals the original");
    if (m.rational) { std::array<int, VDIM> z; z.fill(0); sym_check_eq(part[h]->Evaluate(m.u(), {m.pd})[0], m.refHom(z, m.pd), "weight function of the part"); }
  }
  auto e = orig->Evaluate(m.u(), dims(m.pd));
  for (int j = 0; j < m.pd; ++j) sym_check_eq(e[j], m.refEval(j), "the subdivided spline keeps its geometry");
}
