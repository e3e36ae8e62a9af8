// Knot removal.
// cfg: csym wsym rational pd dirs... direction breakpoint mode a b
//  mode 0: insert the breakpoint a times, then ask for b removals: the removals succeed and the geometry is kept
//  mode 1: arbitrary spline, ask for a removals with tolerance b/1000 (also of absent knots, end knots, and more than there are)
#define VWMAX 64.0
#include "common.h"
using namespace vf;
#ifndef VDIM
#define VDIM 1
#endif
void harness_main() {
  Cfg c;
  int csym = (int)c.next(), wsym = (int)c.next();
  Model<VDIM> m;
  readModel(&c, &m);
  int dir = (int)c.next(), b = (int)c.next(), mode = (int)c.next(), x = (int)c.next(), y = (int)c.next();
  for (int i = 0; i < VDIM; ++i) {
    int loc = chooseLoc(m.dir[i], nm("d", i));
    makeKnots(&m.dir[i], nm("d", i), loc);
  }
  m.makePoints("", csym, wsym);
  auto s = m.spline();
  query(*s, m.u(), dims(m.pd));  // what a query leaves behind must not show up later
  ParamCoord knot{m.dir[dir].brk[b]};
  int change;
  double tol = 1e-9;
  if (mode == 0) {
    s->InsertKnot(knot, dir, x);
    size_t got = s->RemoveKnot(knot, dir, tol, y);
    sym_check((int)got == y, "inserted knots can be removed again");
    change = x - (int)got;
  } else {
    tol = y / 1000.0;
    size_t got = x == 1 ? s->RemoveKnot(knot, dir, tol) : s->RemoveKnot(knot, dir, tol, x);
    sym_check((int)got <= x, "no more removals than asked for");
    // knots that are not there and the end knots cannot be removed
    sym_check((int)got <= (b == 0 || b == m.dir[dir].nspans() ? 0 : m.dir[dir].mult[b - 1]), "no more removals than there are interior knots");
    change = -(int)got;
  }
  std::vector<double> want;
  const Dir &a = m.dir[dir];
  int nb = a.nspans() + 1;
  for (int i = 0; i < nb; ++i) { int q = (i == 0 || i == nb - 1) ? a.p + 1 : a.mult[i - 1]; if (i == b) q += change; for (int j = 0; j < q; ++j) want.push_back(a.brk[i]); }
  bool structure = true;
  for (int i = 0; i < VDIM; ++i) {
    auto kv = s->GetKnotVector(i);
    const std::vector<double> &w = i == dir ? want : m.dir[i].knots;
    sym_check(kv->GetNumberOfKnots() == w.size(), "number of knots equals the reported removals");
    if (kv->GetNumberOfKnots() != w.size()) structure = false;
    for (size_t j = 0; j < w.size() && j < kv->GetNumberOfKnots(); ++j) sym_check_eq(kv->GetKnot(j).get(), w[j], "knots after removal");
    sym_check(s->GetDegree(i).get() == m.dir[i].p, "degree after removal");
    sym_check(s->GetPointsPerDirection()[i] == m.n[i] + (i == dir ? change : 0), "points per direction after removal");
    if (s->GetPointsPerDirection()[i] != m.n[i] + (i == dir ? change : 0)) structure = false;
  }
  sym_check(s->GetNumberOfControlPoints() == m.total() / m.n[dir] * (m.n[dir] + change), "number of control points after removal");
  if (!structure) return;
  auto e = s->Evaluate(m.u(), dims(m.pd));
  if (mode == 0) {
    for (int j = 0; j < m.pd; ++j) sym_check_eq(e[j], m.refEval(j), "geometry after insertion and removal");
    if (x == y) for (int f = 0; f < m.total(); ++f) {
      for (int j = 0; j < m.pd; ++j) sym_check_eq(s->GetControlPoint(m.idx(f), j), m.P[f][j], "control points restored");
      sym_check_eq(s->GetWeight(m.idx(f)), m.W[f], "weights restored");
    }
  } else if (change == 0) {
    for (int f = 0; f < m.total(); ++f) {
      for (int j = 0; j < m.pd; ++j) sym_check_eq(s->GetControlPoint(m.idx(f), j), m.P[f][j], "refused removal leaves the control points");
      sym_check_eq(s->GetWeight(m.idx(f)), m.W[f], "refused removal leaves the weights");
    }
    for (int j = 0; j < m.pd; ++j) sym_check_eq(e[j], m.refEval(j), "refused removal leaves the geometry");
  } else {
    // every removed knot moves the geometry by at most the tolerance (rational: up to the change of the weight function)
    double t = tol * (-change);
    if (m.rational) t = t / (1 - tol) ;
    for (int j = 0; j < m.pd; ++j) sym_check_near(e[j], m.refEval(j), t, "geometry moves by at most the tolerance");
  }
}
