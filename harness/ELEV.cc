// Degree elevation / reduction.
// cfg: csym wsym rational pd dirs... direction mode
// mode 0: elevate once; 1: elevate twice; 2: elevate, then reduce; 3: reduce an arbitrary spline with tolerance 1/2; 4: like 3, without the bound on the deviation; 5: rational with linear weighted points and one free weight, deviation in homogeneous space
#define VWMAX 64.0
#include "common.h"
using namespace vf;
#ifndef VDIM
#define VDIM 1
#endif
void harness_main() {
  Cfg c;
  int csym = (int)c.next(), wsym = (int)c.next();
  Model<VDIM> m;
  readModel(&c, &m);
  int dir = (int)c.next(), mode = (int)c.next();
  for (int i = 0; i < VDIM; ++i) {
    int loc = chooseLoc(m.dir[i], nm("d", i));
    makeKnots(&m.dir[i], nm("d", i), loc);
  }
  m.makePoints("", mode == 5 ? 0 : csym, mode == 5 ? 0 : wsym);
  if (mode == 5)
    for (int f = 0; f < m.total(); ++f) {
      auto ix = m.idx(f);
      m.W[f] = f == wsym ? sym_real("w", 0.25, 8) : 1.0;
      for (int j = 0; j < m.pd; ++j) {
        double x = 0.5 + j;
        for (int i = 0; i < VDIM; ++i) { double g = 0; for (int k = 1; k <= m.dir[i].p; ++k) g += m.dir[i].knots[ix[i] + k] / m.dir[i].p; x += (1 + i + j) * g; }
        m.P[f][j] = x / m.W[f];
      }
    }
  auto s = m.spline();
  query(*s, m.u(), dims(m.pd));  // what a query leaves behind must not show up later
  if (mode >= 3) {
    double tol = 0.5;
    const Dir &a = m.dir[dir];
    bool ok = s->ReduceDegreeForDimension(dir, tol);
    bool structure = true;
    for (int i = 0; i < VDIM; ++i) {
      int p = m.dir[i].p - (i == dir && ok ? 1 : 0);
      sym_check(s->GetDegree(i).get() == p, "degree after reduction");
      auto kv = s->GetKnotVector(i);
      bool good = (int)kv->GetNumberOfKnots() == s->GetPointsPerDirection()[i] + p + 1;
      sym_check(good, "knots and points stay consistent");
      structure = structure && good;
      if (i != dir || !ok) {
        good = kv->GetNumberOfKnots() == m.dir[i].knots.size();
        sym_check(good, "knots unchanged");
        structure = structure && good;
        for (size_t j = 0; j < m.dir[i].knots.size() && j < kv->GetNumberOfKnots(); ++j) sym_check_eq(kv->GetKnot(j).get(), m.dir[i].knots[j], "knots unchanged");
      } else {
        for (int j = 0; j <= p; ++j) {
          sym_check_eq(kv->GetKnot(j).get(), a.brk[0], "clamped start after reduction");
          sym_check_eq(kv->GetKnot(kv->GetNumberOfKnots() - 1 - j).get(), a.brk.back(), "clamped end after reduction");
        }
      }
    }
    if (!structure) return;
    auto e = s->Evaluate(m.u(), dims(m.pd));
    if (!ok) {
      for (int f = 0; f < m.total(); ++f) {
        for (int j = 0; j < m.pd; ++j) sym_check_eq(s->GetControlPoint(m.idx(f), j), m.P[f][j], "refused reduction leaves the control points");
        sym_check_eq(s->GetWeight(m.idx(f)), m.W[f], "refused reduction leaves the weights");
      }
      for (int j = 0; j < m.pd; ++j) sym_check_eq(e[j], m.refEval(j), "refused reduction leaves the geometry");
    } else if (mode == 5) {
      std::array<int, VDIM> z; z.fill(0);
      double w = s->Evaluate(m.u(), {m.pd})[0];
      sym_check_near(w, m.refHom(z, m.pd), tol * 1.000001, "the weight function moves by at most the tolerance");
      for (int j = 0; j < m.pd; ++j) sym_check_near(e[j] * w, m.refHom(z, j), tol * 1.000001, "the weighted point moves by at most the tolerance");
    } else if (mode == 3) {
      for (int j = 0; j < m.pd; ++j) sym_check_near(e[j], m.refEval(j), tol * 1.000001, "geometry moves by at most the tolerance");
    }
    return;
  }
  s->ElevateDegreeForDimension(dir);
  int t = 1;
  if (mode == 1) { s->ElevateDegreeForDimension(dir); t = 2; }
  if (mode == 2) { bool ok = s->ReduceDegreeForDimension(dir, 1e-9); sym_check(ok, "reduction of an elevated spline succeeds"); t = 0; if (!ok) t = 1; }
  const Dir &a = m.dir[dir];
  std::vector<double> want;
  int nb = a.nspans() + 1;
  for (int i = 0; i < nb; ++i) { int q = ((i == 0 || i == nb - 1) ? a.p + 1 : a.mult[i - 1]) + t; for (int j = 0; j < q; ++j) want.push_back(a.brk[i]); }
  for (int i = 0; i < VDIM; ++i) {
    auto kv = s->GetKnotVector(i);
    const std::vector<double> &w = i == dir ? want : m.dir[i].knots;
    sym_check(kv->GetNumberOfKnots() == w.size(), "number of knots after degree change");
    for (size_t j = 0; j < w.size() && j < kv->GetNumberOfKnots(); ++j) sym_check_eq(kv->GetKnot(j).get(), w[j], "knots after degree change");
    sym_check(s->GetDegree(i).get() == m.dir[i].p + (i == dir ? t : 0), "degree after degree change");
    sym_check(s->GetPointsPerDirection()[i] == (i == dir ? (int)want.size() - a.p - t - 1 : m.n[i]), "points per direction after degree change");
  }
  sym_check(s->GetNumberOfControlPoints() == m.total() / m.n[dir] * ((int)want.size() - a.p - t - 1), "number of control points after degree change");
  auto e = s->Evaluate(m.u(), dims(m.pd));
  for (int j = 0; j < m.pd; ++j) sym_check_eq(e[j], m.refEval(j), "geometry after degree change");
  if (m.rational) {
    std::array<int, VDIM> z; z.fill(0);
    sym_check_eq(s->Evaluate(m.u(), {m.pd})[0], m.refHom(z, m.pd), "weight function after degree change");
  }
}
