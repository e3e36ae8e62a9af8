// Spline evaluation and derivatives (B-spline and NURBS), parametric dimension VDIM.
// cfg: mode(0 evaluate, 1 derivative) csym wsym rational pd dirs... [derivative orders max per direction, 1: those orders only]
#include "common.h"
using namespace vf;
#ifndef VDIM
#define VDIM 1
#endif
void harness_main() {
  Cfg c;
  int mode = (int)c.next(), csym = (int)c.next(), wsym = (int)c.next();
  Model<VDIM> m;
  readModel(&c, &m);
  for (int i = 0; i < VDIM; ++i) {
    int loc = chooseLoc(m.dir[i], nm("d", i));
    makeKnots(&m.dir[i], nm("d", i), loc);
  }
  m.makePoints("", csym, wsym);
  auto s = m.spline();
  auto u = m.u();
  if (mode == 0) {
    auto all = s->Evaluate(u, dims(m.pd));
    sym_check((int)all.size() == m.pd, "one coordinate per requested dimension");
    std::vector<double> ref;
    for (int j = 0; j < m.pd; ++j) { ref.push_back(m.refEval(j)); sym_check_eq(all[j], ref[j], "evaluated point"); }
    // requested dimensions may come in any order and repeat
    std::vector<int> sel; for (int j = m.pd - 1; j >= 0; --j) sel.push_back(j);
    sel.push_back(0);
    auto some = s->Evaluate(u, sel);
    for (size_t j = 0; j < sel.size(); ++j) sym_check_eq(some[j], ref[sel[j]], "selected coordinates in the requested order");
    // clamped corners interpolate the corner control points
    std::array<int, VDIM> corner; bool atCorner = true;
    for (int i = 0; i < VDIM; ++i) { if (m.dir[i].loc == 0) corner[i] = 0; else if (m.dir[i].loc == 2 * m.dir[i].nspans()) corner[i] = m.n[i] - 1; else atCorner = false; }
    if (atCorner) for (int j = 0; j < m.pd; ++j) sym_check_eq(all[j], m.P[m.flat(corner)][j], "corner control point interpolation");
    if (m.rational) {
      std::array<int, VDIM> z; z.fill(0);
      auto w = s->Evaluate(u, {m.pd});
      sym_check_eq(w[0], m.refHom(z, m.pd), "weight function");
      // homogeneous weight scaling does not change the point
      Model<VDIM> m2 = m;
      double f = sym_real("scale", WLO, WHI);
      for (auto &x : m2.W) x = x * f;
      auto sc = m2.nurbs()->Evaluate(u, dims(m.pd));
      for (int j = 0; j < m.pd; ++j) sym_check_eq(sc[j], ref[j], "common weight factor");
      // equal weights: same as the polynomial spline
      Model<VDIM> m3 = m;
      for (auto &x : m3.W) x = f;
      auto pl = m3.nurbs()->Evaluate(u, dims(m.pd)), bs = m.bspline()->Evaluate(u, dims(m.pd));
      for (int j = 0; j < m.pd; ++j) sym_check_eq(pl[j], bs[j], "equal weights give the B-spline");
    } else {
      // generators and queries
      auto g = std::make_shared<spl::BSpline<VDIM>>(spl::BSplineGenerator<VDIM>(m.kvs(), m.degs(), m.cps()));
      auto ge = g->Evaluate(u, dims(m.pd));
      for (int j = 0; j < m.pd; ++j) sym_check_eq(ge[j], ref[j], "evaluation of a generated spline");
    }
    // accessors report what was put in (the data do not depend on the parameter: one location is enough)
    for (int i = 0; i < VDIM; ++i) if (m.dir[i].loc) return;
    for (int i = 0; i < VDIM; ++i) {
      sym_check(s->GetDegree(i).get() == m.dir[i].p, "degree");
      sym_check(s->GetPointsPerDirection()[i] == m.n[i], "points per direction");
      sym_check((int)s->GetKnotVector(i)->GetNumberOfKnots() == (int)m.dir[i].knots.size(), "number of knots");
      sym_check_eq(s->GetKnotVectorRange(i), m.dir[i].brk.back() - m.dir[i].brk[0], "parametric range");
    }
    sym_check(s->GetNumberOfControlPoints() == m.total() && s->GetPointDim() == m.pd, "number and dimension of control points");
    for (int f = 0; f < m.total(); ++f) {
      for (int j = 0; j < m.pd; ++j) { sym_check_eq(s->GetControlPoint(m.idx(f), j), m.P[f][j], "control point access"); sym_check_eq(s->GetControlPoint(m.idx(f)).GetValue(j), m.P[f][j], "control point access"); }
      sym_check_eq(s->GetWeight(m.idx(f)), m.rational ? m.W[f] : 1.0, "weight access");
    }
  } else {
    std::array<int, VDIM> mx, der;
    for (int i = 0; i < VDIM; ++i) mx[i] = (int)c.next();
    der.fill(0);
    if (c.more() && c.next()) der = mx;  // the highest orders only
    for (;;) {
      auto v = s->EvaluateDerivative(u, dims(m.pd), der);
      sym_check((int)v.size() == m.pd, "one derivative per requested dimension");
      bool over = false, zero = true;
      for (int i = 0; i < VDIM; ++i) { if (der[i] > m.dir[i].p) over = true; if (der[i]) zero = false; }
      for (int j = 0; j < m.pd; ++j) {
        sym_check_eq(v[j], m.refDer(der, j), "mixed partial derivative");
        if (!m.rational && over) sym_check_eq(v[j], 0.0, "derivative beyond the degree");
      }
      if (zero) { auto e = s->Evaluate(u, dims(m.pd)); for (int j = 0; j < m.pd; ++j) sym_check_eq(v[j], e[j], "derivative of order zero"); }
      std::vector<int> sel; for (int j = m.pd - 1; j > 0; --j) sel.push_back(j);
      if (m.pd > 1) sel.push_back(0);
      auto some = sel.empty() ? std::vector<double>() : s->EvaluateDerivative(u, sel, der);
      for (size_t j = 0; j < sel.size(); ++j) sym_check_eq(some[j], v[sel[j]], "selected derivative coordinates in the requested order");
      int q = 0;
      while (q < VDIM && der[q] == mx[q]) der[q++] = 0;
      if (q == VDIM) break;
      ++der[q];
    }
  }
}
