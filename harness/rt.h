// Shared by the file harnesses: splines with printable symbolic numbers, writing, reading and comparing them.
#ifndef VERIF_RT_H_
#define VERIF_RT_H_
#include <cstdio>
#include <any>
#include "common.h"
#include "iges_reader.h"
#include "iges_writer.h"
#include "irit_reader.h"
#include "irit_writer.h"
#include "xml_reader.h"
#include "xml_writer.h"
using namespace vf;
static int FMT, VAR, CNT = 0, SYMMAX = 60, NSYM = 0;
static bool RATIONAL = false;

// a number of a class whose printed form has one sign and one magnitude
static double number(const std::string &name, bool positive) {
  static const double lo[] = {1.05, -9.95, 12.5, 0.15, -99.5, 150, 2000.5, -0.95}, hi[] = {9.95, -1.05, 99.5, 0.95, -10.5, 999, 9000.25, -0.15};
  static const double fix[] = {0, 1, -1, 0.5, 0.001953125, -2.25, 100, 1048576, -0.0625, 3};
  static const double flo[] = {1.25, 2, 3, 0.5, 0.25}, fhi[] = {1.5};
  (void)fhi;
  int k = CNT++ * 5 + VAR * 3;
  // weights that include or are one, coordinates that include or are zero
  if (VAR == 21 || (VAR == 20 && NSYM >= SYMMAX)) return positive ? 1.0 : fix[k % 3];
  if (VAR == 20 && positive) { ++NSYM; return sym_real(name.c_str(), 1.0, FMT == 1 ? 1.4 : 1.9); }
  if (NSYM >= SYMMAX || k % 11 == 3) {
    if (positive) return flo[k % 5];
    return fix[k % 10];
  }
  ++NSYM;
  if (FMT == 1 && RATIONAL) {  // products of coordinate and weight are printed: keep each in one decade
    if (positive) return sym_real(name.c_str(), 1.1, 3.2);
    double e = k % 3 == 0 ? 0.125 : k % 3 == 1 ? 1 : 64;
    if (e == 0.125) { double lo = k % 2 ? 1.0 : -2.8; return 0.125 * sym_real(name.c_str(), lo, lo + 1.8); }
    if (e == 64) return 32 * (k % 2 ? 1.0 : -1.0) * sym_real(name.c_str(), 3.2, 9.5);
    return k % 2 ? sym_real(name.c_str(), 2.1, 3.0) : sym_real(name.c_str(), -3.0, -2.1);
  }
  if (!positive && VAR >= 10 && CNT == VAR - 8) return sym_real(name.c_str(), -2000, 2000);  // one number of any size
  if (positive) { static const int pc[] = {0, 2, 3, 5}; int c = pc[k % 4]; return sym_real(name.c_str(), lo[c], hi[c]); }
  if (FMT == 0 && k % 13 == 5) return sym_real(name.c_str(), 1.05e-7, 9.95e-7);
  if (FMT == 0 && k % 13 == 7) return sym_real(name.c_str(), -9.95e-5, -1.05e-5);
  if (FMT == 0 && k % 13 == 9) return sym_real(name.c_str(), 1.05e19, 9.95e19);
  if (FMT == 0 && k % 13 == 11) return 5e20;
  int c = k % 8;
  return sym_real(name.c_str(), lo[c], hi[c]);
}
struct Any { std::any a; int dim; bool rational; int pd; std::vector<int> p; std::vector<std::vector<double>> kn; std::vector<int> n; std::vector<std::vector<double>> P; std::vector<double> W; };

template <int DIM> static Any build(Cfg *c, int s) {
  Model<DIM> m;
  readModel(c, &m);
  Any r; r.dim = DIM; r.rational = m.rational; r.pd = m.pd;
  static const double base[] = {-7.95, -2.95, 0.15, 3.05, 12.05, 150.05, 801, 1200, 5000};
  for (int d = 0; d < DIM; ++d) {
    Dir &q = m.dir[d];
    int nb = q.nspans() + 1;
    for (int i = 0; i < nb; ++i) {
      int bi = i + (VAR + d) % 3;
      double b = bi < 9 ? base[bi] : 4000 + 250.5 * bi;
      if (q.ksym && NSYM < SYMMAX) { ++NSYM; q.brk.push_back(sym_real(nm("k" + std::to_string(s) + "_" + std::to_string(d) + "_", i).c_str(), b, b + (b == 0.15 ? 0.7 : 0.9))); }
      else q.brk.push_back(VAR % 2 ? double(i) : i * 0.25 - 0.5);
      if (i && q.ksym && NSYM >= SYMMAX) q.brk[i] = b + 0.25;
    }
    for (int i = 0; i < nb; ++i) {
      int mu = (i == 0 || i == nb - 1) ? q.p + 1 : q.mult[i - 1];
      for (int j = 0; j < mu; ++j) { q.knots.push_back(q.brk[i]); q.kidx.push_back(i); }
    }
    r.p.push_back(q.p); r.kn.push_back(q.knots);
    m.n[d] = q.nbas();
    r.n.push_back(m.n[d]);
  }
  RATIONAL = m.rational;
  int t = m.total();
  for (int i = 0; i < t; ++i) {
    std::vector<double> x;
    for (int j = 0; j < m.pd; ++j) x.push_back(number(nm("P" + std::to_string(s) + "_", i, j), false));
    m.P.push_back(x);
    m.W.push_back(m.rational ? number(nm("w" + std::to_string(s) + "_", i), true) : 1.0);
  }
  r.P = m.P; r.W = m.W;
  if (m.rational) r.a = std::make_any<std::shared_ptr<spl::NURBS<DIM>>>(m.nurbs());
  else r.a = std::make_any<std::shared_ptr<spl::BSpline<DIM>>>(m.bspline());
  return r;
}
static void near(double got, double want, const char *label) {
  if (FMT == 0) {
    double e = 1e-13, t = e * (want < 0 ? 0.0 - want : want) + 1e-40;
    sym_check_le(got - want, t, label);
    sym_check_le(want - got, t, label);
  }
  else sym_check_near(got, want, 5.0000001e-7, label);
}
template <int DIM> static void compare(const Any &o, const std::any &g) {
  std::shared_ptr<spl::Spline<DIM>> s;
  std::shared_ptr<spl::NURBS<DIM>> nu;
  if (o.rational) {
    auto p = std::any_cast<std::shared_ptr<spl::NURBS<DIM>>>(&g);
    if (!p) { sym_check_impossible("a rational spline of the same dimension comes back"); return; }
    s = *p;
  } else {
    auto p = std::any_cast<std::shared_ptr<spl::BSpline<DIM>>>(&g);
    if (!p) { sym_check_impossible("a non-rational spline of the same dimension comes back"); return; }
    s = *p;
  }
  int pd = FMT == 0 ? 3 : o.pd;
  sym_check(s->GetPointDim() == pd, "point dimension");
  if (s->GetPointDim() != pd) return;
  bool ok = true;
  for (int d = 0; d < DIM; ++d) {
    sym_check(s->GetDegree(d).get() == o.p[d], "degree");
    bool same = s->GetKnotVector(d)->GetNumberOfKnots() == o.kn[d].size() && s->GetPointsPerDirection()[d] == o.n[d];
    sym_check(same, "number of knots and points");
    if (!same) { ok = false; continue; }
    for (size_t i = 0; i < o.kn[d].size(); ++i) near(s->GetKnotVector(d)->GetKnot(i).get(), o.kn[d][i], "knot");
  }
  if (!ok) return;
  int t = 1;
  for (int x : o.n) t *= x;
  sym_check(s->GetNumberOfControlPoints() == t, "number of control points");
  for (int i = 0; i < t; ++i) {
    std::array<int, DIM> a; int f = i;
    for (int d = 0; d < DIM; ++d) { a[d] = f % o.n[d]; f /= o.n[d]; }
    double w = s->GetWeight(a);
    if (o.rational) near(w, o.W[i], "weight");
    else sym_check_eq(w, 1.0, "weight of a non-rational spline");
    for (int j = 0; j < pd; ++j) {
      double want = j < o.pd ? o.P[i][j] : 0.0;
      if (FMT == 1 && o.rational) sym_check_near(s->GetControlPoint(a, j) * w, want * o.W[i], 5.0000001e-7, "weighted control point");
      else near(s->GetControlPoint(a, j), want, "control point");
    }
  }
}
static Any readOne(Cfg *c, int s) {
  int dim = (int)c->next();
  return dim == 1 ? build<1>(c, s) : dim == 2 ? build<2>(c, s) : dim == 3 ? build<3>(c, s) : build<4>(c, s);
}
static std::vector<std::any> readFile(int fmt, const char *f) {
  if (fmt == 0) return io::IGESReader().ReadFile(f);
  if (fmt == 1) return io::IRITReader().ReadFile(f);
  return io::XMLReader().ReadFile(f);
}
static void writeFile(int fmt, const std::vector<std::any> &l, const char *f) {
  if (fmt == 0) io::IGESWriter().WriteFile(l, f);
  else if (fmt == 1) io::IRITWriter().WriteFile(l, f);
  else io::XMLWriter().WriteFile(l, f);
}
static void compareAny(const Any &o, const std::any &g) {
  if (o.dim == 1) compare<1>(o, g);
  else if (o.dim == 2) compare<2>(o, g);
  else if (o.dim == 3) compare<3>(o, g);
  else compare<4>(o, g);
}
#endif
