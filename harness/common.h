// Shared by all harnesses: symbolic spline construction and independent reference formulas.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <cstdint>
#include <stdexcept>
#include <array>
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "../engine/sym.h"
#include "knot_vector.h"
#include "control_point.h"
#include "b_spline.h"
#include "nurbs.h"

namespace vf {
static const double GAP = 1.0 / 1099511627776.0;  // distinct knots / parameters are at least this far apart
#ifndef VWMAX
#define VWMAX 1048576.0
#endif
static const double WLO = 1.0 / VWMAX, WHI = VWMAX;  // weights
struct Cfg {
  int pos = 0;
  long next() { return sym_cfg(pos++); }
  bool more() { return pos < sym_ncfg(); }
};
inline std::string nm(const std::string &a, int i) { return a + std::to_string(i); }
inline std::string nm(const std::string &a, int i, int j) { return a + std::to_string(i) + "_" + std::to_string(j); }

// One parametric direction: a clamped knot vector with symbolic (or fixed) distinct breakpoints.
struct Dir {
  int p = 0;
  std::vector<int> mult;        // multiplicities of the interior breakpoints
  int ksym = 1;                 // 1: breakpoints symbolic, 0: fixed non-uniform numbers, 2: fixed 0, 1, 2, ..., 4: fixed ranges in which equidistant grids round past the end, 3: as 0 and fixed parameters inside the spans
  std::vector<double> brk;      // breakpoint values
  std::vector<double> knots;    // all knots
  std::vector<int> kidx;        // breakpoint index of every knot
  // parameter location: 2*i = at breakpoint i, 2*i+1 = strictly inside span i (at least GAP from both ends)
  int loc = -1;
  double u = 0;
  int nspans() const { return (int)mult.size() + 1; }
  int nloc() const { return 2 * nspans() + 1; }
  int nbas() const { return (int)knots.size() - p - 1; }
  std::vector<ParamCoord> coords() const { std::vector<ParamCoord> r; for (double k : knots) r.push_back(ParamCoord{k}); return r; }
  std::shared_ptr<baf::KnotVector> kv() const { return std::make_shared<baf::KnotVector>(coords()); }
};
inline Dir readDir(Cfg *c) {
  Dir d;
  d.p = (int)c->next();
  int n = (int)c->next();
  for (int i = 0; i < n; ++i) d.mult.push_back((int)c->next());
  d.ksym = (int)c->next();
  return d;
}
static const double kFixed[] = {-0.5, 0.75, 1.0, 2.5, 3.0, 4.25, 4.5, 6.0, 7.5, 7.75, 9.0, 10.5, 11.0, 13.25};
// creates breakpoints (and u at the chosen location; loc < 0: no parameter)
inline void makeKnots(Dir *d, const std::string &tag, int loc) {
  int nb = d->nspans() + 1;
  d->loc = loc;
  d->brk.clear();
  if (d->ksym == 1) {
    double cur = sym_real((tag + "k0").c_str(), -1000, 1000);
    d->brk.push_back(cur);
    if (loc == 0) d->u = cur;
    for (int i = 0; i + 1 < nb; ++i) {
      if (loc == 2 * i + 1) {
        double s = sym_real(nm(tag + "s", i).c_str(), GAP, 1000), r = sym_real(nm(tag + "r", i).c_str(), GAP, 1000);
        d->u = cur + s;
        cur = d->u + r;
      } else {
        cur = cur + sym_real(nm(tag + "d", i).c_str(), GAP, 1000);
      }
      d->brk.push_back(cur);
      if (loc == 2 * (i + 1)) d->u = cur;
    }
  } else {
    for (int i = 0; i < nb; ++i) d->brk.push_back(d->ksym == 4 ? (d->p % 2 ? (i + 1 == nb ? 0.4 : 0.125 * i) : (i + 1 == nb ? 4.2 : 1.3 + 0.25 * i)) : d->ksym == 2 ? double(i) : kFixed[i]);
    if (loc >= 0) {
      if (loc % 2 == 0) d->u = d->brk[loc / 2];
      else if (d->ksym == 3) d->u = d->brk[loc / 2] + 0.375 * (d->brk[loc / 2 + 1] - d->brk[loc / 2]);
      else d->u = d->brk[loc / 2] + sym_real((tag + "s").c_str(), GAP, d->brk[loc / 2 + 1] - d->brk[loc / 2] - GAP);
    }
  }
  d->knots.clear(); d->kidx.clear();
  for (int i = 0; i < nb; ++i) {
    int m = (i == 0 || i == nb - 1) ? d->p + 1 : d->mult[i - 1];
    for (int j = 0; j < m; ++j) { d->knots.push_back(d->brk[i]); d->kidx.push_back(i); }
  }
}
inline int chooseLoc(const Dir &d, const std::string &tag) { return sym_choice((tag + "loc").c_str(), d.nloc()); }

// ---- reference: Cox - de Boor on the integer structure of the knot vector (no comparisons of reals)
struct RefBasis {
  std::vector<double> U; std::vector<int> k; int loc, last; double u;
  RefBasis(const std::vector<double> &knots, const std::vector<int> &kidx, int loc_, double u_) : U(knots), k(kidx), loc(loc_), last(kidx.back()), u(u_) {}
  explicit RefBasis(const Dir &d) : U(d.knots), k(d.kidx), loc(d.loc), last(d.kidx.back()), u(d.u) {}
  bool inSupport(int i, int p) const { return (2 * k[i] <= loc && loc < 2 * k[i + p + 1]) || (loc == 2 * last && k[i + p + 1] == last && k[i] < last); }
  double N(int i, int p) const {
    if (k[i] == k[i + p + 1] || !inSupport(i, p)) return 0;
    if (p == 0) return 1;
    double r = 0;
    if (k[i + p] > k[i] && inSupport(i, p - 1)) r = r + (u - U[i]) / (U[i + p] - U[i]) * N(i, p - 1);
    if (k[i + p + 1] > k[i + 1] && inSupport(i + 1, p - 1)) r = r + (U[i + p + 1] - u) / (U[i + p + 1] - U[i + 1]) * N(i + 1, p - 1);
    return r;
  }
  double D(int i, int p, int der) const {
    if (der == 0) return N(i, p);
    if (der > p || k[i] == k[i + p + 1] || !inSupport(i, p)) return 0;
    double r = 0;
    if (k[i + p] > k[i]) r = r + double(p) / (U[i + p] - U[i]) * D(i, p - 1, der - 1);
    if (k[i + p + 1] > k[i + 1]) r = r - double(p) / (U[i + p + 1] - U[i + 1]) * D(i + 1, p - 1, der - 1);
    return r;
  }
};

// ---- splines
template <int DIM> struct Model {
  std::array<Dir, DIM> dir;
  int pd = 1;            // point dimension
  bool rational = false;
  std::array<int, DIM> n;
  std::vector<std::vector<double>> P;  // control points, first direction fastest
  std::vector<double> W;
  int total() const { int t = 1; for (int i = 0; i < DIM; ++i) t *= n[i]; return t; }
  std::array<int, DIM> idx(int flat) const { std::array<int, DIM> a; for (int i = 0; i < DIM; ++i) { a[i] = flat % n[i]; flat /= n[i]; } return a; }
  int flat(const std::array<int, DIM> &a) const { int f = 0; for (int i = DIM - 1; i >= 0; --i) f = f * n[i] + a[i]; return f; }
  KnotVectors<DIM> kvs() const { KnotVectors<DIM> r; for (int i = 0; i < DIM; ++i) r[i] = dir[i].kv(); return r; }
  std::array<Degree, DIM> degs() const { std::array<Degree, DIM> r; for (int i = 0; i < DIM; ++i) r[i] = Degree{dir[i].p}; return r; }
  std::array<ParamCoord, DIM> u() const { std::array<ParamCoord, DIM> r; for (int i = 0; i < DIM; ++i) r[i] = ParamCoord{dir[i].u}; return r; }
  std::vector<baf::ControlPoint> cps() const { std::vector<baf::ControlPoint> r; for (auto &p : P) r.emplace_back(p); return r; }
  std::shared_ptr<spl::BSpline<DIM>> bspline() const { return std::make_shared<spl::BSpline<DIM>>(kvs(), degs(), cps()); }
  std::shared_ptr<spl::NURBS<DIM>> nurbs() const { return std::make_shared<spl::NURBS<DIM>>(kvs(), degs(), cps(), W); }
  std::shared_ptr<spl::Spline<DIM>> spline() const { if (rational) return nurbs(); return bspline(); }
  // coordinates / positive weights: 0 fixed numbers, 1 all symbolic, 2 + k: only number k symbolic
  // weights also: 100 fixed small numbers, 101 one common symbolic weight, 102 small fixed numbers times one symbolic factor
  void makePoints(const std::string &tag, int csym, int wsym) {
    for (int i = 0; i < DIM; ++i) n[i] = dir[i].nbas();
    P.clear(); W.clear();
    int t = total();
    double common = rational && wsym > 100 ? sym_real((tag + "wf").c_str(), WLO, WHI) : 1.0;
    for (int i = 0; i < t; ++i) {
      std::vector<double> c;
      for (int j = 0; j < pd; ++j)
        c.push_back(csym == 1 || csym == 2 + i ? sym_real(nm(tag + "P", i, j).c_str(), -1000, 1000) : double((i * 7 + j * 13) % 23) - 9.5 + 0.25 * j);
      P.push_back(c);
      W.push_back(!rational ? 1.0 : wsym == 100 ? (1 + (i * 5) % 7) / 64.0 : wsym == 101 ? common : wsym == 102 ? common * (1 + (i * 5) % 7) / 64.0 : wsym == 1 || wsym == 2 + i ? sym_real(nm(tag + "w", i).c_str(), WLO, WHI) : 0.5 + ((i * 5) % 7) * 0.25);
    }
  }
  // reference evaluation of a mixed partial derivative of the homogeneous coordinate j (j == pd: weight function)
  double refHom(const std::array<int, DIM> &der, int j) const {
    double s = 0;
    std::array<std::vector<double>, DIM> b;
    for (int d = 0; d < DIM; ++d) { RefBasis rb(dir[d]); for (int i = 0; i < n[d]; ++i) b[d].push_back(rb.D(i, dir[d].p, der[d])); }
    int t = total();
    for (int f = 0; f < t; ++f) {
      auto a = idx(f);
      bool zero = false;
      double v = 1;
      for (int d = 0; d < DIM; ++d) { RefBasis rb(dir[d]); if (!rb.inSupport(a[d], dir[d].p)) { zero = true; break; } v = v * b[d][a[d]]; }
      if (zero) continue;
      if (rational) v = v * W[f];
      s = s + v * (j == pd ? 1.0 : P[f][j]);
    }
    return s;
  }
  double refEval(int j) const {
    std::array<int, DIM> z; z.fill(0);
    if (!rational) return refHom(z, j);
    return refHom(z, j) / refHom(z, pd);
  }
  static double binom(int a, int b) { double r = 1; for (int i = 0; i < b; ++i) r = r * (a - i) / (i + 1); return r; }
  mutable std::map<std::pair<std::array<int, DIM>, int>, double> memo;
  double refDer(const std::array<int, DIM> &der, int j) const {
    auto key = std::make_pair(der, j);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    double v = refDer_(der, j);
    memo.emplace(key, v);
    return v;
  }
  double refDer_(const std::array<int, DIM> &der, int j) const {
    if (!rational) return refHom(der, j);
    // S^(d) = (A^(d) - sum_{0 < i <= d} C(d,i) w^(i) S^(d-i)) / w
    std::array<int, DIM> z; z.fill(0);
    double v = refHom(der, j);
    std::array<int, DIM> i; i.fill(0);
    for (;;) {
      int q = 0;
      while (q < DIM && i[q] == der[q]) i[q++] = 0;
      if (q == DIM) break;
      ++i[q];
      double c = 1; std::array<int, DIM> rest;
      for (int d = 0; d < DIM; ++d) { c *= binom(der[d], i[d]); rest[d] = der[d] - i[d]; }
      v = v - c * refHom(i, pd) * refDer(rest, j);
    }
    return v / refHom(z, pd);
  }
};
template <int DIM> inline void readModel(Cfg *c, Model<DIM> *m) {
  m->rational = c->next() != 0;
  m->pd = (int)c->next();
  for (int i = 0; i < DIM; ++i) m->dir[i] = readDir(c);
}
inline std::vector<int> dims(int pd) { std::vector<int> r; for (int i = 0; i < pd; ++i) r.push_back(i); return r; }
template <class S, std::size_t DIM> inline void query(const S &s, const std::array<ParamCoord, DIM> &u, const std::vector<int> &ds) {
  s.Evaluate(u, ds);
  for (std::size_t d = 0; d < DIM; ++d) s.EvaluateAllNonZeroBasisFunctions((int)d, u[d]);
}
}  // namespace vf
#endif
