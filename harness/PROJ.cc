// Projection onto curves (VDIM 1) and surfaces (VDIM 2).
// cfg: mode (0 straight line / rectangle: closest point; 1 arbitrary spline, coarse tolerance: inside the domain), variant, degree elevation, knot insertion, DIM knot variants (0 fixed range, 1 symbolic)
#include "common.h"
#include "projection.h"
using namespace vf;
constexpr int DIM = VDIM;
template <int D>
int project(const std::vector<double> &Q, std::shared_ptr<spl::Spline<D>> s, double tol, std::array<ParamCoord, D> *r, std::array<int, 2> grid = {2, 2}) {
  try {
    if constexpr (D == 1) *r = spl::Projection<1>::ProjectionOnCurve(Q, s, tol);
    else *r = spl::Projection<2>::ProjectionOnSurface(Q, s, grid, tol);
  } catch (...) { return 1; }
  return 0;
}
void harness_main() {
  Cfg c;
  int mode = (int)c.next();
  if (mode == 0) {
    int pd = (int)c.next(), elev = (int)c.next(), ins = (int)c.next();
    std::array<double, DIM> lo, len;
    std::array<Degree, DIM> deg; KnotVectors<DIM> kv;
    for (int d = 0; d < DIM; ++d) {
      int v = (int)c.next();
      if (v == 1) { lo[d] = sym_real(nm("lo", d).c_str(), -100, 100); len[d] = sym_real(nm("len", d).c_str(), 0.0625, 100); }
      else { static const double L[] = {0, 0, 2.5, -3, 0}, R[] = {1, 0, 1.5, 2, 2}; lo[d] = L[v]; len[d] = R[v]; }
      deg[d] = Degree{1};
      ParamCoord a{lo[d]}, b{lo[d] + len[d]};
      kv[d] = std::make_shared<baf::KnotVector>(std::vector<ParamCoord>{a, a, b, b});
    }
    // origin + t_d * direction_d, directions orthogonal
    std::vector<double> O(pd, 0.0);
    std::array<std::vector<double>, DIM> D;
    for (int j = 0; j < pd; ++j) O[j] = sym_real(nm("o", j).c_str(), -10, 10);
    static const double fix[3][2][3] = {{{2, 0, 0}, {0, 3, 0}}, {{1, 2, 2}, {2, 1, -2}}, {{0, 0.5, 0}, {-3, 0, 4}}};
    int fx = (int)c.next(), qmask = (int)c.next(), inside = (int)c.next();
    for (int d = 0; d < DIM; ++d) for (int j = 0; j < pd; ++j) D[d].push_back(fx == 9 ? sym_real(nm("d", d, j).c_str(), -10, 10) : fix[fx][d][j]);
    for (int d = 0; d < DIM; ++d) {  // no degenerate direction
      double n2 = 0;
      for (int j = 0; j < pd; ++j) n2 = n2 + D[d][j] * D[d][j];
      sym_assume(n2 >= 0.0625);
    }
    std::vector<baf::ControlPoint> cp;
    for (int f = 0; f < (1 << DIM); ++f) {
      std::vector<double> x;
      for (int j = 0; j < pd; ++j) { double v = O[j]; for (int d = 0; d < DIM; ++d) if (f >> d & 1) v = v + D[d][j]; x.push_back(v); }
      cp.emplace_back(x);
    }
    auto s = std::make_shared<spl::BSpline<DIM>>(kv, deg, cp);
    for (int d = 0; d < DIM; ++d) {
      if (elev >> d & 1) s->ElevateDegreeForDimension(d);
      if (ins >> d & 1) s->InsertKnot(ParamCoord{lo[d] + 0.375 * len[d]}, d);
    }
    std::vector<double> Q;
    for (int j = 0; j < pd; ++j) Q.push_back(qmask >> j & 1 ? sym_real(nm("q", j).c_str(), -30, 30) : O[j] + 0.75);
    if (inside)
      for (int d = 0; d < DIM; ++d) {
        double n2 = 0, dot = 0;
        for (int j = 0; j < pd; ++j) { n2 = n2 + D[d][j] * D[d][j]; dot = dot + D[d][j] * (Q[j] - O[j]); }
        sym_assume(dot >= 0.0); sym_assume(dot <= n2);
      }
    std::array<ParamCoord, DIM> r;
    int e = project<DIM>(Q, s, 0.0001, &r);
    sym_check(!e, "projection raises no error");
    if (e) return;
    for (int d = 0; d < DIM; ++d) {
      double n2 = 0, dot = 0;
      for (int j = 0; j < pd; ++j) { n2 = n2 + D[d][j] * D[d][j]; dot = dot + D[d][j] * (Q[j] - O[j]); }
      // t = dot / n2 clamped to [0, 1]
      double t = (r[d].get() - lo[d]) / len[d];
      sym_check_le(0.0, t, "inside the domain");
      sym_check_le(t, 1.0, "inside the domain");
      // closest: derivative of the distance is zero, or points outwards at the ends
      double g = t * n2 - dot;   // half of the derivative of the squared distance
      if (t == 0.0) sym_check_le(0.0, g, "closest point");
      else if (t == 1.0) sym_check_le(g, 0.0, "closest point");
      else sym_check_eq(g, 0.0, "closest point");
    }
  } else {
    Model<DIM> m; int csym = (int)c.next(); readModel(&c, &m);
    for (int d = 0; d < DIM; ++d) makeKnots(&m.dir[d], nm("a", d), -1);
    m.makePoints("", csym, 0);
    if (DIM == 2)  // a graph-like surface: independent tangents everywhere
      for (size_t f = 0; f < m.P.size(); ++f) {
        int i = (int)f % m.dir[0].nbas(), j = (int)f / m.dir[0].nbas();
        m.P[f] = {i + 0.25 * j, 1.5 * j, 0.5 * i * j - 0.25 * i * i};
      }
    std::vector<double> Q;
    bool round = m.dir[0].ksym == 4;
    for (int j = 0; j < m.pd; ++j) Q.push_back(round && j ? 0.5 * j : sym_real(nm("q", j).c_str(), round ? 0.5 : -30, round ? 0.625 : 30));
    std::array<ParamCoord, DIM> r;
    sym_native(round);
    int e = round ? project<DIM>(Q, m.spline(), 1e7, &r, {3, 7}) : project<DIM>(Q, m.spline(), 1e7, &r);
    sym_native(0);
    sym_check(!e, "projection raises no error");
    if (e) return;
    for (int d = 0; d < DIM; ++d) {
      sym_check_le(m.dir[d].brk.front(), r[d].get(), "inside the domain");
      sym_check_le(r[d].get(), m.dir[d].brk.back(), "inside the domain");
    }
  }
}
