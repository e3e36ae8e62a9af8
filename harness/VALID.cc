// Constructors accept exactly consistent data; evaluation accepts exactly parameters of the domain.
// cfg mode 0: 0, how (0 direct, 1 generator), rational, direction with the pattern, degree there, number of breakpoints, multiplicities...
//     mode 1: 1, rational, DIM directions, derivative order
//     mode 2: 2, how, rational, DIM directions (counts and dimensions)
#include "common.h"
using namespace vf;
template <int DIM> static int tryBuild(int how, bool rational, const KnotVectors<DIM> &kv, const std::array<Degree, DIM> &deg, const std::vector<baf::ControlPoint> &cp, const std::vector<double> &w) {
  try {
    std::shared_ptr<spl::Spline<DIM>> s;
    if (how == 0) { if (rational) s = std::make_shared<spl::NURBS<DIM>>(kv, deg, cp, w); else s = std::make_shared<spl::BSpline<DIM>>(kv, deg, cp); }
    else { if (rational) { spl::NURBSGenerator<DIM> g(kv, deg, cp, w); s = std::make_shared<spl::NURBS<DIM>>(g); } else { spl::BSplineGenerator<DIM> g(kv, deg, cp); s = std::make_shared<spl::BSpline<DIM>>(g); } }
    return 0;
  } catch (std::runtime_error &) { return 1; }
  catch (...) { return 2; }
}
void harness_main() {
  constexpr int DIM = VDIM;
  Cfg c;
  int mode = (int)c.next();
  if (mode == 0) {
    int how = (int)c.next(); bool rational = c.next() != 0; int dir = (int)c.next(), p = (int)c.next(), nb = (int)c.next();
    std::vector<int> mult; for (int i = 0; i < nb; ++i) mult.push_back((int)c.next());
    KnotVectors<DIM> kv; std::array<Degree, DIM> deg; int total = 1;
    for (int d = 0; d < DIM; ++d) {
      std::vector<ParamCoord> k;
      if (d == dir) {
        double cur = sym_real("k0", -1000, 1000);
        for (int i = 0; i < nb; ++i) { if (i) cur = cur + sym_real(nm("d", i).c_str(), GAP, 1000); for (int j = 0; j < mult[i]; ++j) k.push_back(ParamCoord{cur}); }
        deg[d] = Degree{p};
        int n = (int)k.size() - p - 1;
        total *= n > 0 ? n : 1;
      } else {
        k = {ParamCoord{0}, ParamCoord{0}, ParamCoord{1}, ParamCoord{1}};
        deg[d] = Degree{1}; total *= 2;
      }
      kv[d] = std::make_shared<baf::KnotVector>(k);
    }
    std::vector<baf::ControlPoint> cp; std::vector<double> w;
    for (int i = 0; i < total; ++i) { cp.emplace_back(std::vector<double>{double(i), 1.0}); w.push_back(1.0); }
    int K = 0; for (int m : mult) K += m;
    bool ok = p >= 0 && K >= 2 * p + 2 && mult.front() >= p + 1 && mult.back() >= p + 1;
    int r = tryBuild<DIM>(how, rational, kv, deg, cp, w);
    if (ok) sym_check(r == 0, "a clamped knot vector is accepted");
    else sym_check(r == 1, "an unclamped or too short knot vector is refused with an error");
  } else if (mode == 1) {
    Model<DIM> m; m.rational = c.next() != 0; m.pd = 1;
    for (int d = 0; d < DIM; ++d) m.dir[d] = readDir(&c);
    int der = (int)c.next();
    bool inside = true;
    std::array<ParamCoord, DIM> u;
    for (int d = 0; d < DIM; ++d) {
      int nl = m.dir[d].nloc(), where = sym_choice(nm("where", d).c_str(), nl + 2);
      makeKnots(&m.dir[d], nm("a", d), where < nl ? where : -1);
      if (where < nl) { u[d] = ParamCoord{m.dir[d].u}; continue; }
      double s0 = sym_real(nm("o", d).c_str(), 1e-9, 1000);
      u[d] = ParamCoord{where == nl ? m.dir[d].brk.front() - s0 : m.dir[d].brk.back() + s0};
      inside = false;
    }
    m.makePoints("", 0, 0);
    auto s = m.spline();
    int r = 0;
    try {
      std::array<int, DIM> z; z.fill(0); z[DIM - 1] = der;
      if (der) s->EvaluateDerivative(u, {0}, z); else s->Evaluate(u, {0});
    } catch (std::range_error &) { r = 1; } catch (...) { r = 2; }
    if (inside) sym_check(r == 0, "a parameter of the domain is accepted");
    else sym_check(r == 1, "a parameter outside the domain is refused with a range error");
  } else {
    int how = (int)c.next();
    Model<DIM> m; m.rational = c.next() != 0; m.pd = 2;
    for (int d = 0; d < DIM; ++d) m.dir[d] = readDir(&c);
    for (int d = 0; d < DIM; ++d) makeKnots(&m.dir[d], nm("a", d), -1);
    m.makePoints("", 1, 1);
    auto cp = m.cps(); auto w = m.W; int t = m.total();
    int what = sym_choice("what", 9);
    bool ok = what == 0;
    if (what == 1) { cp.pop_back(); w.pop_back(); }
    if (what == 2) { cp.push_back(cp[0]); w.push_back(w[0]); }
    if (what == 3) { cp.clear(); w.clear(); }
    if (what == 4) { int i = sym_choice("which", t); auto x = m.P[i]; x.push_back(sym_real("z", -5, 5)); cp[i] = baf::ControlPoint(x); }
    if (what == 5) { int i = sym_choice("which", t); auto x = m.P[i]; x.pop_back(); cp[i] = baf::ControlPoint(x); }
    if (what == 6) { w.pop_back(); ok = !m.rational; }
    if (what == 7) { w.push_back(1.0); ok = !m.rational; }
    if (what == 8) { w.clear(); ok = !m.rational; }
    int r = tryBuild<DIM>(how, m.rational, m.kvs(), m.degs(), cp, w);
    if (ok) sym_check(r == 0, "consistent data are accepted");
    else sym_check(r == 1, "inconsistent control points or weights are refused with an error");
    if (m.rational && how == 0 && what <= 5) {
      auto s = m.nurbs();
      int q = 0;
      try { spl::NURBS<DIM> x(*s, cp); } catch (std::runtime_error &) { q = 1; } catch (...) { q = 2; }
      sym_check(q == (ok ? 0 : 1), "new control points of a copy are accepted exactly when consistent");
    }
  }
}
