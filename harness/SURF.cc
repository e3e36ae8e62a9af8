// Surfaces generated from two curves.
// cfg: mode 0 translation: csym, wsym, pd, direction of T, direction of C
//      mode 1 sweep: trajectory, knot variant, number of stations, direction of C
#include "common.h"
#include "surface_generator.h"
using namespace vf;
void harness_main() {
  Cfg c;
  int mode = (int)c.next();
  if (mode == 0) {
    int cs = (int)c.next(), ws = (int)c.next(), pd = (int)c.next();
    Model<1> t, s; t.rational = s.rational = true; t.pd = s.pd = pd;
    t.dir[0] = readDir(&c); s.dir[0] = readDir(&c);
    int lt = chooseLoc(t.dir[0], "t"), ls = chooseLoc(s.dir[0], "c");
    makeKnots(&t.dir[0], "t", lt); makeKnots(&s.dir[0], "c", ls);
    t.makePoints("t", cs, ws); s.makePoints("c", cs, ws);
    auto T = t.nurbs(), C = s.nurbs();
    spl::SurfaceGenerator g(T, C);
    spl::NURBS<2> N(g);
    std::array<ParamCoord, 2> u{ParamCoord{t.dir[0].u}, ParamCoord{s.dir[0].u}};
    auto e = N.Evaluate(u, dims(pd));
    for (int j = 0; j < pd; ++j) sym_check_eq(e[j], t.refEval(j) + s.refEval(j), "surface point is the sum of the curve points");
    sym_check(N.GetDegree(0).get() == t.dir[0].p && N.GetDegree(1).get() == s.dir[0].p, "degrees of the curves");
    const Dir *dd[2] = {&t.dir[0], &s.dir[0]};
    for (int d = 0; d < 2; ++d) {
      auto k = N.GetKnotVector(d);
      bool same = k->GetNumberOfKnots() == dd[d]->knots.size();
      sym_check(same, "number of knots of the curves");
      if (same) for (size_t i = 0; i < dd[d]->knots.size(); ++i) sym_check_eq(k->GetKnot(i).get(), dd[d]->knots[i], "knots of the curves");
    }
    // the surface and the curves are independent
    int op = sym_choice("op", 2);
    auto &od = op ? s.dir[0] : t.dir[0];
    N.InsertKnot(ParamCoord{od.brk[0] + 0.5 * (od.brk[1] - od.brk[0])}, op);
    auto et = T->Evaluate({u[0]}, dims(pd)), ec = C->Evaluate({u[1]}, dims(pd));
    for (int j = 0; j < pd; ++j) { sym_check_eq(et[j], t.refEval(j), "the first curve is unchanged"); sym_check_eq(ec[j], s.refEval(j), "the second curve is unchanged"); }
    sym_check(T->GetKnotVector(0)->GetNumberOfKnots() == t.dir[0].knots.size() && C->GetKnotVector(0)->GetNumberOfKnots() == s.dir[0].knots.size(), "the curves are unchanged");
  } else {
    int traj = (int)c.next(), kvar = (int)c.next(), nb = (int)c.next();
    Model<1> s; s.rational = true; s.pd = 3; s.dir[0] = readDir(&c);
    makeKnots(&s.dir[0], "c", -1);
    s.makePoints("c", 0, 1);
    for (size_t i = 0; i < s.P.size(); ++i) for (int j = 0; j < 3; ++j) s.P[i][j] = sym_real(nm("C", (int)i, j).c_str(), -10, 10);
    // trajectories: straight lines (0..3), plane and spatial parabolas, cubic
    static const std::vector<std::vector<double>> trajs[] = {
      {{0, 0, 0}, {2, 3, 6}}, {{1, -2, 5}, {3, 1, 11}}, {{0, 0, 1}, {1, 0, 1}}, {{4, 1, 2}, {0, 4, 2}},
      {{0, 0, 0}, {2, 0, 0}, {2, 3, 0}}, {{1, 1, 1}, {2, 4, 1}, {5, 4, 3}}, {{0, 0, 0}, {1, 0, 0}, {2, 1, 0.5}, {3, 3, 0.5}}};
    auto &tp = trajs[traj];
    int p = (int)tp.size() - 1;
    double lo = kvar == 0 || kvar == 3 ? 0.0 : kvar == 1 ? 1.5 : sym_real("lo", -20, 20), len = kvar == 0 ? 1.0 : kvar == 3 ? 0.4 : kvar == 1 ? 3.0 : sym_real("len", 0.125, 20);
    std::vector<ParamCoord> tk; for (int i = 0; i <= p; ++i) tk.push_back(ParamCoord{lo}); for (int i = 0; i <= p; ++i) tk.push_back(ParamCoord{lo + len});
    KnotVectors<1> kt{std::make_shared<baf::KnotVector>(tk)};
    std::vector<baf::ControlPoint> cp; std::vector<double> w;
    for (auto &x : tp) { cp.emplace_back(x); w.push_back(1.0); }
    double wt = sym_real("wt", 0.125, 8);
    for (auto &x : w) x = wt;
    auto T = std::make_shared<spl::NURBS<1>>(kt, std::array<Degree, 1>{Degree{p}}, cp, w);
    std::vector<std::array<double, 3>> sc;
    for (int i = 0; i < nb; ++i) { double v = sym_real(nm("sc", i).c_str(), 0.125, 8); sc.push_back({v, i % 2 ? v : 1.0, 2.0}); }
    auto C = s.nurbs();
    int e = 0;
    std::shared_ptr<spl::NURBS<2>> N;
    sym_native(kvar == 3);
    try { spl::SurfaceGenerator g(T, C, nb, sc); N = std::make_shared<spl::NURBS<2>>(g); } catch (...) { e = 1; }
    sym_native(0);
    sym_check(!e, "sweeping raises no error");
    if (e || kvar == 3) return;
    int m = (int)s.P.size();
    auto n = N->GetPointsPerDirection();
    bool ok = n[0] == nb && n[1] == m && N->GetDegree(0).get() == p && N->GetDegree(1).get() == s.dir[0].p && N->GetKnotVector(1)->GetNumberOfKnots() == s.dir[0].knots.size();
    sym_check(ok, "sizes and degrees");
    if (!ok) return;
    for (size_t i = 0; i < s.dir[0].knots.size(); ++i) sym_check_eq(N->GetKnotVector(1)->GetKnot(i).get(), s.dir[0].knots[i], "knots of the section");
    sym_check_near(N->GetKnotVector(0)->GetKnot(0).get(), lo, 1e-9, "the surface starts where the trajectory starts");
    sym_check_near(N->GetKnotVector(0)->GetLastKnot().get(), lo + len, 1e-9, "the surface ends where the trajectory ends");
    auto k0 = N->GetKnotVector(0);
    bool nk = (int)k0->GetNumberOfKnots() == nb + p + 1;
    sym_check(nk, "number of knots along the trajectory");
    if (!nk) return;
    for (int i = 0; i < nb + p + 1; ++i) {
      double ex = i <= p ? 0.0 : 1.0;
      if (i > p && i < nb) { ex = 0; for (int j = i - p; j < i; ++j) ex += double(j) / (nb - 1) / p; }
      sym_check_near(k0->GetKnot(i).get(), lo + len * ex, 1e-9, "knots along the trajectory are averages of the station parameters");
    }
    for (int i = 0; i < nb; ++i) {
      double x = double(i) / (nb - 1);  // Bernstein parameter
      std::vector<double> pos(3, 0.0), tan(3, 0.0);
      double bin = 1;
      for (int k = 0; k <= p; ++k) {
        auto pw = [](double a, int q) { double r = 1; for (int z = 0; z < q; ++z) r *= a; return r; };
        double b = bin * pw(x, k) * pw(1 - x, p - k), db = bin * ((k ? k * pw(x, k - 1) * pw(1 - x, p - k) : 0) - (p - k ? (p - k) * pw(x, k) * pw(1 - x, p - k - 1) : 0));
        for (int j = 0; j < 3; ++j) { pos[j] += b * tp[k][j]; tan[j] += db * tp[k][j]; }
        bin = bin * (p - k) / (k + 1);
      }
      double tn = std::sqrt(tan[0] * tan[0] + tan[1] * tan[1] + tan[2] * tan[2]);
      std::vector<std::vector<double>> q(m), l(m);
      for (int j = 0; j < m; ++j) {
        double along = 0;
        for (int k = 0; k < 3; ++k) { q[j].push_back(N->GetControlPoint({i, j}, k) - pos[k]); l[j].push_back(s.P[j][k] * sc[i][k]); along = along + q[j][k] * (tan[k] / tn); }
        sym_check_near(along, l[j][0], 1e-7, "the first axis of the section points along the trajectory");
        sym_check_near(N->GetWeight({i, j}), s.W[j] * wt, 1e-9, "weights are multiplied");
        for (int h = 0; h <= j; ++h) {
          double a = 0, b = 0;
          for (int k = 0; k < 3; ++k) { a = a + q[j][k] * q[h][k]; b = b + l[j][k] * l[h][k]; }
          sym_check_near(a, b, 1e-5, "the section is scaled and moved rigidly");
        }
      }
    }
  }
}
