// Splines made from the same data, copies and parts of a split spline never influence each other; queries change nothing.
// cfg: csym, wsym, rational, pd, DIM directions, direction of the operation
#include "common.h"
using namespace vf;
constexpr int DIM = VDIM;
using S = spl::Spline<DIM>;
struct Snap {
  std::array<int, DIM> deg, n; std::array<std::vector<double>, DIM> kn; std::vector<double> cp, w, ev;
};
static std::vector<int> DIMS;
static bool REMOVE = true;  // removal takes norms: not with all points and weights of a NURBS symbolic
static Snap snap(const S &s, const std::array<ParamCoord, DIM> *u) {
  Snap r;
  r.n = s.GetPointsPerDirection();
  int t = 1;
  for (int d = 0; d < DIM; ++d) {
    r.deg[d] = s.GetDegree(d).get(); t *= r.n[d];
    for (size_t i = 0; i < s.GetKnotVector(d)->GetNumberOfKnots(); ++i) r.kn[d].push_back(s.GetKnotVector(d)->GetKnot(i).get());
  }
  for (int f = 0; f < t; ++f) {
    std::array<int, DIM> a; int g = f; for (int d = 0; d < DIM; ++d) { a[d] = g % r.n[d]; g /= r.n[d]; }
    for (int j : DIMS) r.cp.push_back(s.GetControlPoint(a, j));
    r.w.push_back(s.GetWeight(a));
  }
  if (u) r.ev = s.Evaluate(*u, DIMS);
  return r;
}
static void same(const Snap &a, const Snap &b, const char *what) {
  std::string w = what;
  bool ok = a.deg == b.deg && a.n == b.n && a.cp.size() == b.cp.size();
  for (int d = 0; d < DIM; ++d) ok = ok && a.kn[d].size() == b.kn[d].size();
  sym_check(ok, (w + ": degrees and sizes unchanged").c_str());
  if (!ok) return;
  for (int d = 0; d < DIM; ++d) for (size_t i = 0; i < a.kn[d].size(); ++i) sym_check_eq(a.kn[d][i], b.kn[d][i], (w + ": knots unchanged").c_str());
  for (size_t i = 0; i < a.cp.size(); ++i) sym_check_eq(a.cp[i], b.cp[i], (w + ": control points unchanged").c_str());
  for (size_t i = 0; i < a.w.size(); ++i) sym_check_eq(a.w[i], b.w[i], (w + ": weights unchanged").c_str());
  for (size_t i = 0; i < a.ev.size() && i < b.ev.size(); ++i) sym_check_eq(a.ev[i], b.ev[i], (w + ": points unchanged").c_str());
}
template <class SP> static void go(const Model<DIM> &m, std::function<std::shared_ptr<SP>(const KnotVectors<DIM> &)> make, int dir, double cut) {
  KnotVectors<DIM> kv = m.kvs();
  auto u = m.u();
  auto a = make(kv), b = make(kv);
  auto c = std::make_shared<SP>(*a);
  std::array<ParamCoord, DIM> corner;
  for (int d = 0; d < DIM; ++d) corner[d] = ParamCoord{m.dir[d].brk.front()};
  std::shared_ptr<SP> e;  // a NURBS with the knots and weights of the first one and other control points
  if constexpr (std::is_same<SP, spl::NURBS<DIM>>::value) {
    std::vector<baf::ControlPoint> other;
    for (int i = 0; i < m.total(); ++i) { std::vector<double> x; for (int j = 0; j < m.pd; ++j) x.push_back(m.P[m.total() - 1 - i][j] + j); other.emplace_back(x); }
    e = std::make_shared<SP>(*a, other);
  }
  int op = sym_choice("op", e ? 12 : 10);
  std::array<std::shared_ptr<SP>, 2> parts;
  if (op == 5 || op == 6) parts = a->SudivideSpline(ParamCoord{cut}, dir);
  Snap sa = snap(*a, &u), sb = snap(*b, &u), sc = snap(*c, &u), se, p0, p1;
  if (e) se = snap(*e, &u);
  if (!parts[0]) { same(sa, sb, "spline from the same data equals the first"); same(sa, sc, "copy equals the original"); }
  if (parts[0]) { p0 = snap(*parts[0], nullptr); p1 = snap(*parts[1], nullptr); }
  std::array<int, DIM> der; der.fill(0); der[dir] = 1;
  int od = dir;
  switch (op) {
    case 0: a->InsertKnot(ParamCoord{cut}, dir); break;
    case 1: c->InsertKnot(ParamCoord{cut}, dir); break;
    case 2: a->ElevateDegreeForDimension(dir); break;
    case 3: c->ElevateDegreeForDimension(dir); break;
    case 4: a->SudivideSpline(ParamCoord{cut}, dir); break;
    case 5: for (int d = 0; d < DIM; ++d) if (d != dir) od = d; parts[0]->ElevateDegreeForDimension(od); break;
    case 6: a->InsertKnot(ParamCoord{m.dir[od].brk.front() + 0.5 * (cut - m.dir[od].brk.front())}, dir); break;
    case 7: kv[dir]->InsertKnot(ParamCoord{cut}); break;
    case 8: if (REMOVE) a->RemoveKnot(ParamCoord{m.dir[dir].brk[m.dir[dir].brk.size() > 2 ? 1 : 0]}, dir, 1000.0, 1); break;
    case 10: e->InsertKnot(ParamCoord{cut}, dir); break;
    case 11: e->ElevateDegreeForDimension(dir); break;
    default:
      a->Evaluate(u, DIMS); a->EvaluateDerivative(u, DIMS, der); a->EvaluateAllNonZeroBasisFunctions(dir, u[dir]); a->EvaluateAllNonZeroBasisFunctionDerivatives(dir, u[dir], 1);
      a->AreEqual(*c); a->GetExpansion(); a->GetKnotVectorRange(dir); a->Evaluate(corner, DIMS);
  }
  bool achanged = op == 0 || op == 2 || op == 4 || op == 6 || op == 8, cchanged = op == 1 || op == 3;
  if (!achanged) same(sa, snap(*a, &u), "original");
  same(sb, snap(*b, &u), "spline from the same knot vectors");
  if (!cchanged) same(sc, snap(*c, &u), "copy");
  if (e && op < 10) same(se, snap(*e, &u), "spline with other control points");
  if (parts[0]) { if (op != 5) same(p0, snap(*parts[0], nullptr), "first part"); same(p1, snap(*parts[1], nullptr), "second part"); }
  if (op != 7)
    for (int d = 0; d < DIM; ++d) {
      bool ok = kv[d]->GetNumberOfKnots() == m.dir[d].knots.size();
      sym_check(ok, "knot vector given to the constructor: size unchanged");
      if (ok) for (size_t i = 0; i < m.dir[d].knots.size(); ++i) sym_check_eq(kv[d]->GetKnot(i).get(), m.dir[d].knots[i], "knot vector given to the constructor: unchanged");
    }
}
void harness_main() {
  Cfg c;
  int cs = (int)c.next(), ws = (int)c.next();
  Model<DIM> m; readModel(&c, &m);
  int dir = (int)c.next();
  for (int d = 0; d < DIM; ++d) makeKnots(&m.dir[d], nm("a", d), 1);
  m.makePoints("", cs, ws);
  REMOVE = !m.rational || !(cs && ws);
  DIMS = dims(m.pd);
  double cut = m.dir[dir].u;  // strictly inside the first span
  auto deg = m.degs(); auto cp = m.cps();
  if (m.rational) go<spl::NURBS<DIM>>(m, [&](const KnotVectors<DIM> &kv) { return std::make_shared<spl::NURBS<DIM>>(kv, deg, cp, m.W); }, dir, cut);
  else go<spl::BSpline<DIM>>(m, [&](const KnotVectors<DIM> &kv) { return std::make_shared<spl::BSpline<DIM>>(kv, deg, cp); }, dir, cut);
}
