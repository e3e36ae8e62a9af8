// Point and vector arithmetic, accessors and setters of the physical spaces.
// cfg: mode ...
#include "common.h"
#include "vector_utils.h"
#include "numeric_settings.h"
using namespace vf;
constexpr int DIM = VDIM;
typedef std::vector<double> Vec;
typedef util::VectorUtils<double> VU;
static Vec symVec(const char *t, int n) { Vec r; for (int i = 0; i < n; ++i) r.push_back(sym_real(nm(t, i).c_str(), -1000, 1000)); return r; }
static double dot(const Vec &a, const Vec &b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s = s + a[i] * b[i]; return s; }
static void same(const Vec &g, const Vec &w, const char *l) {
  sym_check(g.size() == w.size(), l);
  if (g.size() != w.size()) return;
  for (size_t i = 0; i < w.size(); ++i) sym_check_eq(g[i], w[i], l);
}
static Vec coords(const baf::ControlPoint &p) { Vec r; for (int i = 0; i < p.GetDimension(); ++i) r.push_back(p.GetValue(i)); return r; }
void harness_main() {
  Cfg c;
  int mode = (int)c.next();
  if (mode == 0) {
    int n = (int)c.next();
    Vec a = symVec("a", n), b = symVec("b", n), s(n), d(n), k(n);
    double f = sym_real("f", -1000, 1000);
    for (int i = 0; i < n; ++i) { s[i] = a[i] + b[i]; d[i] = a[i] - b[i]; k[i] = a[i] * f; }
    baf::ControlPoint A(a), B(b);
    same(coords(A), a, "coordinates of a point");
    same(coords(baf::ControlPoint((uint64_t)n)), Vec(n, 0.0), "a point of given dimension is the origin");
    same(coords(A + B), s, "sum of points"); same(coords(A - B), d, "difference of points"); same(coords(A * f), k, "multiple of a point");
    same(coords(A), a, "operands are unchanged"); same(coords(B), b, "operands are unchanged");
    double r = A.GetEuclideanNorm();
    sym_check_le(0.0, r, "norm of a point"); sym_check_eq(r * r, dot(a, a), "norm of a point");
    int w = sym_choice("set", n);
    A.SetValue(w, f); a[w] = f;
    same(coords(A), a, "setting one coordinate");
    return;
  }
  if (mode == 1) {
    Vec p = symVec("p", 3), s = symVec("s", 3), x(3);
    std::array<std::array<double, 4>, 4> m;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m[i][j] = sym_real(nm("m", i, j).c_str(), -1000, 1000);
    for (int i = 0; i < 3; ++i) { x[i] = m[i][3]; for (int j = 0; j < 3; ++j) x[i] = x[i] + m[i][j] * (s[j] * p[j]); }
    baf::ControlPoint P(p);
    same(coords(P.Transform(m, {s[0], s[1], s[2]})), x, "scaled and transformed point");
    same(coords(P), p, "operands are unchanged");
    return;
  }
  if (mode == 2) {
    int n = (int)c.next();
    Vec a = symVec("a", n), b = symVec("b", n), d(n), k(n);
    double f = sym_real("f", -1000, 1000);
    for (int i = 0; i < n; ++i) { d[i] = a[i] - b[i]; k[i] = a[i] * f; }
    same(VU::ComputeDifference(a, b), d, "difference of vectors"); same(VU::ScaleVector(a, f), k, "multiple of a vector");
    sym_check_eq(VU::ComputeScalarProduct(a, b), dot(a, b), "scalar product");
    double r = VU::ComputeTwoNorm(a), e = VU::ComputeDistance(a, b);
    sym_check_le(0.0, r, "norm of a vector"); sym_check_eq(r * r, dot(a, a), "norm of a vector");
    sym_check_le(0.0, e, "distance of vectors"); sym_check_eq(e * e, dot(d, d), "distance of vectors");
    if (n == 3) same(VU::CrossProduct(a, b), {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}, "vector product");
    return;
  }
  if (mode == 3) {
    int n = (int)c.next(), k = (int)c.next();
    Vec a = symVec("a", n), w;
    std::vector<int> pos; bool bad = false;
    for (int i = 0; i < k; ++i) { int p = sym_choice(nm("p", i).c_str(), n + 3) - 1; pos.push_back(p); if (p < 0 || p >= n) bad = true; else w.push_back(a[p]); }
    Vec g; int e = 0;
    try { g = VU::FilterVector(a, pos); } catch (std::runtime_error &) { e = 1; } catch (...) { e = 2; }
    sym_check(e == (bad ? 1 : 0), "positions outside the vector are refused with a runtime error");
    if (!e && !bad) same(g, w, "the entries at the positions, in their order");
    return;
  }
  if (mode == 4) {
    int cs = (int)c.next(), ws = (int)c.next();
    Model<DIM> m; readModel(&c, &m);
    for (int d = 0; d < DIM; ++d) makeKnots(&m.dir[d], nm("a", d), -1);
    m.makePoints("", cs, ws);
    auto s = m.spline();
    sym_check(s->GetPointDim() == m.pd && s->GetNumberOfControlPoints() == m.total() && s->GetPointsPerDirection() == m.n, "sizes");
    double mx = 0, mw = m.W[0];
    for (int f = 0; f < m.total(); ++f) {
      auto a = m.idx(f);
      same(coords(s->GetControlPoint(a)), m.P[f], "control point at its indices");
      for (int j = 0; j < m.pd; ++j) { sym_check_eq(s->GetControlPoint(a, j), m.P[f][j], "coordinate at its indices"); if (m.P[f][j] > mx) mx = m.P[f][j]; }
      sym_check_eq(s->GetWeight(a), m.W[f], "weight at its indices");
      if (m.W[f] < mw) mw = m.W[f];
    }
    sym_check_eq(s->GetExpansion(), mx, "the expansion is the largest coordinate (at least zero)");
    for (int d = 0; d < DIM; ++d) {
      sym_check(s->GetDegree(d).get() == m.dir[d].p, "degree");
      sym_check_eq(s->GetKnotVectorRange(d), m.dir[d].brk.back() - m.dir[d].brk[0], "range of the knot vector");
      auto k = s->GetKnotVector(d);
      sym_check(k->GetNumberOfKnots() == m.dir[d].knots.size(), "number of knots");
    }
    spl::WeightedPhysicalSpace<DIM> w(m.cps(), m.W, m.n);
    sym_check_eq(w.GetMinimumWeight(), mw, "minimum weight");
    same(w.GetWeights(), m.W, "weights");
    auto mi = w.GetMaximumPointIndexInEachDirection();
    for (int d = 0; d < DIM; ++d) sym_check(mi[d] == m.n[d] - 1, "largest indices");
    for (int f = 0; f < m.total(); ++f) {
      Vec h; for (int j = 0; j < m.pd; ++j) h.push_back(m.P[f][j] * m.W[f]); h.push_back(m.W[f]);
      same(coords(w.GetHomogenousControlPoint(m.idx(f))), h, "homogeneous control point");
    }
    return;
  }
  if (mode == 5) {  // largest distance from the origin
    Model<DIM> m; m.rational = false; m.pd = (int)c.next();
    for (int d = 0; d < DIM; ++d) m.dir[d] = readDir(&c);
    for (int d = 0; d < DIM; ++d) makeKnots(&m.dir[d], nm("a", d), -1);
    m.makePoints("", 1, 0);
    spl::PhysicalSpace<DIM> s(m.cps(), m.n);
    double r = s.GetMaximumDistanceFromOrigin();
    sym_check_le(0.0, r, "largest distance from the origin");
    bool any = false;
    for (auto &p : m.P) { double q = dot(p, p); sym_check_le(q, r * r, "no control point is farther from the origin"); if (r * r == q) any = true; }
    sym_check(any, "the largest distance is attained");
    return;
  }
  // setters
  int rat = (int)c.next();
  Model<DIM> m; m.rational = true; m.pd = (int)c.next();
  for (int d = 0; d < DIM; ++d) m.dir[d] = readDir(&c);
  for (int d = 0; d < DIM; ++d) makeKnots(&m.dir[d], nm("a", d), -1);
  m.makePoints("", 1, 1);
  spl::WeightedPhysicalSpace<DIM> w(m.cps(), m.W, m.n);
  int at = sym_choice("at", m.total());
  Vec x = symVec("x", m.pd); double v = sym_real("v", 0.125, 8);
  if (rat) w.SetWeightedControlPoint(m.idx(at), baf::ControlPoint(x), v); else { w.SetControlPoint(m.idx(at), baf::ControlPoint(x)); w.SetWeight(m.idx(at), v); }
  m.P[at] = x; m.W[at] = v;
  for (int f = 0; f < m.total(); ++f) { same(coords(w.GetControlPoint(m.idx(f))), m.P[f], "setting a control point changes that one only"); sym_check_eq(w.GetWeight(m.idx(f)), m.W[f], "setting a weight changes that one only"); }
}
