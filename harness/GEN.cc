// Generators: the square, random splines (every random draw symbolic), elements of a spline.
// cfg: mode 0 square: degree, number of knots; mode 1 elements: directions; mode 2 random: rational, max degree, point dimension, small
#include "common.h"
#include "element_generator.h"
#include "random.h"
static int DRAWS = 0;
static int SMALL = 0;
namespace util {  // a random number is any number of its range
template <> int Random::GetBinomialRandom<int>(double min, double max, double distance) {
  int n = (int)((max - min) / distance) + 1;
  if (SMALL && n > 2) { int k = sym_choice(("r" + std::to_string(DRAWS++)).c_str(), 2); return (int)((k ? n - 1 : 1) * distance + min); }
  return (int)(sym_choice(("r" + std::to_string(DRAWS++)).c_str(), n) * distance + min);
}
template <> double Random::GetBinomialRandom<double>(double min, double max, double) { return sym_real(("r" + std::to_string(DRAWS++)).c_str(), min, max); }
}  // namespace util
#include "square_generator.h"
#include "random_b_spline_generator.h"
#include "random_nurbs_generator.h"
using namespace vf;
constexpr int DIM = VDIM;
static void square(Cfg *c) {
  int p = (int)c->next(), n = (int)c->next();
  std::unique_ptr<spl::BSpline<2>> s = p == 2 && n == 6 ? spl::SquareGenerator().CreateSquare() : spl::SquareGenerator(Degree{p}, n).CreateSquare();
  int spans = n - 2 * p - 1;
  for (int d = 0; d < 2; ++d) {
    sym_check(s->GetDegree(d).get() == p && (int)s->GetKnotVector(d)->GetNumberOfKnots() == n, "degree and number of knots");
    if ((int)s->GetKnotVector(d)->GetNumberOfKnots() != n) return;
    for (int i = 0; i < n; ++i) {
      double w = i <= p ? 0.0 : i >= n - p - 1 ? 1.0 : double(i - p) / spans;
      sym_check_near(s->GetKnotVector(d)->GetKnot(i).get(), w, 1e-9, "uniform clamped knots on the unit interval");
    }
  }
  int a = sym_choice("su", spans), b = sym_choice("sv", spans);
  auto K = [&](int i) { return s->GetKnotVector(0)->GetKnot(p + i).get(); };
  double u = sym_real("u", K(a) + 1e-6, K(a + 1) - 1e-6), v = sym_real("v", K(b) + 1e-6, K(b + 1) - 1e-6), v2 = sym_real("t", K(b) + 1e-6, K(b + 1) - 1e-6);
  auto E = [&](double x, double y) { return s->Evaluate({ParamCoord{x}, ParamCoord{y}}, {0, 1}); };
  auto e = E(u, v), t = E(v, u), o = E(u, v2);
  for (int j = 0; j < 2; ++j) { sym_check_le(-1.0, e[j] + 1e-9, "inside the square"); sym_check_le(e[j], 1.0 + 1e-9, "inside the square"); sym_check_near(e[j], t[1 - j], 1e-9, "symmetric"); }
  sym_check_near(e[0], o[0], 1e-9, "x depends on the first parameter only");
  for (int k = 0; k < 2; ++k) {
    sym_check_near(E(k, v)[0], 2.0 * k - 1, 1e-9, "edges lie on the edges of the square");
    sym_check_near(E(u, k)[1], 2.0 * k - 1, 1e-9, "edges lie on the edges of the square");
  }
  auto du = s->EvaluateDerivative({ParamCoord{u}, ParamCoord{v}}, {0, 1}, {1, 0});
  sym_check_lt(1e-6, du[0], "not folded");
}
static void elements(Cfg *c) {
  Model<DIM> m; readModel(c, &m);
  for (int d = 0; d < DIM; ++d) makeKnots(&m.dir[d], nm("a", d), -1);
  m.makePoints("", 0, 0);
  util::ElementGenerator<DIM> g(m.spline());
  for (int d = 0; d < DIM; ++d) {
    auto l = g.GetElementList(d);
    auto &b = m.dir[d].brk;
    sym_check(l.size() + 1 == b.size(), "one element per non-empty knot span");
    if (l.size() + 1 != b.size()) return;
    for (size_t i = 0; i < l.size(); ++i) { sym_check_eq(l[i].GetLowerBound().get(), b[i], "bounds of the elements"); sym_check_eq(l[i].GetUpperBound().get(), b[i + 1], "bounds of the elements"); }
  }
}
template <class S> static void look(const S &s, double lo, double hi, int maxd, int pd, bool rat) {
  int total = 1;
  auto n = s.GetPointsPerDirection();
  sym_check(s.GetPointDim() == pd, "point dimension");
  for (int d = 0; d < DIM; ++d) {
    int p = s.GetDegree(d).get(), k = (int)s.GetKnotVector(d)->GetNumberOfKnots();
    sym_check(p >= 1 && p <= maxd, "degree within its limits");
    sym_check(k >= 2 * p + 2 && n[d] == k - p - 1, "numbers of knots and points fit");
    if (k < 2 * p + 2) return;
    total *= n[d];
    for (int i = 0; i <= p; ++i) { sym_check_eq(s.GetKnotVector(d)->GetKnot(i).get(), lo, "clamped at the lower limit"); sym_check_eq(s.GetKnotVector(d)->GetKnot(k - 1 - i).get(), hi, "clamped at the upper limit"); }
    for (int i = p; i < k - p - 1; ++i) sym_check_lt(s.GetKnotVector(d)->GetKnot(i).get(), s.GetKnotVector(d)->GetKnot(i + 1).get(), "interior knots increase");
  }
  sym_check(s.GetNumberOfControlPoints() == total, "number of points");
  for (int f = 0; f < total; ++f) {
    std::array<int, DIM> a; int q = f;
    for (int d = 0; d < DIM; ++d) { a[d] = q % n[d]; q /= n[d]; }
    for (int j = 0; j < pd; ++j) { sym_check_le(-5.0, s.GetControlPoint(a, j), "coordinates within their limits"); sym_check_le(s.GetControlPoint(a, j), 5.0, "coordinates within their limits"); }
    if (rat) sym_check_lt(0.0, s.GetWeight(a), "weights are positive");
  }
  // it can be evaluated at both ends
  for (int e = 0; e < 2; ++e) {
    std::array<ParamCoord, DIM> u; std::array<int, DIM> a;
    for (int d = 0; d < DIM; ++d) { u[d] = ParamCoord{e ? hi : lo}; a[d] = e ? n[d] - 1 : 0; }
    auto v = s.Evaluate(u, dims(pd));
    for (int j = 0; j < pd; ++j) sym_check_eq(v[j], s.GetControlPoint(a, j), "the ends are the corner points");
  }
}
void harness_main() {
  Cfg c;
  int mode = (int)c.next();
  if (mode == 0) return square(&c);
  if (mode == 1) return elements(&c);
  int rat = (int)c.next(), maxd = (int)c.next(), pd = (int)c.next();
  SMALL = (int)c.next();
  double lo = sym_real("lo", -100, 100), hi = lo + sym_real("len", 0.0625, 100);
  int e = 0;
  std::array<ParamCoord, 2> lim{ParamCoord{lo}, ParamCoord{hi}};
  try {
    if (rat) look(spl::NURBS<DIM>(spl::RandomNURBSGenerator<DIM>(lim, maxd, pd)), lo, hi, maxd, pd, true);
    else look(spl::BSpline<DIM>(spl::RandomBSplineGenerator<DIM>(lim, maxd, pd)), lo, hi, maxd, pd, false);
  } catch (std::exception &) { e = 1; }
  sym_check(!e, "random generation raises no error");
}
