// Knot vector from averaged parameters: p+1 times the first parameter, moving averages of p parameters, p+1 times the last parameter.
// cfg: degree number-of-points
#include "common.h"
using namespace vf;
void harness_main() {
  Cfg c;
  int p = (int)c.next(), n = (int)c.next();
  std::vector<double> t = {sym_real("t0", -1000, 1000)};
  for (int i = 1; i < n; ++i) t.push_back(t.back() + sym_real(nm("d", i).c_str(), GAP, 1000));
  std::vector<ParamCoord> co;
  for (double x : t) co.push_back(ParamCoord{x});
  baf::KnotVector kv(co, Degree{p}, n);
  sym_check((int)kv.GetNumberOfKnots() == n + p + 1, "number of averaged knots");
  if ((int)kv.GetNumberOfKnots() != n + p + 1) return;
  for (int i = 0; i <= p; ++i) { sym_check_eq(kv.GetKnot(i).get(), t[0], "clamped start"); sym_check_eq(kv.GetKnot(n + p - i).get(), t.back(), "clamped end"); }
  for (int i = 1; i <= n - 1 - p; ++i) {
    double a = 0;
    for (int j = i; j < i + p; ++j) a = a + t[j];
    sym_check_eq(kv.GetKnot(p + i).get(), a / p, "averaged interior knot");
    sym_check_lt(kv.GetKnot(p + i - 1).get(), kv.GetKnot(p + i).get(), "averaged knots increase");
  }
}
