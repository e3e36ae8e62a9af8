// Basis function derivatives of every order.
#include "common.h"
#include "basis_function_factory.h"
using namespace vf;
void harness_main() {
  Cfg c;
  Dir d = readDir(&c);
  int loc = chooseLoc(d, "a");
  makeKnots(&d, "a", loc);
  RefBasis ref(d);
  ParamCoord u{d.u};
  auto kv = d.kv();
  spl::ParameterSpace<1> ps({kv}, {Degree{d.p}});
  int first = ps.GetArrayOfFirstNonZeroBasisFunctions({u})[0];
  for (int k = 0; k <= d.p + 2; ++k) {
    double sum = 0;
    auto all = ps.EvaluateAllNonZeroBasisFunctionDerivatives(0, u, k);
    sym_check((int)all.size() == d.p + 1, "number of derivative values");
    for (int i = 0; i < d.nbas(); ++i) {
      std::shared_ptr<baf::BasisFunction> b(baf::BasisFunctionFactory::CreateDynamic(*kv, KnotSpan{i}, Degree{d.p}));
      double v = b->EvaluateDerivative(u, Derivative{k});
      sym_check_eq(v, ref.D(i, d.p, k), "derivative of the basis function");
      if (k == 0) sym_check_eq(v, b->Evaluate(u), "zeroth derivative is the value");
      if (k > d.p) sym_check_eq(v, 0.0, "derivatives beyond the degree vanish");
      if (i >= first && i <= first + d.p) sym_check_eq(all[i - first], v, "list of derivative values");
      sym_check_eq(ps.GetBasisFunctionDerivatives({i}, {u}, {k}), v, "derivative through parameter space");
      sum = sum + v;
    }
    sym_check_eq(sum, k == 0 ? 1.0 : 0.0, "derivatives sum to zero");
  }
}
