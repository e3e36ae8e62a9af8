// Basis functions: Cox-de Boor values, non-negativity, partition of unity, local support (through the public factory
// and through the parameter space of a spline).
#include "common.h"
#include "basis_function_factory.h"
using namespace vf;
void harness_main() {
  Cfg c;
  Dir d = readDir(&c);
  int loc = chooseLoc(d, "a");
  makeKnots(&d, "a", loc);
  RefBasis ref(d);
  ParamCoord u{d.u};
  baf::KnotVector kv(d.coords());
  double sum = 0;
  for (int i = 0; i < d.nbas(); ++i) {
    std::shared_ptr<baf::BasisFunction> b(baf::BasisFunctionFactory::CreateDynamic(kv, KnotSpan{i}, Degree{d.p}));
    double v = b->Evaluate(u);
    sym_check_eq(v, ref.N(i, d.p), "basis value equals Cox-de Boor");
    sym_check_le(0.0, v, "basis value is non-negative");
    sym_check_le(v, 1.0, "basis value is at most one");
    if (!ref.inSupport(i, d.p)) sym_check_eq(v, 0.0, "basis value vanishes outside support");
    sum = sum + v;
  }
  sym_check_eq(sum, 1.0, "partition of unity");
  spl::ParameterSpace<1> ps({std::make_shared<baf::KnotVector>(kv)}, {Degree{d.p}});
  auto all = ps.EvaluateAllNonZeroBasisFunctions(0, u);
  sym_check((int)all.size() == d.p + 1, "number of non-zero basis functions");
  int first = ps.GetArrayOfFirstNonZeroBasisFunctions({u})[0];
  sym_check(first >= 0 && first + d.p < d.nbas(), "non-zero range is valid");
  for (int i = 0; i < d.nbas(); ++i) {
    if (i >= first && i <= first + d.p) sym_check_eq(all[i - first], ref.N(i, d.p), "non-zero basis values");
    else sym_check_eq(ref.N(i, d.p), 0.0, "only listed basis functions are non-zero");
    sym_check_eq(ps.GetBasisFunctions({i}, {u}), ref.N(i, d.p), "basis value through parameter space");
  }
}
