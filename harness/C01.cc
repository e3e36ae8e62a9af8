// Knot vector queries and editing, for arbitrary (also unclamped) non-decreasing knot vectors.
#include "common.h"
using namespace vf;
// configuration: number of breakpoints, multiplicity of each
void harness_main() {
  Cfg c;
  int nb = (int)c.next();
  std::vector<int> mult;
  for (int i = 0; i < nb; ++i) mult.push_back((int)c.next());
  // location: 0 before the first, 1+2i at breakpoint i, 2+2i between i and i+1, 2nb after the last
  int loc = sym_choice("loc", 2 * nb + 1);
  std::vector<double> b;
  double u = 0, cur = sym_real("start", -1000, 1000);
  for (int i = 0; i < nb; ++i) {
    if (loc == 2 * i) { u = cur; cur = cur + sym_real(nm("e", i).c_str(), GAP, 1000); }
    b.push_back(cur);
    if (loc == 2 * i + 1) u = cur;
    cur = cur + sym_real(nm("d", i).c_str(), GAP, 1000);
  }
  if (loc == 2 * nb) u = cur;
  std::vector<ParamCoord> k;
  std::vector<int> ki;
  for (int i = 0; i < nb; ++i) for (int j = 0; j < mult[i]; ++j) { k.push_back(ParamCoord{b[i]}); ki.push_back(i); }
  int n = (int)k.size();
  baf::KnotVector kv(k);
  const baf::KnotVector &ckv = kv;
  ParamCoord pu{u};
  bool at = loc % 2 == 1, in = loc >= 1 && loc <= 2 * nb - 1;
  int at_i = loc / 2;
  int m = at ? mult[at_i] : 0;
  // queries
  sym_check((int)kv.GetNumberOfKnots() == n, "number of knots");
  sym_check(kv.GetNumberOfDifferentKnots() == nb, "number of different knots");
  for (int i = 0; i < n; ++i) { sym_check_eq(kv.GetKnot(i).get(), b[ki[i]], "knot access"); sym_check_eq(kv[i].get(), b[ki[i]], "knot access []"); }
  sym_check_eq(kv.GetLastKnot().get(), b[nb - 1], "last knot");
  { int i = 0; for (auto it = ckv.begin(); it != ckv.end(); ++it, ++i) sym_check_eq(it->get(), b[ki[i]], "iteration"); sym_check(i == n, "iteration length"); }
  sym_check((int)kv.GetMultiplicity(pu) == m, "multiplicity");
  sym_check(kv.IsInKnotVectorRange(pu) == in, "range membership");
  sym_check(kv.IsLastKnot(pu) == (at && at_i == nb - 1), "last knot test");
  // number of knots <= u, < u
  int le = 0, lt = 0;
  for (int i = 0; i < n; ++i) { if (2 * ki[i] + 1 <= loc) ++le; if (2 * ki[i] + 1 < loc) ++lt; }
  int span = -1;
  if (in && nb > 1) {
    span = kv.GetKnotSpan(pu).get();
    int want = (at && at_i == nb - 1) ? lt - 1 : le - 1;
    sym_check(span == want, "knot span");
    sym_check(span >= 0 && span + 1 < n && ki[span] < ki[span + 1], "knot span is not empty");
  }
  // copies and assignment
  baf::KnotVector copy(kv), assigned;
  assigned = kv;
  sym_check(copy == kv && kv == copy && assigned == kv, "copies compare equal");
  {
    baf::KnotVector moved(std::move(assigned));
    sym_check(moved == kv, "moved knot vector compares equal");
    baf::KnotVector range(ckv.begin(), ckv.end());
    sym_check(range == kv, "knot vector from range");
    auto diff = kv - copy;
    for (int i = 0; i < n; ++i) sym_check_eq(diff.GetKnot(i).get(), 0.0, "difference with itself");
    std::vector<ParamCoord> o;
    for (int i = 0; i < n; ++i) o.push_back(ParamCoord{sym_real(nm("o", i).c_str(), -1000, 1000)});
    auto diff2 = kv - baf::KnotVector(o);
    sym_check((int)diff2.GetNumberOfKnots() == n, "length of the difference");
    for (int i = 0; i < n; ++i) sym_check_eq(diff2.GetKnot(i).get(), b[ki[i]] - o[i].get(), "difference entry by entry");
  }
  // insertion
  if (in && nb > 1) {
    kv.InsertKnot(pu);
    sym_check((int)kv.GetNumberOfKnots() == n + 1, "insertion adds one knot");
    for (int i = 0; i < n + 1 && i < (int)kv.GetNumberOfKnots(); ++i)
      sym_check_eq(kv.GetKnot(i).get(), i < lt ? b[ki[i]] : i == lt ? u : b[ki[i - 1]], "insertion keeps the sorted multiset");
    sym_check((int)kv.GetMultiplicity(pu) == m + 1, "insertion raises the multiplicity");
    sym_check(!(kv == copy), "insertion changes the vector");
    for (int i = 0; i < n; ++i) sym_check_eq(copy.GetKnot(i).get(), b[ki[i]], "copy unaffected by insertion");
    kv.RemoveKnot(pu);
    sym_check(kv == copy && (int)kv.GetNumberOfKnots() == n, "removal undoes insertion");
    if (at && n > 1) {
      kv.RemoveKnot(pu);
      sym_check((int)kv.GetNumberOfKnots() == n - 1, "removal drops one knot");
      int q = 0;
      bool dropped = false;
      for (int i = 0; i < n; ++i) {
        if (!dropped && ki[i] == at_i) { dropped = true; continue; }
        if (q < (int)kv.GetNumberOfKnots()) sym_check_eq(kv.GetKnot(q).get(), b[ki[i]], "removal keeps the other knots");
        ++q;
      }
    }
  }
}
