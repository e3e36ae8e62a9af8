// A sequence of modelling operations on one spline keeps the geometry; degrees, knots and sizes follow the sequence.
// cfg: csym wsym rational pd dirs... nops (op direction arg arg)*
//  op 0 insert breakpoint a, b times; 1 refine with breakpoints a and b; 2 raise the degree; 3 reduce the degree raised before;
//  4 remove breakpoint a, b times (inserted before); 5 cut at breakpoint a, go on with part b; 6 go on with a copy and (a = 1) cut up the original;
//  7 query everything; 8 ask for a removal that must be refused (knots of multiplicity zero: breakpoint a)
#define VWMAX 64.0
#include "common.h"
using namespace vf;
constexpr int DIM = VDIM;
typedef spl::Spline<DIM> S;
template <class SP> static std::shared_ptr<S> cut(const std::shared_ptr<S> &s, ParamCoord at, int dir, int part) {
  auto r = std::static_pointer_cast<SP>(s)->SudivideSpline(at, dir);
  return r[part];
}
template <class SP> static std::shared_ptr<S> copy(const std::shared_ptr<S> &s) { return std::make_shared<SP>(*std::static_pointer_cast<SP>(s)); }
void harness_main() {
  Cfg c;
  int csym = (int)c.next(), wsym = (int)c.next();
  Model<DIM> m;
  readModel(&c, &m);
  int nops = (int)c.next();
  struct Op { int op, dir, a, b; };
  std::vector<Op> ops;
  for (int i = 0; i < nops; ++i) { Op o; o.op = (int)c.next(); o.dir = (int)c.next(); o.a = (int)c.next(); o.b = (int)c.next(); ops.push_back(o); }
  // the parameter stays inside the part that remains
  std::array<int, DIM> first, last;
  for (int d = 0; d < DIM; ++d) { first[d] = 0; last[d] = m.dir[d].nspans(); }
  for (auto &o : ops) if (o.op == 5) (o.b ? first : last)[o.dir] = o.a;
  for (int d = 0; d < DIM; ++d) {
    int loc = 2 * first[d] + sym_choice((nm("d", d) + "loc").c_str(), 2 * (last[d] - first[d]) + 1);
    makeKnots(&m.dir[d], nm("d", d), loc);
  }
  m.makePoints("", csym, wsym);
  std::shared_ptr<S> s = m.spline();
  std::array<Dir, DIM> a = m.dir;                 // mult[] and p follow the sequence
  std::array<std::pair<int, int>, DIM> dom;       // remaining breakpoints
  for (int d = 0; d < DIM; ++d) dom[d] = {0, a[d].nspans()};
  bool exact = true;                              // every operation undone: the control points are the first ones again
  auto u = m.u();
  for (auto &o : ops) {
    Dir &t = a[o.dir];
    ParamCoord at{t.brk[o.a]};
    switch (o.op) {
      case 0: if (o.b == 1) s->InsertKnot(at, o.dir); else s->InsertKnot(at, o.dir, o.b); t.mult[o.a - 1] += o.b; break;
      case 1: s->RefineKnots({at, ParamCoord{t.brk[o.b]}}, o.dir); t.mult[o.a - 1]++; t.mult[o.b - 1]++; break;
      case 2: s->ElevateDegreeForDimension(o.dir); t.p++; for (int i = dom[o.dir].first + 1; i < dom[o.dir].second; ++i) if (t.mult[i - 1]) t.mult[i - 1]++; break;
      case 3: { bool ok = s->ReduceDegreeForDimension(o.dir, 1e-9); sym_check(ok, "a degree raised before can be reduced"); if (!ok) return; t.p--; for (int i = dom[o.dir].first + 1; i < dom[o.dir].second; ++i) if (t.mult[i - 1]) t.mult[i - 1]--; break; }
      case 4: { size_t k = o.b == 1 ? s->RemoveKnot(at, o.dir, 1e-9) : s->RemoveKnot(at, o.dir, 1e-9, o.b); sym_check((int)k == o.b, "knots inserted before can be removed"); if ((int)k != o.b) return; t.mult[o.a - 1] -= o.b; break; }
      case 5: s = m.rational ? cut<spl::NURBS<DIM>>(s, at, o.dir, o.b) : cut<spl::BSpline<DIM>>(s, at, o.dir, o.b); (o.b ? dom[o.dir].first : dom[o.dir].second) = o.a; exact = false; break;
      case 6: {
        auto old = s;
        s = m.rational ? copy<spl::NURBS<DIM>>(s) : copy<spl::BSpline<DIM>>(s);
        if (o.a) { double x = 0.5 * t.brk[dom[o.dir].first] + 0.5 * t.brk[dom[o.dir].first + 1]; old->InsertKnot(ParamCoord{x}, o.dir); for (int d = 0; d < DIM; ++d) old->ElevateDegreeForDimension(d); }
        break;
      }
      case 7: {
        std::array<int, DIM> one; one.fill(1);
        s->EvaluateDerivative(u, dims(m.pd), one); s->GetExpansion();
        for (int d = 0; d < DIM; ++d) s->EvaluateAllNonZeroBasisFunctions(d, u[d]);
        break;
      }
      default: { size_t k = s->RemoveKnot(at, o.dir, 1e-9); sym_check(k == 0, "a knot that is not there cannot be removed"); }
    }
    int total = 1;
    bool structure = true;
    for (int d = 0; d < DIM; ++d) {
      std::vector<double> want;
      for (int i = dom[d].first; i <= dom[d].second; ++i) { int q = (i == dom[d].first || i == dom[d].second) ? a[d].p + 1 : a[d].mult[i - 1]; for (int j = 0; j < q; ++j) want.push_back(a[d].brk[i]); }
      auto kv = s->GetKnotVector(d);
      int n = (int)want.size() - a[d].p - 1;
      total *= n;
      bool ok = kv->GetNumberOfKnots() == want.size() && s->GetDegree(d).get() == a[d].p && s->GetPointsPerDirection()[d] == n;
      sym_check(ok, "degree, number of knots and points after each operation");
      structure = structure && ok;
      if (ok) for (size_t j = 0; j < want.size(); ++j) sym_check_eq(kv->GetKnot(j).get(), want[j], "knots after each operation");
    }
    sym_check(s->GetNumberOfControlPoints() == total, "number of control points after each operation");
    if (!structure) return;
  }
  auto e = s->Evaluate(u, dims(m.pd));
  for (int j = 0; j < m.pd; ++j) sym_check_eq(e[j], m.refEval(j), "geometry after the sequence");
  for (int d = 0; d < DIM; ++d) if (a[d].p != m.dir[d].p || a[d].mult != m.dir[d].mult) exact = false;
  if (exact) for (int f = 0; f < m.total(); ++f) {
    for (int j = 0; j < m.pd; ++j) sym_check_eq(s->GetControlPoint(m.idx(f), j), m.P[f][j], "control points restored");
    sym_check_eq(s->GetWeight(m.idx(f)), m.W[f], "weights restored");
  }
}
