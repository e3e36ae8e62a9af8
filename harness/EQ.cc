// Equality predicates.
// cfg: mode (0 AreEqual, 1 AreGeometricallyEqual), rational, pd, DIM directions [, mode 1: sub mode + 10 * index of the tolerance]
#include "common.h"
using namespace vf;
constexpr int DIM = VDIM;
template <class SP> static void areEqual(const Model<DIM> &m, std::function<std::shared_ptr<SP>(const Model<DIM> &)> make) {
  double tol = sym_real("tol", 1e-12, 4);
  Model<DIM> q = m;
  int nk = 0; for (int d = 0; d < DIM; ++d) nk += (int)m.dir[d].knots.size();
  int np = m.total() * m.pd, nw = m.rational ? m.total() : 0;
  int what = sym_choice("what", nk + np + nw + 2);
  auto a = make(m);
  double delta = sym_real("delta", -8, 8);
  int expect = 1;  // 1: depends on delta
  if (what < nk) {
    int d = 0, i = what; while (i >= (int)m.dir[d].knots.size()) { i -= (int)m.dir[d].knots.size(); ++d; }
    // only the whole breakpoint can move (ends stay clamped)
    for (size_t j = 0; j < q.dir[d].knots.size(); ++j) if (q.dir[d].kidx[j] == q.dir[d].kidx[i] && (q.dir[d].kidx[i] == 0 || q.dir[d].kidx[i] == q.dir[d].kidx.back() || (int)j == i)) q.dir[d].knots[j] = q.dir[d].knots[j] + delta;
    // keep the order
    for (size_t j = 0; j + 1 < q.dir[d].knots.size(); ++j) sym_assume_le(q.dir[d].knots[j], q.dir[d].knots[j + 1]);
  } else if (what < nk + np) { int i = what - nk; q.P[i / m.pd][i % m.pd] = q.P[i / m.pd][i % m.pd] + delta; }
  else if (what < nk + np + nw) { int i = what - nk - np; q.W[i] = q.W[i] + delta; sym_assume_lt(0.0, q.W[i]); }
  else if (what == nk + np + nw) expect = 2;  // equal
  else expect = 3;                            // different structure
  std::shared_ptr<SP> b;
  if (expect == 3) {
    int kind = sym_choice("kind", 3);
    if (kind == 0) { b = make(m); b->InsertKnot(ParamCoord{m.dir[DIM - 1].brk[0] + 0.5 * (m.dir[DIM - 1].brk[1] - m.dir[DIM - 1].brk[0])}, DIM - 1); }
    else if (kind == 1) {  // one more coordinate
      q.pd = m.pd + 1; for (auto &p : q.P) p.push_back(p[0]);
      b = make(q);
    } else { // other degree, same number of knots where possible
      b = make(m); b->ElevateDegreeForDimension(0);
    }
  } else b = make(q);
  bool r1 = a->AreEqual(*b, tol), r2 = b->AreEqual(*a, tol);
  sym_check(r1 == r2, "symmetric");
  if (expect == 1) {
    if (r1) { sym_check_le(delta, tol, "accepted only within the tolerance"); sym_check_le(0.0 - tol, delta, "accepted only within the tolerance"); }
    else { double d2 = delta * delta - tol * tol; sym_check_le(0.0, d2, "refused only beyond the tolerance"); }
  } else if (expect == 2) { sym_check(r1, "equal splines are equal"); sym_check(a->AreEqual(*b), "equal splines are equal at the default tolerance"); }
  else { sym_check(!r1, "splines of different structure differ"); sym_check(!a->AreEqual(*b), "splines of different structure differ"); }
}
template <class SP> static void geom(const Model<DIM> &m, std::function<std::shared_ptr<SP>(const Model<DIM> &)> make, int sub) {
  auto a = make(m), b = make(m);
  static const double tols[] = {0.125, 1e-9, 2, 1e-6};
  double tol = tols[sub / 10]; sub %= 10;
  if (sub == 0) {       // same geometry, other representation
    int op = sym_choice("op", 3), dir = sym_choice("dir", DIM);
    double k = m.dir[dir].brk[0] + 0.375 * (m.dir[dir].brk[1] - m.dir[dir].brk[0]);
    if (op == 0) b->InsertKnot(ParamCoord{k}, dir);
    if (op == 1) b->ElevateDegreeForDimension(dir);
    sym_check(a->AreGeometricallyEqual(*b, tol), "the same geometry is accepted");
    sym_check(b->AreGeometricallyEqual(*a, tol), "the same geometry is accepted");
  } else if (sub == 1) {  // whole spline moved by delta
    Model<DIM> q = m;
    double delta = sym_real("delta", -4, 4);
    int j = sym_choice("coord", m.pd);
    for (auto &p : q.P) p[j] = p[j] + delta;
    b = make(q);
    bool r = a->AreGeometricallyEqual(*b, tol);
    if (r) { sym_check_le(delta, tol, "accepted only within the tolerance"); sym_check_le(0.0 - tol, delta, "accepted only within the tolerance"); }
    else sym_check_lt(tol * tol, delta * delta, "refused only beyond the tolerance");
  } else {               // one control point moved
    Model<DIM> q = m;
    double delta = sym_real("delta", -50, 50);
    int i = m.pd > 3 ? m.total() - 1 : sym_choice("point", m.total());
    int j = m.pd > 3 ? m.pd - 1 : sym_choice("coord", m.pd);  // many coordinates: the last one
    q.P[i][j] = q.P[i][j] + delta;
    b = make(q);
    bool r = a->AreGeometricallyEqual(*b, tol);
    bool corner = true; auto x = m.idx(i); for (int d = 0; d < DIM; ++d) corner = corner && (x[d] == 0 || x[d] == m.n[d] - 1);
    if (r) { if (corner) sym_check_le(delta * delta, tol * tol, "a moved corner is noticed"); else sym_check_le(delta * delta, 144 * DIM * DIM * tol * tol, "a moved point is noticed"); }
    else sym_check_lt(tol * tol, delta * delta, "refused only beyond the tolerance");
  }
}
void harness_main() {
  Cfg c;
  int mode = (int)c.next();
  Model<DIM> m; readModel(&c, &m);
  int sub = mode == 1 ? (int)c.next() : 0;
  for (int d = 0; d < DIM; ++d) makeKnots(&m.dir[d], nm("a", d), -1);
  m.makePoints("", 1, mode == 0 ? 1 : 0);
  auto run = [&](auto *tag) {
    using SP = std::remove_pointer_t<decltype(tag)>;
    std::function<std::shared_ptr<SP>(const Model<DIM> &)> make = [](const Model<DIM> &x) {
      if constexpr (std::is_same_v<SP, spl::NURBS<DIM>>) return x.nurbs(); else return x.bspline();
    };
    if (mode == 0) areEqual<SP>(m, make); else geom<SP>(m, make, sub);
  };
  if (m.rational) run((spl::NURBS<DIM> *)nullptr); else run((spl::BSpline<DIM> *)nullptr);
}
