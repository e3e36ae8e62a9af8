// Multi-index handler, compiled to LLVM IR and executed symbolically by irx.py (integers).
#include <array>
#include <cstdint>
#include <stdexcept>
#include "multi_index_handler.h"
#ifndef IRX
#include <string>
#include <vector>
#include "../engine/sym.h"
#endif
template <int D> static util::MultiIndexHandler<D> make(const int *len, const int *cur) {
  std::array<int, D> l, c;
  for (int i = 0; i < D; ++i) { l[i] = len[i]; c[i] = cur[i]; }
  util::MultiIndexHandler<D> h(l);
  h.SetIndices(c);
  return h;
}
template <int D> static void put(const util::MultiIndexHandler<D> &h, int *out) { auto x = h.GetIndices(); for (int i = 0; i < D; ++i) out[i] = x[i]; }
#define ALL(D) \
extern "C" void start_##D(const int *len, int *out) { std::array<int, D> l; for (int i = 0; i < D; ++i) l[i] = len[i]; util::MultiIndexHandler<D> h(l); put<D>(h, out); } \
extern "C" void at_##D(const int *len, const int *cur, int *out) { auto h = make<D>(len, cur); for (int i = 0; i < D; ++i) out[i] = h[i]; } \
extern "C" void inc_##D(const int *len, const int *cur, int *out) { auto h = make<D>(len, cur); ++h; put<D>(h, out); } \
extern "C" void post_##D(const int *len, const int *cur, int *out) { auto h = make<D>(len, cur); auto o = h++; put<D>(h, out); put<D>(o, out + D); } \
extern "C" void dec_##D(const int *len, const int *cur, int *out) { auto h = make<D>(len, cur); --h; put<D>(h, out); } \
extern "C" void plus_##D(const int *len, const int *cur, int k, int *out) { auto h = make<D>(len, cur); h + k; put<D>(h, out); } \
extern "C" void minus_##D(const int *len, const int *cur, int k, int *out) { auto h = make<D>(len, cur); h - k; put<D>(h, out); } \
extern "C" void set_##D(const int *len, const int *cur, int k, int *out) { auto h = make<D>(len, cur); h.Set1DIndex(k); put<D>(h, out); } \
extern "C" void diff_##D(const int *len, const int *cur, int *out) { auto h = make<D>(len, cur); auto x = h.GetDifferenceIndices(); for (int i = 0; i < D; ++i) out[i] = x[i]; } \
extern "C" int flat_##D(const int *len, const int *cur) { auto h = make<D>(len, cur); return h.Get1DIndex(); } \
extern "C" int flatof_##D(const int *len, const int *cur, const int *other) { auto h = make<D>(len, cur); std::array<int, D> c; for (int i = 0; i < D; ++i) c[i] = other[i]; return h.Get1DIndex(c); } \
extern "C" int length_##D(const int *len, const int *cur) { auto h = make<D>(len, cur); return h.Get1DLength(); } \
extern "C" int extract_##D(const int *len, const int *cur, int d) { auto h = make<D>(len, cur); return h.ExtractDimension(d); }
ALL(1)
ALL(2)
ALL(3)
ALL(4)
#ifndef IRX
// replay: cfg D, operation, k, bound
#define REP(D) case D: { int out[2 * D]; for (int &x : out) x = -77; \
  std::vector<int> want(c, c + D), v(c, c + D); int r = 0, wr = 0; bool val = false; \
  if (op == 0) { start_##D(l, out); want.assign(D, 0); } \
  if (op == 1) at_##D(l, c, out); \
  if (op == 2) { inc_##D(l, c, out); want = step(D, l, want, 1); } \
  if (op == 3) { post_##D(l, c, out); want = step(D, l, want, 1); for (int i = 0; i < D; ++i) sym_check_eq(out[D + i], c[i], "post: returned value"); } \
  if (op == 4) { dec_##D(l, c, out); want = step(D, l, want, -1); } \
  if (op == 5) { plus_##D(l, c, K, out); for (int i = 0; i < K; ++i) want = step(D, l, want, 1); } \
  if (op == 6) { minus_##D(l, c, K, out); for (int i = 0; i < K; ++i) want = step(D, l, want, -1); } \
  if (op == 7) { set_##D(l, c, k, out); want.assign(D, 0); int f = k; for (int i = 0; i < D; ++i) { want[i] = f % l[i]; f /= l[i]; } } \
  if (op == 8) { diff_##D(l, c, out); for (int i = 0; i < D; ++i) want[i] = l[i] - c[i] - 1; } \
  if (op == 9) { val = true; r = flat_##D(l, c); wr = flatRef(D, l, c, -1); } \
  if (op == 10) { val = true; r = flatof_##D(l, c, o); wr = flatRef(D, l, o, -1); } \
  if (op == 11) { val = true; r = length_##D(l, c); wr = 1; for (int i = 0; i < D; ++i) wr *= l[i]; } \
  if (op == 12) { val = true; r = extract_##D(l, c, K); wr = flatRef(D, l, c, K); } \
  if (val) sym_check_eq(r, wr, "value"); else for (int i = 0; i < D; ++i) sym_check_eq(out[i], want[i], "indices"); \
  break; }
static std::vector<int> step(int D, const int *l, std::vector<int> v, int up) {
  for (int i = 0; i < D; ++i) { if (v[i] == (up > 0 ? l[i] - 1 : 0)) v[i] = up > 0 ? 0 : l[i] - 1; else { v[i] += up; break; } }
  return v;
}
static int flatRef(int D, const int *l, const int *c, int skip) { int f = 0, w = 1; for (int i = 0; i < D; ++i) if (i != skip) { f += c[i] * w; w *= l[i]; } return f; }
void harness_main() {
  int D = (int)sym_cfg(0), op = (int)sym_cfg(1), K = (int)sym_cfg(2);
  int l[4], c[4], o[4], k = (int)sym_real("k", 0, 1000000);
  for (int i = 0; i < D; ++i) { std::string s = std::to_string(i); l[i] = (int)sym_real(("len" + s).c_str(), 1, 1000); c[i] = (int)sym_real(("cur" + s).c_str(), 0, 1000); o[i] = (int)sym_real(("oth" + s).c_str(), 0, 1000); }
  switch (D) { REP(1) REP(2) REP(3) REP(4) }
}
#endif
