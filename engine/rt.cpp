// Symbolic runtime: exact real arithmetic on rational functions over symbolic variables, path exploration by fork(),
// and discharge of obligations by Z3. See DESIGN.md.
#include <fcntl.h>
#include <gmpxx.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <z3.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <algorithm>
#include <atomic>
#include <istream>
#include <ostream>
#include <iostream>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "sym.h"

typedef mpq_class Q;
typedef uint32_t u32;
typedef uint64_t u64;

// ---------------------------------------------------------------- shared statistics
struct Shared {
  std::atomic<long> paths, pruned, forks, obligations, trivial, z3q, z3sat, z3unsat, z3unknown, quick, viol, undecided, witness,
      crashes, maxdepth, unsup, timeouts, values, live, probes;
  std::atomic<double> z3time;
  std::atomic<int> stop;
  std::atomic<int> lock;
  int nfn;
  char fn[4000][200];
  int nlab;
  char lab[400][100];
  long labn[400];
};
static Shared *S;
static void lockS() { int z = 0; while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(50); } }
static void unlockS() { S->lock = 0; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void addtime(double d) { double o = S->z3time; while (!S->z3time.compare_exchange_weak(o, o + d)) {} }

static double T_START, DEADLINE = 1e18;
static int LOGFD = -1;
static int DEPTH = 0;
static unsigned Z3_TIMEOUT = 10000;
static long MAXVIOL = 40;
static std::vector<long> CFG;
static bool DEBUGRT = false;
static unsigned SEED = 1;

static void logline(const std::string &s) { std::string t = s + "\n"; if (write(LOGFD, t.data(), t.size()) < 0) {} }
static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}
[[noreturn]] static void endPath();

// ---------------------------------------------------------------- monomials and polynomials
typedef std::vector<std::pair<uint16_t, uint16_t>> MonoF;  // (var, exp) sorted by var
struct MonoHash { size_t operator()(const MonoF &m) const { size_t h = 1469598103u; for (auto &p : m) h = (h ^ (p.first * 131071u + p.second)) * 1099511628211ull; return h; } };
static std::vector<MonoF> MONO;
static std::unordered_map<MonoF, u32, MonoHash> MONOI;
static std::unordered_map<u64, u32> MONOMUL;
static u32 monoId(const MonoF &f) {
  auto it = MONOI.find(f);
  if (it != MONOI.end()) return it->second;
  u32 id = MONO.size();
  MONO.push_back(f);
  MONOI.emplace(f, id);
  return id;
}
static u32 monoMul(u32 a, u32 b) {
  if (a == 0) return b;
  if (b == 0) return a;
  if (a > b) std::swap(a, b);
  u64 k = ((u64)a << 32) | b;
  auto it = MONOMUL.find(k);
  if (it != MONOMUL.end()) return it->second;
  MonoF r; const MonoF &x = MONO[a], &y = MONO[b];
  size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, (uint16_t)(x[i].second + y[j].second)}); ++i; ++j; }
  }
  u32 id = monoId(r);
  MONOMUL[k] = id;
  return id;
}
// lexicographic order (smaller variable index = more significant); admissible for division
static bool monoLess(u32 a, u32 b) {
  if (a == b) return false;
  const MonoF &x = MONO[a], &y = MONO[b];
  size_t i = 0;
  for (;; ++i) {
    if (i == x.size()) return i != y.size();
    if (i == y.size()) return false;
    if (x[i].first != y[i].first) return x[i].first > y[i].first;  // the one having the smaller var index is larger
    if (x[i].second != y[i].second) return x[i].second < y[i].second;
  }
}
static bool monoDiv(u32 a, u32 b, u32 *r) {  // a / b
  const MonoF &x = MONO[a], &y = MONO[b];
  MonoF q; size_t j = 0;
  for (size_t i = 0; i < x.size(); ++i) {
    if (j < y.size() && y[j].first == x[i].first) {
      if (y[j].second > x[i].second) return false;
      if (x[i].second > y[j].second) q.push_back({x[i].first, (uint16_t)(x[i].second - y[j].second)});
      ++j;
    } else q.push_back(x[i]);
  }
  if (j != y.size()) return false;
  *r = monoId(q);
  return true;
}
typedef std::vector<std::pair<u32, Q>> Poly;  // sorted by mono id
static Poly pconst(const Q &q) { Poly p; if (q != 0) p.push_back({0, q}); return p; }
static bool pIsConst(const Poly &p) { return p.empty() || (p.size() == 1 && p[0].first == 0); }
static Q pConstVal(const Poly &p) { return p.empty() ? Q(0) : p[0].second; }
static Poly padd(const Poly &a, const Poly &b, int sb = 1) {
  Poly r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) { r.push_back(b[j]); if (sb < 0) r.back().second = -r.back().second; ++j; }
    else { Q q = sb < 0 ? Q(a[i].second - b[j].second) : Q(a[i].second + b[j].second); if (q != 0) r.push_back({a[i].first, q}); ++i; ++j; }
  }
  return r;
}
static Poly pscale(const Poly &a, const Q &q) { if (q == 0) return Poly(); Poly r = a; for (auto &t : r) t.second *= q; return r; }
static void unsupported(const std::string &why);
static size_t POLYLIMIT = 400000;
static Poly pmul(const Poly &a, const Poly &b) {
  if (a.empty() || b.empty()) return Poly();
  if (pIsConst(a)) return pscale(b, a[0].second);
  if (pIsConst(b)) return pscale(a, b[0].second);
  if (a.size() * b.size() > 40000000ull) unsupported("polynomial too large");
  Poly r;
  if (a.size() == 1 || b.size() == 1) {
    const Poly &x = a.size() == 1 ? a : b, &y = a.size() == 1 ? b : a;
    for (auto &t : y) r.push_back({monoMul(x[0].first, t.first), x[0].second * t.second});
    std::sort(r.begin(), r.end(), [](const std::pair<u32, Q> &s, const std::pair<u32, Q> &t) { return s.first < t.first; });
    return r;
  }
  std::unordered_map<u32, Q> m;
  m.reserve(a.size() * b.size() / 2 + 8);
  Q t;
  for (auto &x : a) for (auto &y : b) { t = x.second * y.second; m[monoMul(x.first, y.first)] += t; }
  for (auto &k : m) if (k.second != 0) r.push_back({k.first, k.second});
  if (r.size() > POLYLIMIT) unsupported("polynomial too large");
  std::sort(r.begin(), r.end(), [](const std::pair<u32, Q> &s, const std::pair<u32, Q> &t) { return s.first < t.first; });
  return r;
}
static u32 leading(const Poly &p) { u32 best = p[0].first; for (auto &t : p) if (monoLess(best, t.first)) best = t.first; return best; }
static Q coefOf(const Poly &p, u32 m) { for (auto &t : p) if (t.first == m) return t.second; return 0; }
struct MonoCmp { bool operator()(u32 a, u32 b) const { return monoLess(a, b); } };
// degree of p in variable v
static int degIn(const Poly &p, int v) { int d = 0; for (auto &t : p) for (auto &f : MONO[t.first]) if (f.first == v) d = std::max(d, (int)f.second); return d; }
// exact division a / b; returns false if not divisible
static bool pdivExact(const Poly &a, const Poly &b, Poly *q) {
  if (a.empty()) { q->clear(); return true; }
  if (pIsConst(b)) { *q = pscale(a, 1 / b[0].second); return true; }
  // quick rejects: lowest monomials and leading monomials must divide
  u32 lb = leading(b), r;
  if (!monoDiv(leading(a), lb, &r)) return false;
  {
    u32 ta = a[0].first, tb = b[0].first;
    for (auto &t : a) if (monoLess(t.first, ta)) ta = t.first;
    for (auto &t : b) if (monoLess(t.first, tb)) tb = t.first;
    if (!monoDiv(ta, tb, &r)) return false;
  }
  if (a.size() * b.size() > 4000000) return false;
  Q cb = coefOf(b, lb);
  std::map<u32, Q, MonoCmp> rem;
  for (auto &t : a) rem[t.first] = t.second;
  Poly quo;
  size_t steps = 0;
  while (!rem.empty()) {
    auto it = std::prev(rem.end());
    u32 m;
    if (!monoDiv(it->first, lb, &m)) return false;
    Q c = it->second / cb;
    quo.push_back({m, c});
    for (auto &t : b) {
      u32 k = monoMul(m, t.first);
      auto jt = rem.find(k);
      Q d = c * t.second;
      if (jt == rem.end()) rem.emplace(k, -d);
      else { jt->second -= d; if (jt->second == 0) rem.erase(jt); }
    }
    if (++steps > a.size() * 4 + 2000) return false;
  }
  std::sort(quo.begin(), quo.end(), [](const std::pair<u32, Q> &s, const std::pair<u32, Q> &t) { return s.first < t.first; });
  *q = quo;
  return true;
}
struct PolyHash { size_t operator()(const Poly &p) const { size_t h = 7; for (auto &t : p) { h = h * 1000003u ^ t.first; h = h * 31 ^ mpz_get_ui(t.second.get_num_mpz_t()) ^ (mpz_get_ui(t.second.get_den_mpz_t()) << 7) ^ (sgn(t.second) < 0 ? 0x9e3779b9u : 0); } return h; } };

// ---------------------------------------------------------------- variables
struct Var { std::string name; bool input; bool hasLo, hasHi; Q lo, hi; Z3_ast z; };
static std::vector<Var> VARS;
static Z3_context ZC;
static Z3_sort ZR;
static int newVar(const std::string &name, bool input) {
  Var v; v.name = name; v.input = input; v.hasLo = v.hasHi = false;
  Z3_symbol s = Z3_mk_string_symbol(ZC, name.c_str());
  v.z = Z3_mk_const(ZC, s, ZR);
  Z3_inc_ref(ZC, v.z);
  VARS.push_back(v);
  return (int)VARS.size() - 1;
}
static Poly pvar(int v) { Poly p; p.push_back({monoId(MonoF{{(uint16_t)v, 1}}), Q(1)}); return p; }

static std::vector<std::pair<std::string, int>> CHOICES;  // structural choices of this path

// ---------------------------------------------------------------- substitution of solved equalities
static std::map<int, Poly> SUBST;
static Poly subst1(const Poly &p, int v, const Poly &e) {
  bool has = false;
  for (auto &t : p) { for (auto &f : MONO[t.first]) if (f.first == v) { has = true; break; } if (has) break; }
  if (!has) return p;
  std::map<int, Poly> byExp;
  for (auto &t : p) {
    int ex = 0; MonoF rest;
    for (auto &f : MONO[t.first]) if (f.first == v) ex = f.second; else rest.push_back(f);
    byExp[ex].push_back({monoId(rest), t.second});
  }
  Poly acc, pw = pconst(1); int cur = 0;
  for (auto &k : byExp) {
    std::sort(k.second.begin(), k.second.end(), [](const std::pair<u32, Q> &s, const std::pair<u32, Q> &t) { return s.first < t.first; });
    while (cur < k.first) { pw = pmul(pw, e); ++cur; }
    acc = padd(acc, pmul(k.second, pw));
  }
  return acc;
}
static Poly applySubst(const Poly &p) { if (SUBST.empty()) return p; Poly r = p; for (auto &k : SUBST) r = subst1(r, k.first, k.second); return r; }

// ---------------------------------------------------------------- path condition and Z3
enum Rel { LT, LE, EQ, NE };
struct Con { Poly p; Rel r; std::vector<int> vars; };
static std::vector<Con> PC;
static std::vector<int> varsOf(const Poly &p) {
  std::set<int> s; for (auto &t : p) for (auto &f : MONO[t.first]) s.insert(f.first);
  return std::vector<int>(s.begin(), s.end());
}
static bool isLinear(const Poly &p) { for (auto &t : p) { const MonoF &m = MONO[t.first]; if (m.size() > 1 || (m.size() == 1 && m[0].second > 1)) return false; } return true; }
static Z3_ast zq(const Q &q) { return Z3_mk_numeral(ZC, q.get_str().c_str(), ZR); }
static Z3_ast toZ3(const Poly &p) {
  if (p.empty()) return zq(0);
  std::vector<Z3_ast> sum;
  for (auto &t : p) {
    std::vector<Z3_ast> fs;
    if (t.second != 1 || t.first == 0) fs.push_back(zq(t.second));
    for (auto &f : MONO[t.first]) for (int i = 0; i < f.second; ++i) fs.push_back(VARS[f.first].z);
    sum.push_back(fs.size() == 1 ? fs[0] : Z3_mk_mul(ZC, fs.size(), fs.data()));
  }
  return sum.size() == 1 ? sum[0] : Z3_mk_add(ZC, sum.size(), sum.data());
}
static Z3_ast relZ3(const Poly &p, Rel r) {
  Z3_ast e = toZ3(p), z = zq(0);
  switch (r) {
    case LT: return Z3_mk_lt(ZC, e, z);
    case LE: return Z3_mk_le(ZC, e, z);
    case EQ: return Z3_mk_eq(ZC, e, z);
    default: return Z3_mk_not(ZC, Z3_mk_eq(ZC, e, z));
  }
}
// polynomial bounds by interval arithmetic on the variable bounds
static bool boundLo(const Poly &p, Q *out, bool upper);
static bool boundLo(const Poly &p, Q *out, bool upper) {
  Q acc = 0;
  for (auto &t : p) {
    Q lo = 1, hi = 1; bool lInf = false, hInf = false;  // monomial range
    for (auto &f : MONO[t.first]) {
      const Var &v = VARS[f.first];
      // only non-negative variables or bounded variables are handled
      Q a, b; bool ai, bi;
      if (v.hasLo && v.lo >= 0) {
        Q x = 1; for (int i = 0; i < f.second; ++i) x *= v.lo; a = x; ai = false;
        if (v.hasHi) { Q y = 1; for (int i = 0; i < f.second; ++i) y *= v.hi; b = y; bi = false; } else bi = true;
      } else if (v.hasLo && v.hasHi) {
        Q x = 1, y = 1; for (int i = 0; i < f.second; ++i) { x *= v.lo; y *= v.hi; }
        if (f.second % 2 == 0) { Q m = std::max(x, y); a = (v.hi <= 0) ? std::min(x, y) : Q(0); b = m; } else { a = x; b = y; }
        ai = bi = false;
      } else return false;
      // multiply [lo,hi] by [a,b]
      if (lInf) return false;
      if (hInf || bi) {
        if (lo < 0 || (!bi && a < 0) || ai || a < 0) return false;
        lo = lo * a; hInf = true;
      } else {
        Q c1 = lo * a, c2 = lo * b, c3 = hi * a, c4 = hi * b;
        lo = std::min(std::min(c1, c2), std::min(c3, c4)); hi = std::max(std::max(c1, c2), std::max(c3, c4));
      }
    }
    bool needLo = (sgn(t.second) > 0) != upper;
    if (needLo) acc += t.second * lo; else { if (hInf) return false; acc += t.second * hi; }
  }
  *out = acc;
  return true;
}
static int CHECKS_IN_PATH = 0;
// returns 1 sat, 0 unsat, -1 unknown. If wantModel, fills model values of all variables.
typedef std::map<int, std::string> Model;
static std::string lastReason;
static bool getModel(Z3_solver s, Model *out) {
  Z3_model m = Z3_solver_get_model(ZC, s);
  if (!m) return false;
  Z3_model_inc_ref(ZC, m);
  for (size_t i = 0; i < VARS.size(); ++i) {
    Z3_ast v;
    if (Z3_model_eval(ZC, m, VARS[i].z, true, &v)) {
      if (Z3_is_numeral_ast(ZC, v)) (*out)[i] = Z3_get_numeral_string(ZC, v);
      else if (Z3_is_algebraic_number(ZC, v)) {
        Z3_ast lo = Z3_get_algebraic_number_lower(ZC, v, 30);
        (*out)[i] = Z3_get_numeral_string(ZC, lo);
      } else (*out)[i] = "0";
    }
  }
  Z3_model_dec_ref(ZC, m);
  return true;
}
static int z3check(const std::vector<const Con *> &cs, const std::vector<Z3_ast> &extra, bool linear, Model *model, unsigned timeout) {
  double t0 = now();
  S->z3q++;
  Z3_lbool res = Z3_L_UNDEF;
  for (int attempt = 0; attempt < (linear ? 1 : 2) && res == Z3_L_UNDEF; ++attempt) {
    Z3_solver s;
    if (linear) s = Z3_mk_solver_for_logic(ZC, Z3_mk_string_symbol(ZC, "QF_LRA"));
    else if (attempt == 0) { Z3_tactic t = Z3_mk_tactic(ZC, "qfnra-nlsat"); Z3_tactic_inc_ref(ZC, t); s = Z3_mk_solver_from_tactic(ZC, t); }
    else s = Z3_mk_solver(ZC);
    Z3_solver_inc_ref(ZC, s);
    Z3_params p = Z3_mk_params(ZC);
    Z3_params_inc_ref(ZC, p);
    Z3_params_set_uint(ZC, p, Z3_mk_string_symbol(ZC, "timeout"), timeout);
    Z3_solver_set_params(ZC, s, p);
    for (auto c : cs) Z3_solver_assert(ZC, s, relZ3(c->p, c->r));
    for (auto e : extra) Z3_solver_assert(ZC, s, e);
    res = Z3_solver_check(ZC, s);
    if (res == Z3_L_TRUE && model) getModel(s, model);
    Z3_params_dec_ref(ZC, p);
    Z3_solver_dec_ref(ZC, s);
  }
  addtime(now() - t0);
  if (DEBUGRT) fprintf(stderr, "z3 %d (%.3fs, %zu cons, lin=%d)\n", res, now() - t0, cs.size(), linear);
  if (res == Z3_L_TRUE) { S->z3sat++; return 1; }
  if (res == Z3_L_FALSE) { S->z3unsat++; return 0; }
  S->z3unknown++;
  return -1;
}
// Linear relaxation: every non-linear monomial becomes a fresh variable bounded by the interval product of its variables'
// bounds. UNSAT of the relaxation implies UNSAT of the query.
static bool monoRange(u32 mid, Q *lo, bool *hasLo, Q *hi, bool *hasHi) {
  Poly p; p.push_back({mid, Q(1)});
  *hasLo = boundLo(p, lo, false);
  *hasHi = boundLo(p, hi, true);
  return *hasLo || *hasHi;
}
static std::unordered_map<u32, Z3_ast> MONOVAR;
static Z3_ast monoVar(u32 mid) {
  auto it = MONOVAR.find(mid);
  if (it != MONOVAR.end()) return it->second;
  Z3_ast a = Z3_mk_const(ZC, Z3_mk_string_symbol(ZC, ("m!" + std::to_string(mid)).c_str()), ZR);
  Z3_inc_ref(ZC, a);
  MONOVAR[mid] = a;
  return a;
}
static int relaxCheck(const std::vector<const Con *> &cs) {  // 0: unsat, otherwise -1
  std::set<u32> monos;
  std::vector<Z3_ast> as;
  size_t tot = 0;
  for (auto c : cs) tot += c->p.size();
  if (tot > 20000) return -1;
  for (auto c : cs) {
    std::vector<Z3_ast> sum;
    for (auto &t : c->p) {
      if (t.first == 0) { sum.push_back(zq(t.second)); continue; }
      const MonoF &m = MONO[t.first];
      Z3_ast v;
      if (m.size() == 1 && m[0].second == 1) v = VARS[m[0].first].z;
      else { v = monoVar(t.first); monos.insert(t.first); }
      Z3_ast fs[2] = {zq(t.second), v};
      sum.push_back(Z3_mk_mul(ZC, 2, fs));
    }
    Z3_ast e = sum.size() == 1 ? sum[0] : Z3_mk_add(ZC, sum.size(), sum.data()), z = zq(0);
    as.push_back(c->r == LT ? Z3_mk_lt(ZC, e, z) : c->r == LE ? Z3_mk_le(ZC, e, z) : c->r == EQ ? Z3_mk_eq(ZC, e, z) : Z3_mk_not(ZC, Z3_mk_eq(ZC, e, z)));
  }
  for (u32 m : monos) {
    Q lo, hi; bool hl, hh;
    if (!monoRange(m, &lo, &hl, &hi, &hh)) continue;
    if (hl) as.push_back(Z3_mk_ge(ZC, monoVar(m), zq(lo)));
    if (hh) as.push_back(Z3_mk_le(ZC, monoVar(m), zq(hi)));
  }
  double t0 = now();
  S->z3q++;
  Z3_solver s = Z3_mk_solver_for_logic(ZC, Z3_mk_string_symbol(ZC, "QF_LRA"));
  Z3_solver_inc_ref(ZC, s);
  Z3_params p = Z3_mk_params(ZC);
  Z3_params_inc_ref(ZC, p);
  Z3_params_set_uint(ZC, p, Z3_mk_string_symbol(ZC, "timeout"), Z3_TIMEOUT);
  Z3_solver_set_params(ZC, s, p);
  for (auto e : as) Z3_solver_assert(ZC, s, e);
  Z3_lbool r = Z3_solver_check(ZC, s);
  Z3_params_dec_ref(ZC, p);
  Z3_solver_dec_ref(ZC, s);
  addtime(now() - t0);
  if (DEBUGRT) fprintf(stderr, "relax %d (%.3fs)\n", r, now() - t0);
  if (r == Z3_L_FALSE) { S->z3unsat++; return 0; }
  return -1;
}
static void slice(const std::vector<int> &start, std::vector<const Con *> *out) {
  std::vector<char> in(PC.size(), 0);
  std::set<int> vs(start.begin(), start.end());
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < PC.size(); ++i) if (!in[i]) {
      bool hit = false;
      for (int v : PC[i].vars) if (vs.count(v)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; for (int v : PC[i].vars) vs.insert(v); }
    }
  }
  for (size_t i = 0; i < PC.size(); ++i) if (in[i]) out->push_back(&PC[i]);
}
static Con mkCon(const Poly &p, Rel r) { Con c; c.p = p; c.r = r; c.vars = varsOf(p); return c; }

// sign knowledge per polynomial (normalised so that the leading coefficient is +1): mask bits 1:neg 2:zero 4:pos
static std::unordered_map<Poly, int, PolyHash> SIGN;
static Poly normLead(const Poly &p, int *sg) {
  Q c = coefOf(p, leading(p));
  *sg = sgn(c);
  return pscale(p, 1 / c);
}
static int flipMask(int m) { return ((m & 1) << 2) | (m & 2) | ((m & 4) >> 2); }
static int quickMask(const Poly &p0) {  // p already substituted, not constant
  int mask = 7;
  Q b;
  if (boundLo(p0, &b, false)) { if (b > 0) return 4; if (b == 0) mask &= 6; }
  if (boundLo(p0, &b, true)) { if (b < 0) return 1; if (b == 0) mask &= 3; }
  return mask;
}
static void addPC(const Poly &p, Rel r) {
  Poly q = applySubst(p);
  if (pIsConst(q)) {
    int s = sgn(pConstVal(q));
    bool ok = r == LT ? s < 0 : r == LE ? s <= 0 : r == EQ ? s == 0 : s != 0;
    if (!ok) { S->pruned++; endPath(); }
    return;
  }
  PC.push_back(mkCon(q, r));
  // variable bounds
  std::vector<int> vs = varsOf(q);
  if (vs.size() == 1 && isLinear(q)) {
    Q a = coefOf(q, monoId(MonoF{{(uint16_t)vs[0], 1}})), b = coefOf(q, 0);  // a x + b rel 0
    Q x = -b / a;
    Var &v = VARS[vs[0]];
    bool up = sgn(a) > 0;  // x <= bound
    if (r == EQ || (r != NE && up)) { if (!v.hasHi || x < v.hi) { v.hasHi = true; v.hi = x; } }
    if (r == EQ || (r != NE && !up)) { if (!v.hasLo || x > v.lo) { v.hasLo = true; v.lo = x; } }
  }
  if (r == EQ) {
    // solve for a variable that occurs linearly with constant coefficient and nowhere else
    for (int k = (int)vs.size() - 1; k >= 0; --k) {
      int v = vs[k];
      u32 m = monoId(MonoF{{(uint16_t)v, 1}});
      Q c = coefOf(q, m);
      if (c == 0 || degIn(q, v) != 1) continue;
      int occ = 0;
      for (auto &t : q) for (auto &f : MONO[t.first]) if (f.first == v) ++occ;
      if (occ != 1) continue;
      Poly rest;
      for (auto &t : q) if (t.first != m) rest.push_back(t);
      Poly e = pscale(rest, -1 / c);
      for (auto &s : SUBST) s.second = subst1(s.second, v, e);
      SUBST[v] = e;
      // refresh the path condition in terms of remaining variables (keep the equality itself for models)
      for (size_t i = 0; i + 1 < PC.size(); ++i) { PC[i].p = subst1(PC[i].p, v, e); PC[i].vars = varsOf(PC[i].p); }
      SIGN.clear();
      break;
    }
  }
  int sg;
  Poly n = normLead(q, &sg);
  int m = r == LT ? 1 : r == LE ? 3 : r == EQ ? 2 : 5;
  if (sg < 0) m = flipMask(m);
  auto it = SIGN.find(n);
  if (it == SIGN.end()) SIGN[n] = m; else it->second &= m;
}
static long nvars_linear(const std::vector<const Con *> &cs, bool lin0) { bool lin = lin0; for (auto c : cs) lin = lin && isLinear(c->p); return lin; }
// possible: 1 yes, 0 no, -1 unknown
static int possible(const Poly &p, Rel r) {
  Con c = mkCon(p, r);
  std::vector<const Con *> cs;
  slice(c.vars, &cs);
  bool lin = isLinear(p);
  // linear relaxation first: an UNSAT answer is final
  bool alllin = lin; std::vector<const Con *> ls;
  for (auto x : cs) { if (isLinear(x->p)) ls.push_back(x); else alllin = false; }
  if (alllin) { cs.push_back(&c); return z3check(cs, {}, true, nullptr, Z3_TIMEOUT); }
  cs.push_back(&c);
  if (relaxCheck(cs) == 0) return 0;
  return z3check(cs, {}, false, nullptr, Z3_TIMEOUT);
}

// ---------------------------------------------------------------- forking
// files of the working directory and offsets of open files: the branch explored first must not disturb the other one
static bool IOMODE = false;
struct IOSnap { std::map<std::string, std::string> files; std::map<int, off_t> off; };
static IOSnap ioSave() {
  IOSnap r;
  DIR *d = opendir(".");
  if (d) {
    for (dirent *e; (e = readdir(d)); ) {
      struct stat st;
      if (stat(e->d_name, &st) || !S_ISREG(st.st_mode) || st.st_size > (4 << 20)) continue;
      int f = open(e->d_name, O_RDONLY);
      std::string c(st.st_size, 0);
      if (f >= 0) { if (read(f, &c[0], c.size()) == (ssize_t)c.size()) r.files[e->d_name] = c; close(f); }
    }
    closedir(d);
  }
  for (int fd = 3; fd < 64; ++fd) { struct stat st; if (!fstat(fd, &st) && S_ISREG(st.st_mode)) { off_t o = lseek(fd, 0, SEEK_CUR); if (o >= 0) r.off[fd] = o; } }
  return r;
}
static void ioRestore(const IOSnap &s) {
  DIR *d = opendir(".");
  std::vector<std::string> drop;
  if (d) { for (dirent *e; (e = readdir(d)); ) { struct stat st; if (!stat(e->d_name, &st) && S_ISREG(st.st_mode) && !s.files.count(e->d_name)) drop.push_back(e->d_name); } closedir(d); }
  for (auto &f : drop) unlink(f.c_str());
  for (auto &f : s.files) { int h = open(f.first.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (h >= 0) { if (write(h, f.second.data(), f.second.size())) {} close(h); } }
  for (auto &o : s.off) lseek(o.first, o.second, SEEK_SET);
}
static bool forkChild() {  // returns true in the child (explored first), false in the parent (continues afterwards)
  if (S->stop) endPath();
  if (now() > DEADLINE) { S->timeouts++; S->stop = 1; endPath(); }
  S->forks++;
  fflush(stdout);
  IOSnap snap;
  if (IOMODE) snap = ioSave();
  pid_t pid = fork();
  if (pid < 0) { unsupported("fork failed"); }
  if (pid == 0) { DEPTH++; if (DEPTH > S->maxdepth) S->maxdepth = DEPTH; alarm(0); return true; }
  int st;
  unsigned left = alarm(0);
  while (waitpid(pid, &st, 0) < 0) {}
  if (IOMODE) ioRestore(snap);
  if (left) alarm(left);
  if (WIFSIGNALED(st)) { S->crashes++; logline("{\"kind\":\"lostpath\",\"signal\":" + std::to_string(WTERMSIG(st)) + "}"); }
  DEPTH++;
  if (S->stop) endPath();
  return false;
}
// decide p REL 0 on this path, forking if both are possible
static bool decide(const Poly &p0, Rel r) {
  Poly p = applySubst(p0);
  if (pIsConst(p)) {
    int s = sgn(pConstVal(p));
    return r == LT ? s < 0 : r == LE ? s <= 0 : r == EQ ? s == 0 : s != 0;
  }
  int want = r == LT ? 1 : r == LE ? 3 : r == EQ ? 2 : 5;
  int sg;
  Poly n = normLead(p, &sg);
  int mask = 7;
  auto it = SIGN.find(n);
  if (it != SIGN.end()) mask = sg < 0 ? flipMask(it->second) : it->second;
  if (!(mask & want)) { S->quick++; return false; }
  if (!(mask & ~want)) { S->quick++; return true; }
  mask &= quickMask(p);
  if (!(mask & want) || !(mask & ~want)) {
    S->quick++;
    SIGN[n] = sg < 0 ? flipMask(mask) : mask;
    return (mask & want) != 0;
  }
  Poly np = pscale(p, -1);
  // the negation
  Rel nr; Poly q;
  if (r == LT) { nr = LE; q = np; } else if (r == LE) { nr = LT; q = np; } else if (r == EQ) { nr = NE; q = p; } else { nr = EQ; q = p; }
  int a = possible(p, r);
  if (a == 0) { addPC(q, nr); return false; }
  int b = possible(q, nr);
  if (b == 0) { addPC(p, r); return true; }
  if (forkChild()) { addPC(p, r); return true; }
  addPC(q, nr);
  return false;
}

// ---------------------------------------------------------------- values
struct Val { Poly num; std::vector<std::pair<u32, u32>> den; };  // den: (factor id, exponent)
static std::vector<std::shared_ptr<const Val>> VALS;
static std::vector<Poly> FACT;
static std::unordered_map<Poly, u32, PolyHash> FACTI;
static const u64 BOXMASK = 0xFFFF000000000000ull, BOX = 0x7FFA000000000000ull;
static u64 bits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static double fromBits(u64 u) { double d; memcpy(&d, &u, 8); return d; }
static bool boxed(double d) { return (bits(d) & BOXMASK) == BOX; }
static inline bool isSym(double d) { return boxed(d); }
static std::shared_ptr<const Val> valOf(double d) {
  if (boxed(d)) return VALS[bits(d) & 0xFFFFFFFFu];
  auto v = std::make_shared<Val>();
  v->num = pconst(Q(d));
  return v;
}
static bool special(double d) { return !boxed(d) && !std::isfinite(d); }
static double box(std::shared_ptr<const Val> v) {
  if (v->den.empty() && pIsConst(v->num)) {
    Q q = pConstVal(v->num);
    double d = q.get_d();
    if (std::isfinite(d) && Q(d) == q) return d;
  }
  u64 id = VALS.size();
  VALS.push_back(v);
  S->values++;
  return fromBits(BOX | id);
}
static double mkQ(const Q &q) { auto v = std::make_shared<Val>(); v->num = pconst(q); return box(v); }
static u32 factorId(const Poly &p) {
  auto it = FACTI.find(p);
  if (it != FACTI.end()) return it->second;
  u32 id = FACT.size();
  FACT.push_back(p); FACTI[p] = id;
  return id;
}
// splits p into constant * product of registered/new factors
static void factorise(const Poly &p0, Q *c, std::map<u32, u32> *out) {
  Poly p = p0;
  int sg; Q lc = coefOf(p, leading(p));
  (void)sg;
  *c = lc;
  p = pscale(p, 1 / lc);
  // monomial content
  MonoF common = MONO[p[0].first];
  for (auto &t : p) {
    MonoF n;
    for (auto &f : common) for (auto &g : MONO[t.first]) if (g.first == f.first) n.push_back({f.first, std::min(f.second, g.second)});
    common = n;
    if (common.empty()) break;
  }
  for (auto &f : common) {
    (*out)[factorId(pvar(f.first))] += f.second;
  }
  if (!common.empty()) {
    u32 cm = monoId(common);
    for (auto &t : p) { u32 r; if (!monoDiv(t.first, cm, &r)) abort(); t.first = r; }
    std::sort(p.begin(), p.end(), [](const std::pair<u32, Q> &s, const std::pair<u32, Q> &t) { return s.first < t.first; });
  }
  if (pIsConst(p)) return;
  auto it = FACTI.find(p);
  if (it != FACTI.end()) { (*out)[it->second]++; return; }
  size_t nf = FACT.size();
  for (size_t i = 0; i < nf && i < 200; ++i) {
    if (FACT[i].size() > p.size() + 2) continue;
    Poly q;
    while (!pIsConst(p) && pdivExact(p, FACT[i], &q)) { p = q; (*out)[i]++; }
    if (pIsConst(p)) { *c *= pConstVal(p); return; }
  }
  Q l2 = coefOf(p, leading(p));
  *c *= l2;
  p = pscale(p, 1 / l2);
  (*out)[factorId(p)]++;
}
static Poly facPow(u32 f, u32 e) { Poly r = FACT[f]; for (u32 i = 1; i < e; ++i) r = pmul(r, FACT[f]); return r; }
static void cancel(Val *v) {
  if (v->num.empty()) { v->den.clear(); return; }
  std::vector<std::pair<u32, u32>> nd;
  for (auto &d : v->den) {
    u32 e = d.second;
    Poly q;
    while (e > 0 && pdivExact(v->num, FACT[d.first], &q)) { v->num = q; --e; }
    if (e) nd.push_back({d.first, e});
  }
  v->den = nd;
}
static std::shared_ptr<const Val> vadd(const Val &a, const Val &b, int sb) {
  auto r = std::make_shared<Val>();
  if (a.den == b.den) {
    r->num = padd(a.num, b.num, sb);
    r->den = a.den;
    if (!r->den.empty()) cancel(r.get());
    return r;
  }
  Poly x = a.num, y = b.num;
  size_t i = 0, j = 0;
  while (i < a.den.size() || j < b.den.size()) {
    if (j == b.den.size() || (i < a.den.size() && a.den[i].first < b.den[j].first)) { y = pmul(y, facPow(a.den[i].first, a.den[i].second)); r->den.push_back(a.den[i++]); }
    else if (i == a.den.size() || b.den[j].first < a.den[i].first) { x = pmul(x, facPow(b.den[j].first, b.den[j].second)); r->den.push_back(b.den[j++]); }
    else {
      u32 f = a.den[i].first, ea = a.den[i].second, eb = b.den[j].second;
      if (ea < eb) x = pmul(x, facPow(f, eb - ea)); else if (eb < ea) y = pmul(y, facPow(f, ea - eb));
      r->den.push_back({f, std::max(ea, eb)}); ++i; ++j;
    }
  }
  r->num = padd(x, y, sb);
  cancel(r.get());
  return r;
}
static std::shared_ptr<const Val> vmul(const Val &a, const Val &b) {
  auto r = std::make_shared<Val>();
  Val x = a, y = b;
  // cross-cancel
  if (!x.num.empty() && !y.num.empty()) {
    Val t; t.num = x.num; t.den = y.den; cancel(&t); x.num = t.num; y.den = t.den;
    t.num = y.num; t.den = x.den; cancel(&t); y.num = t.num; x.den = t.den;
  }
  r->num = pmul(x.num, y.num);
  if (r->num.empty()) return r;
  std::map<u32, u32> m;
  for (auto &d : x.den) m[d.first] += d.second;
  for (auto &d : y.den) m[d.first] += d.second;
  r->den.assign(m.begin(), m.end());
  return r;
}
static std::shared_ptr<const Val> vinv(const Val &b) {  // b known non-zero
  auto r = std::make_shared<Val>();
  Q c; std::map<u32, u32> m;
  factorise(b.num, &c, &m);
  Poly n = pconst(1 / c);
  for (auto &d : b.den) n = pmul(n, facPow(d.first, d.second));
  r->num = n;
  r->den.assign(m.begin(), m.end());
  cancel(r.get());
  return r;
}
// sign-equivalent polynomial of v: sign(v) = sign(result)
static Poly signPoly(const Val &v) {
  Poly p = v.num;
  for (auto &d : v.den) if (d.second & 1) {
    Poly f = applySubst(FACT[d.first]);
    int m;
    if (pIsConst(f)) m = sgn(pConstVal(f)) > 0 ? 4 : 1;
    else {
      int sg; Poly n = normLead(f, &sg);
      m = 7;
      auto it = SIGN.find(n);
      if (it != SIGN.end()) m = sg < 0 ? flipMask(it->second) : it->second;
      m &= quickMask(f);
      if ((m & 5) == 5) {  // ask the solver once
        if (possible(f, LE) == 0) { addPC(pscale(f, -1), LT); m = 4; }
        else if (possible(pscale(f, -1), LE) == 0) { addPC(f, LT); m = 1; }
      }
    }
    if (!(m & 1)) continue;
    if (!(m & 4)) { p = pscale(p, -1); continue; }
    p = pmul(p, f);
  }
  return p;
}

// ---------------------------------------------------------------- operations called by instrumented code
struct OpKey { u64 a, b; int op; bool operator==(const OpKey &o) const { return a == o.a && b == o.b && op == o.op; } };
struct OpHash { size_t operator()(const OpKey &k) const { return (k.a * 0x9E3779B97F4A7C15ull) ^ (k.b * 0xC2B2AE3D27D4EB4Full) ^ (k.op * 77777); } };
static std::unordered_map<OpKey, double, OpHash> MEMO;

static int signOfVal(double v) {  // decides sign on the path: -1,0,1
  if (!isSym(v)) return v < 0 ? -1 : v > 0 ? 1 : 0;
  auto x = valOf(v);
  Poly p = signPoly(*x);
  if (decide(p, LT)) return -1;
  if (decide(p, EQ)) return 0;
  return 1;
}
static double nativeOp(int op, double a, double b) { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }
static bool NATIVE = false;
static double symOp(int op, double a, double b) {
  if (!isSym(a) && !isSym(b)) {
    double r = nativeOp(op, a, b);
    if (NATIVE) return r;
    if (!std::isfinite(a) || !std::isfinite(b)) return r;
    if (op == 3 && b == 0) return r;
    if (std::isfinite(r)) {
      bool exact;
      double ar = std::fabs(r);
      bool safe = ar == 0 ? true : (ar > 1e-250 && ar < 1e250);
      if (op <= 1) { double bb = op ? -b : b; double s = a + bb, z = s - a; exact = ((a - (s - z)) + (bb - z)) == 0 && std::fabs(a) < 1e290 && std::fabs(b) < 1e290; }
      else if (op == 2) exact = r == 0 ? (a == 0 || b == 0) : (safe && std::fma(a, b, -r) == 0);
      else exact = r == 0 ? a == 0 : (safe && std::fabs(a) > 1e-250 && std::fma(r, b, -a) == 0);
      if (exact) return r;
    }
    Q x(a), y(b);
    if (op == 0) return mkQ(x + y);
    if (op == 1) return mkQ(x - y);
    if (op == 2) return mkQ(x * y);
    return mkQ(x / y);
  }
  if (special(a) || special(b)) {
    if (std::isnan(a) && special(a)) return a;
    if (std::isnan(b) && special(b)) return b;
    if (op == 0 || op == 1) return special(a) ? a : (op ? -b : b);
    if (op == 2) { double inf = special(a) ? a : b; int s = signOfVal(special(a) ? b : a); return s == 0 ? NAN : s * inf; }
    if (special(b)) return 0.0;
    int s = signOfVal(b); return s == 0 ? a : s * a;
  }
  OpKey k{bits(a), bits(b), op};
  auto it = MEMO.find(k);
  if (it != MEMO.end()) return it->second;
  auto x = valOf(a), y = valOf(b);
  double r;
  if (op == 0) r = box(vadd(*x, *y, 1));
  else if (op == 1) r = box(vadd(*x, *y, -1));
  else if (op == 2) r = box(vmul(*x, *y));
  else {
    // division: b == 0 is a path of its own
    if (y->num.empty() || decide(y->num, EQ)) { int s = signOfVal(a); return s == 0 ? NAN : s > 0 ? INFINITY : -INFINITY; }
    r = box(vmul(*x, *vinv(*y)));
  }
  MEMO[k] = r;
  return r;
}
static bool cmpSym(int pred, double a, double b) {
  if (special(a) || special(b)) {
    // symbolic values are finite reals: stand in 0
    double x = special(a) ? a : 0.0, y = special(b) ? b : 0.0;
    switch (pred & 7) { case 1: return x == y; case 2: return x > y; case 3: return x >= y; case 4: return x < y; case 5: return x <= y; case 6: return x != y && !std::isnan(x) && !std::isnan(y); case 7: return !std::isnan(x) && !std::isnan(y); }
    return false;
  }
  int c = pred & 7;
  if (c == 7) return true;
  if (c == 0) return false;
  auto d = vadd(*valOf(a), *valOf(b), -1);
  if (c == 1 || c == 6) { bool e = decide(d->num, EQ); return c == 1 ? e : !e; }
  Poly p = signPoly(*d);
  switch (c) {
    case 2: return !decide(p, LE);                 // a > b
    case 3: return !decide(p, LT);                 // a >= b
    case 4: return decide(p, LT);                  // a < b
    default: return decide(p, LE);                 // a <= b
  }
}
static Q constOf(double a, const char *what) {
  auto v = valOf(a);
  if (!v->den.empty() || !pIsConst(v->num)) unsupported(std::string("symbolic argument of ") + what);
  return pConstVal(v->num);
}
static double substVal(double a) {  // re-normalise through substitution
  if (!isSym(a)) return a;
  auto v = valOf(a);
  if (SUBST.empty()) return a;
  Poly n = applySubst(v->num);
  Val r; r.num = n;
  double acc = 0; { auto s = std::make_shared<Val>(); s->num = n; acc = box(s); }
  for (auto &d : v->den) { auto s = std::make_shared<Val>(); s->num = applySubst(facPow(d.first, d.second)); acc = symOp(3, acc, box(s)); }
  return acc;
}
// concretise: integer part, forking over all feasible values
static double floorSym(double a0) {
  double a = substVal(a0);
  if (!isSym(a)) return std::floor(a);
  auto v = valOf(a);
  if (v->den.empty() && pIsConst(v->num)) {
    Q q = pConstVal(v->num); mpz_class z; mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return z.get_d();
  }
  // search upward/downward from a model value
  for (int guard = 0; guard < 4000; ++guard) {
    std::vector<const Con *> cs; for (auto &c : PC) cs.push_back(&c);
    bool lin = true; for (auto c : cs) lin = lin && isLinear(c->p);
    Model m;
    if (z3check(cs, {}, lin, &m, Z3_TIMEOUT) != 1) unsupported("floor: no model");
    // evaluate a under m
    auto ev = [&](const Poly &p) { Q s = 0; for (auto &t : p) { Q x = t.second; for (auto &f : MONO[t.first]) for (int i = 0; i < f.second; ++i) x *= Q(m[f.first]); s += x; } return s; };
    Q q = ev(v->num); for (auto &d : v->den) { Q f = ev(FACT[d.first]); for (u32 i = 0; i < d.second; ++i) q /= f; }
    mpz_class z; mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    double k = z.get_d();
    bool ge = cmpSym(3, a, k);
    if (ge) { bool lt = cmpSym(4, a, k + 1); if (lt) return k; }
  }
  unsupported("floor: too many values");
  return 0;
}
static int nfresh = 0;
// polynomial square root, if p is a perfect square of a polynomial
static bool polySqrt(const Poly &p, Poly *root) {
  Poly r, rem = p;
  int steps = 0;
  Q c0; u32 l0 = 0;
  while (!rem.empty()) {
    if (++steps > 60) return false;
    u32 l = leading(rem);
    Q c = coefOf(rem, l);
    if (r.empty()) {
      MonoF h; for (auto &f : MONO[l]) { if (f.second & 1) return false; h.push_back({f.first, (uint16_t)(f.second / 2)}); }
      if (c < 0) return false;
      if (!mpz_perfect_square_p(c.get_num_mpz_t()) || !mpz_perfect_square_p(c.get_den_mpz_t())) return false;
      Q s(sqrt(mpz_class(c.get_num())), sqrt(mpz_class(c.get_den())));
      l0 = monoId(h); c0 = s;
      r.push_back({l0, s});
    } else {
      u32 m; if (!monoDiv(l, l0, &m)) return false;
      Poly t; t.push_back({m, c / (2 * c0)});
      r = padd(r, t);
    }
    rem = padd(p, pmul(r, r), -1);
    if (!rem.empty() && !monoLess(leading(rem), l)) return false;
  }
  *root = r;
  return true;
}
extern "C" {
double __symfp_add(double a, double b) { return symOp(0, a, b); }
double __symfp_sub(double a, double b) { return symOp(1, a, b); }
double __symfp_mul(double a, double b) { return symOp(2, a, b); }
double __symfp_div(double a, double b) { return symOp(3, a, b); }
double __symfp_neg(double a) { if (!isSym(a)) return -a; return symOp(1, 0.0, a); }
int __symfp_cmp(int pred, double a, double b) {
  if (!isSym(a) && !isSym(b)) {
    switch (pred) {
      case 0: return 0; case 1: return a == b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b;
      case 6: return a < b || a > b; case 7: return !(std::isnan(a) || std::isnan(b)); case 8: return std::isnan(a) || std::isnan(b);
      case 9: return !(a < b || a > b); case 10: return !(a <= b); case 11: return !(a < b); case 12: return !(a >= b); case 13: return !(a > b); case 14: return !(a == b); default: return 1;
    }
  }
  bool an = special(a) && std::isnan(a), bn = special(b) && std::isnan(b);
  if (an || bn) return pred >= 8;
  if (pred == 7) return 1;
  if (pred == 8) return 0;
  return cmpSym(pred & 7, a, b);
}
double __symfp_fabs(double a) {
  if (!isSym(a)) return std::fabs(a);
  return cmpSym(4, a, 0.0) ? symOp(1, 0.0, a) : a;
}
double __symfp_fmin(double a, double b) { return __symfp_cmp(4, b, a) ? b : a; }
double __symfp_fmax(double a, double b) { return __symfp_cmp(4, a, b) ? b : a; }
double __symfp_sqrt(double a0) {
  double a = substVal(a0);
  if (!isSym(a)) {
    if (!(a >= 0) || !std::isfinite(a)) return std::sqrt(a);
    double r = std::sqrt(a);
    if (std::fma(r, r, -a) == 0) return r;
  }
  OpKey k{bits(a), 0, 10};
  auto it = MEMO.find(k);
  if (it != MEMO.end()) return it->second;
  auto v = valOf(a);
  // sign
  Poly sp = signPoly(*v);
  // denominators squared out: sqrt(n/d) with d having odd powers -> multiply
  Poly n = v->num, dn = pconst(1);
  std::vector<std::pair<u32, u32>> half;
  for (auto &d : v->den) { u32 e = d.second; if (e & 1) { n = pmul(n, FACT[d.first]); ++e; } half.push_back({d.first, e / 2}); }
  Poly root;
  double r;
  if (polySqrt(n, &root)) {
    auto x = std::make_shared<Val>(); x->num = root; x->den = half; cancel(x.get());
    r = __symfp_fabs(box(x));
  } else {
    if (decide(sp, LT)) return NAN;
    int nv = newVar("sqrt!" + std::to_string(nfresh++), false);
    Poly s = pvar(nv);
    VARS[nv].hasLo = true; VARS[nv].lo = 0;
    addPC(pscale(s, -1), LE);
    addPC(padd(pmul(s, s), n, -1), EQ);  // s^2 = n
    auto x = std::make_shared<Val>(); x->num = s; 
    auto inv = std::make_shared<Val>(); inv->num = pconst(1); inv->den = half;
    double rr = box(vmul(*x, *inv));
    // sqrt(n * f^..)/|f|: denominators' sign
    r = half.empty() ? rr : __symfp_fabs(rr);
  }
  MEMO[k] = r;
  return r;
}
double __symfp_pow(double a, double b) {
  Q e = constOf(b, "pow exponent");
  if (e.get_den() == 1 && abs(e.get_num()) < 400) {
    long n = e.get_num().get_si();
    double r = 1.0; double base = a;
    for (long i = 0; i < std::labs(n); ++i) r = symOp(2, r, base);
    return n < 0 ? symOp(3, 1.0, r) : r;
  }
  if (e == Q(1, 2)) return __symfp_sqrt(a);
  if (!isSym(a) && !isSym(b)) return std::pow(a, b);
  unsupported("pow"); return 0;
}
double __symfp_floor(double a) { return isSym(a) ? floorSym(a) : std::floor(a); }
double __symfp_ceil(double a) { return isSym(a) ? -floorSym(symOp(1, 0.0, a)) : std::ceil(a); }
double __symfp_trunc(double a) { if (!isSym(a)) return std::trunc(a); return cmpSym(4, a, 0.0) ? __symfp_ceil(a) : __symfp_floor(a); }
double __symfp_round(double a) { if (!isSym(a)) return std::round(a); return cmpSym(4, a, 0.0) ? __symfp_ceil(symOp(1, a, 0.5)) : __symfp_floor(symOp(0, a, 0.5)); }
double __symfp_rint(double a) { if (!isSym(a)) return std::rint(a); unsupported("rint"); return 0; }
double __symfp_nearbyint(double a) { if (!isSym(a)) return std::rint(a); unsupported("nearbyint"); return 0; }
long __symfp_tosi(double a) { return (long)__symfp_trunc(a); }
unsigned long __symfp_toui(double a) { return (unsigned long)__symfp_trunc(a); }
double __symfp_concrete(double a) { if (!isSym(a)) return a; return constOf(a, "conversion").get_d(); }
double __symfp_tofloat(double a) { if (!isSym(a)) return a; return constOf(a, "conversion to float").get_d(); }
double __symfp_rem(double a, double b) { return std::fmod(__symfp_concrete(a), __symfp_concrete(b)); }
double __symfp_fmod(double a, double b) { return std::fmod(__symfp_concrete(a), __symfp_concrete(b)); }
double __symfp_copysign(double a, double b) { double m = __symfp_fabs(a); return __symfp_cmp(4, b, 0.0) ? __symfp_neg(m) : m; }
double __symfp_hypot(double a, double b) { return __symfp_sqrt(symOp(0, symOp(2, a, a), symOp(2, b, b))); }
#define CONC1(f) double __symfp_##f(double a) { return std::f(__symfp_concrete(a)); }
CONC1(sin) CONC1(cos) CONC1(tan) CONC1(asin) CONC1(acos) CONC1(atan) CONC1(exp) CONC1(log) CONC1(log10) CONC1(log2) CONC1(cbrt) CONC1(exp2)
double __symfp_atan2(double a, double b) { return std::atan2(__symfp_concrete(a), __symfp_concrete(b)); }
void __symfp_enter(unsigned char *slot, const char *name) {
  if (*slot) return;
  *slot = 1;
  if (!S) return;
  lockS();
  bool f = false;
  for (int i = 0; i < S->nfn; ++i) if (!strncmp(S->fn[i], name, 199)) { f = true; break; }
  if (!f && S->nfn < 4000) { strncpy(S->fn[S->nfn], name, 199); S->nfn++; }
  unlockS();
}
}

// ---------------------------------------------------------------- obligations
static void label(const char *l) {
  S->obligations++;
  lockS();
  int i;
  for (i = 0; i < S->nlab; ++i) if (!strncmp(S->lab[i], l, 99)) break;
  if (i == S->nlab && i < 400) { strncpy(S->lab[i], l, 99); S->nlab++; }
  if (i < 400) S->labn[i]++;
  unlockS();
}
static void logViolation(const char *kind, const char *l, const std::vector<Model> &ms, const std::string &note) {
  long n = ++S->viol;
  std::string s = std::string("{\"kind\":\"") + kind + "\",\"label\":\"" + jesc(l) + "\",\"note\":\"" + jesc(note) + "\",\"cfg\":[";
  for (size_t i = 0; i < CFG.size(); ++i) s += (i ? "," : "") + std::to_string(CFG[i]);
  s += "],\"choices\":{";
  for (size_t i = 0; i < CHOICES.size(); ++i) s += std::string(i ? "," : "") + "\"" + jesc(CHOICES[i].first) + "\":" + std::to_string(CHOICES[i].second);
  s += "},\"models\":[";
  for (size_t k = 0; k < ms.size(); ++k) {
    s += k ? ",{" : "{";
    bool first = true;
    for (auto &p : ms[k]) if (VARS[p.first].input) { s += std::string(first ? "" : ",") + "\"" + jesc(VARS[p.first].name) + "\":\"" + p.second + "\""; first = false; }
    s += "}";
  }
  s += "]}";
  logline(s);
  if (n >= MAXVIOL) S->stop = 1;
}
static Q evalM(const Poly &p, const Model &m) {
  Q s = 0;
  for (auto &t : p) { Q x = t.second; for (auto &f : MONO[t.first]) { auto it = m.find(f.first); Q q = it == m.end() ? Q(0) : Q(it->second); for (int i = 0; i < f.second; ++i) x *= q; } s += x; }
  return s;
}
static bool holdsM(const Con &c, const Model &m) { int s = sgn(evalM(c.p, m)); return c.r == LT ? s < 0 : c.r == LE ? s <= 0 : c.r == EQ ? s == 0 : s != 0; }
// models of the path condition: generic (randomised) ones, found by fixing variables one after another
static unsigned rndState = 12345;
static unsigned rnd() { rndState = rndState * 1664525u + 1013904223u; return rndState >> 8; }
static double GRID = 1048576.0;
static bool genericModel(Model *out, double budget) {
  double t0 = now();
  std::vector<const Con *> cs; bool lin = true;
  for (auto &c : PC) { cs.push_back(&c); lin = lin && isLinear(c.p); }
  Model base;
  if (z3check(cs, {}, lin, &base, Z3_TIMEOUT) != 1) return false;
  // push variables away from the model, one at a time, keeping the others, when the constraints allow it
  std::vector<int> order;
  for (size_t i = 0; i < VARS.size(); ++i) if (!SUBST.count(i)) order.push_back(i);
  Model cur = base;
  bool hasNonInput = false;
  for (auto &v : VARS) if (!v.input) hasNonInput = true;
  if (!hasNonInput) {
    for (int rounds = 0; rounds < 3 && now() - t0 < budget; ++rounds)
      for (int v : order) {
        Q lo = VARS[v].hasLo ? VARS[v].lo : Q(-5), hi = VARS[v].hasHi ? VARS[v].hi : Q(5);
        if (hi - lo > 10) { if (lo < 0 && hi > 0) { lo = std::max(lo, Q(-5)); hi = std::min(hi, Q(5)); } else if (lo >= 0) hi = lo + 10; else lo = hi - 10; }
        for (int tries = 0; tries < 6; ++tries) {
          Model t = cur;
          Q x = lo + (hi - lo) * Q(1 + rnd() % 997, 1009);
          // round to a double-representable value
          x = Q(std::floor(x.get_d() * GRID) / GRID);
          if (x < lo || x > hi) continue;
          t[v] = x.get_str();
          for (auto &s : SUBST) t[s.first] = evalM(s.second, t).get_str();
          bool ok = true;
          for (auto &c : PC) if (!holdsM(c, t)) { ok = false; break; }
          if (ok) { cur = t; break; }
        }
      }
  }
  *out = cur;
  return true;
}
static void violatedModels(const Poly &viol, Rel r, std::vector<Model> *ms) {
  // (1) generic models of the path that violate; (2) solver model of the violation
  for (int k = 0; k < 4; ++k) { Model m; if (genericModel(&m, 5)) { Con c = mkCon(viol, r); if (holdsM(c, m)) ms->push_back(m); } else break; if (ms->size() >= 2) break; }
}
// obligation: NOT(p r 0) must hold on the path
static void oblige(const Poly &p0, Rel r, const char *l, const Z3_ast *alt) {
  label(l);
  Poly p = applySubst(p0);
  if (pIsConst(p)) {
    int s = sgn(pConstVal(p));
    bool viol = r == LT ? s < 0 : r == LE ? s <= 0 : r == EQ ? s == 0 : s != 0;
    if (!viol) {
      S->trivial++;
      if (alt) {  // let the solver confirm the identity from the two sides it was built from
        int z = z3check({}, {*alt}, false, nullptr, Z3_TIMEOUT);
        if (z == 1) { logline("{\"kind\":\"internal\",\"note\":\"normal form and solver disagree\"}"); S->undecided++; }
      }
      return;
    }
    std::vector<Model> ms;
    for (int k = 0; k < 2; ++k) { Model m; if (genericModel(&m, 5)) ms.push_back(m); }
    if (ms.empty()) { logline(std::string("{\"kind\":\"internal\",\"note\":\"no model for a violated path\",\"label\":\"") + jesc(l) + "\"}"); S->undecided++; return; }
    logViolation("check", l, ms, "");
    return;
  }
  int sg; Poly n = normLead(p, &sg);
  int want = r == LT ? 1 : r == LE ? 3 : r == EQ ? 2 : 5;
  Con c = mkCon(p, r);
  std::vector<const Con *> cs;
  slice(c.vars, &cs);
  bool lin = isLinear(p);
  for (auto x : cs) lin = lin && isLinear(x->p);
  cs.push_back(&c);
  (void)want; (void)n;
  Model m;
  if (!lin && relaxCheck(cs) == 0) return;
  std::vector<Model> ms;
  int z = -1;
  if (!lin && r == NE) {  // a non-vanishing polynomial: a generic model of the path condition decides
    violatedModels(p, r, &ms);
    if (!ms.empty()) { logViolation("check", l, ms, ""); return; }
  }
  z = z3check(cs, {}, lin, &m, Z3_TIMEOUT);
  if (z == 0) return;
  violatedModels(p, r, &ms);
  if (z == 1) {  // complete the sliced model with a model of everything
    std::vector<const Con *> all; bool l2 = isLinear(p);
    for (auto &x : PC) { all.push_back(&x); l2 = l2 && isLinear(x.p); }
    all.push_back(&c);
    Model fm;
    if (z3check(all, {}, l2, &fm, Z3_TIMEOUT) == 1) ms.push_back(fm);
  }
  if (ms.empty()) {
    S->undecided++;
    logline(std::string("{\"kind\":\"undecided\",\"label\":\"") + jesc(l) + "\"}");
    return;
  }
  logViolation("check", l, ms, "");
}
static bool specialCheck(double a, double b, const char *l) {
  if (special(a) || special(b)) {
    label(l);
    if (special(a) && special(b) && bits(a) == bits(b) && !std::isnan(a)) return true;
    std::vector<Model> ms; Model m;
    for (int k = 0; k < 2; ++k) { Model m2; if (genericModel(&m2, 5)) ms.push_back(m2); }
    if (!ms.empty()) logViolation("check", l, ms, "inf/nan");
    return true;
  }
  return false;
}
extern "C" {
static Q constQ(double d) {
  if (!isSym(d)) return Q(d);
  auto x = valOf(d);
  if (!x->den.empty() || !pIsConst(x->num)) { fprintf(stderr, "bound of a symbolic real is not constant\n"); abort(); }
  return pConstVal(x->num);
}
double sym_real(const char *name, double lo, double hi) {
  for (auto &v : VARS) if (v.name == name) { fprintf(stderr, "duplicate variable %s\n", name); abort(); }
  int v = newVar(name, true);
  auto x = std::make_shared<Val>(); x->num = pvar(v);
  addPC(padd(pconst(constQ(lo)), pvar(v), -1), LE);
  addPC(padd(pvar(v), pconst(constQ(hi)), -1), LE);
  return box(x);
}
int sym_choice(const char *name, int n) {
  int r = n - 1;
  for (int i = 0; i + 1 < n; ++i) if (forkChild()) { r = i; break; }
  CHOICES.push_back({name, r});
  return r;
}
static void assumeRel(double a, double b, Rel r) {
  if (special(a) || special(b)) { S->pruned++; endPath(); }
  auto d = vadd(*valOf(a), *valOf(b), -1);
  Poly p = (r == EQ || r == NE) ? d->num : signPoly(*d);
  Poly q = applySubst(p);
  if (!pIsConst(q) && r != NE) {
    if (possible(q, r) == 0) { S->pruned++; endPath(); }
  }
  addPC(q, r);
}
void sym_assume_le(double a, double b) { assumeRel(a, b, LE); }
void sym_assume_lt(double a, double b) { assumeRel(a, b, LT); }
void sym_assume_eq(double a, double b) { assumeRel(a, b, EQ); }
void sym_assume_ne(double a, double b) { assumeRel(a, b, NE); }
void sym_assume(int c) { if (!c) { S->pruned++; endPath(); } }
void sym_check_eq(double a, double b, const char *l) {
  if (specialCheck(a, b, l)) return;
  auto x = valOf(a), y = valOf(b);
  auto d = vadd(*x, *y, -1);
  // the two cross-multiplied sides as separate terms
  if (d->num.empty() && x->num.size() + y->num.size() < 3000) {
    Poly L = x->num, R = y->num;
    if (x->den != y->den) {
      for (auto &f : y->den) L = pmul(L, facPow(f.first, f.second));
      for (auto &f : x->den) R = pmul(R, facPow(f.first, f.second));
    }
    if (L.size() + R.size() < 6000) {
      Z3_ast ne = Z3_mk_not(ZC, Z3_mk_eq(ZC, toZ3(L), toZ3(R)));
      oblige(d->num, NE, l, &ne);
      return;
    }
  }
  oblige(d->num, NE, l, nullptr);
}
void sym_check_le(double a, double b, const char *l) {
  if (special(a) || special(b)) { if (special(b) && b == INFINITY) { label(l); return; } specialCheck(a, b, l); return; }
  auto d = vadd(*valOf(b), *valOf(a), -1);  // b - a < 0 is the violation
  oblige(signPoly(*d), LT, l, nullptr);
}
void sym_check_lt(double a, double b, const char *l) {
  if (specialCheck(a, b, l)) return;
  auto d = vadd(*valOf(b), *valOf(a), -1);
  oblige(signPoly(*d), LE, l, nullptr);
}
void sym_check_near(double a, double b, double tol, const char *l) {
  if (specialCheck(a, b, l)) return;
  auto d = vadd(*valOf(a), *valOf(b), -1);
  auto t = valOf(tol);
  auto d1 = vadd(*t, *d, -1), d2 = vadd(*t, *d, 1);  // tol - d < 0 or tol + d < 0
  oblige(signPoly(*d1), LT, l, nullptr);
  oblige(signPoly(*d2), LT, l, nullptr);
}
void sym_check(int c, const char *l) { if (c) { label(l); S->trivial++; return; } sym_check_impossible(l); }
void sym_check_impossible(const char *l) {
  label(l);
  std::vector<Model> ms;
  for (int k = 0; k < 2; ++k) { Model m; if (genericModel(&m, 5)) ms.push_back(m); }
  if (ms.empty()) {
    std::vector<const Con *> cs; bool lin = true;
    for (auto &c : PC) { cs.push_back(&c); lin = lin && isLinear(c.p); }
    if (z3check(cs, {}, lin, nullptr, Z3_TIMEOUT) == 0) { S->pruned++; endPath(); }
    S->undecided++; logline(std::string("{\"kind\":\"undecided\",\"label\":\"") + jesc(l) + "\"}"); return;
  }
  logViolation("check", l, ms, "");
}
long sym_cfg(int i) { return i < (int)CFG.size() ? CFG[i] : 0; }
int sym_ncfg() { return CFG.size(); }
int sym_is_replay() { return 0; }
void sym_note(const char *) {}
}
// ---------------------------------------------------------------- numerals with symbolic digits
// A byte 0x80 + k inside a text is a digit whose value is symbolic (DIG[k]); an int in [INTBASE, INTBASE + n) is a symbolic
// integer. The library's own parsing code runs on such texts; the models below stand for the C / C++ library conversions.
static std::vector<double> DIG;
static std::vector<double> SYMINT;
static const long INTBASE = 0x5A5A0000;
static int NUMFMT = -2;  // -2: texts of symbolic values are not modelled; -1: all digits; n >= 0: n digits after the point
static int tokByte(double v) {
  if (DIG.size() >= 127) unsupported("too many symbolic digits in texts");
  DIG.push_back(v);
  return 0x80 + (int)DIG.size() - 1;
}
static bool isTok(char c) { return (unsigned char)c >= 0x80 && (size_t)((unsigned char)c - 0x80) < DIG.size(); }
static double digOf(char c) { return isTok(c) ? DIG[(unsigned char)c - 0x80] : double(c - '0'); }
static bool isDig(char c) { return (c >= '0' && c <= '9') || isTok(c); }
static double p10(int e) { Q q = 1; for (int i = 0; i < std::abs(e); ++i) q *= 10; return mkQ(e < 0 ? Q(1 / q) : q); }
static std::map<std::string, std::string> FMTMEMO;
static int fmtCount = 0;
// text of v: conv 'f' with prec digits after the point or 'g' with prec significant digits (trailing zeros cut)
static std::string symText(double v0, char conv, int prec) {
  double v = substVal(v0);
  if (!isSym(v)) { char b[400]; snprintf(b, sizeof b, conv == 'f' ? "%.*f" : "%.*g", prec, v); return b; }
  auto x = valOf(v);
  if (x->den.empty() && pIsConst(x->num)) { char b[400]; snprintf(b, sizeof b, conv == 'f' ? "%.*f" : "%.*g", prec, pConstVal(x->num).get_d()); return b; }
  std::string key = std::string(1, conv) + std::to_string(prec) + ":";
  for (auto &t : x->num) key += std::to_string(t.first) + "*" + t.second.get_str() + " ";
  for (auto &d : x->den) key += "/" + std::to_string(d.first) + "^" + std::to_string(d.second);
  auto it = FMTMEMO.find(key);
  if (it != FMTMEMO.end()) return it->second;
  bool neg = cmpSym(4, v, 0.0);
  double a = neg ? symOp(1, 0.0, v) : v;
  std::string text;
  int digits, point;   // number of digits, digits before the point
  int ex = 0; bool sci = false;
  double err = 0;      // rounding of the printed text
  if (conv == 'f') {
    int n = 1;
    while (n < 25 && !__symfp_cmp(4, a, p10(n))) ++n;
    digits = n + prec; point = n;
    std::string en = "fmt!" + std::to_string(fmtCount);
    double h = symOp(2, 0.5, p10(-prec));
    int ev = newVar(en, true);
    auto e = std::make_shared<Val>(); e->num = pvar(ev);
    Q hq = pConstVal(valOf(h)->num);
    addPC(padd(pvar(ev), pconst(hq), -1), LE);
    addPC(padd(pconst(-hq), pvar(ev), -1), LE);
    err = box(e);
  } else {
    int X;
    if (!__symfp_cmp(4, a, 1.0)) { X = 0; while (X < 40 && !__symfp_cmp(4, a, p10(X + 1))) ++X; }
    else { X = -1; while (X > -40 && __symfp_cmp(4, a, p10(X))) --X; }
    sci = X < -4 || X >= prec;
    if (sci) { ex = X; point = 1; digits = prec; }
    else { point = X >= 0 ? X + 1 : 1; digits = X >= 0 ? prec : prec - 1 - X + 1; if (X < 0) digits = 1 + (prec - 1 - X); }
    int frac = digits - point;
    if (NUMFMT >= 0 && NUMFMT < frac) { frac = NUMFMT; digits = point + frac; }  // a value with few decimals: printed exactly
    else {
      std::string en = "fmt!" + std::to_string(fmtCount);
      Q hq = pConstVal(valOf(symOp(2, 0.5, p10(X + 1 - prec)))->num);
      int ev = newVar(en, true);
      auto e = std::make_shared<Val>(); e->num = pvar(ev);
      addPC(padd(pvar(ev), pconst(hq), -1), LE);
      addPC(padd(pconst(-hq), pvar(ev), -1), LE);
      err = box(e);
    }
  }
  int pos = (fmtCount * 7 + 3) % digits;
  ++fmtCount;
  double total = symOp(0, a, err);
  if (sci) total = symOp(2, total, p10(-ex));
  // one digit carries the value, the others are fixed
  double rest = 0;
  std::string ds;
  for (int i = 0; i < digits; ++i) {
    int w = point - 1 - i;
    if (i == pos) { ds += '?'; continue; }
    int dgt = i == digits - 1 ? 1 + fmtCount % 9 : (i == 0 && point > 1) ? 1 : (i * 3) % 10;
    if (i == digits - 1 && digits == point) dgt = 0;
    ds += char('0' + dgt);
    rest = symOp(0, rest, symOp(2, double(dgt), p10(w)));
  }
  double dv = symOp(3, symOp(1, total, rest), p10(point - 1 - pos));
  ds[pos] = (char)tokByte(dv);
  text = (neg ? "-" : "") + ds.substr(0, point) + (digits > point ? "." + ds.substr(point) : "");
  if (sci) { char b[20]; snprintf(b, sizeof b, "e%c%02d", ex < 0 ? '-' : '+', std::abs(ex)); text += b; }
  FMTMEMO[key] = text;
  return text;
}
static double symNum(const char *s, const char **end, bool real) {  // decimal numeral with symbolic digits
  while (isspace((unsigned char)*s) && !isTok(*s)) ++s;
  bool neg = *s == '-';
  if (*s == '-' || *s == '+') ++s;
  double v = 0;
  while (isDig(*s)) { v = symOp(0, symOp(2, v, 10.0), digOf(*s)); ++s; }
  if (real) {
    if (*s == '.') { ++s; int w = -1; while (isDig(*s)) { v = symOp(0, v, symOp(2, digOf(*s), p10(w--))); ++s; } }
    if ((*s == 'e' || *s == 'E') && (isdigit(s[1]) || ((s[1] == '-' || s[1] == '+') && isdigit(s[2])))) { char *q; long e = strtol(s + 1, &q, 10); v = symOp(2, v, p10((int)e)); s = q; }
  }
  *end = s;
  return neg ? symOp(1, 0.0, v) : v;
}
static bool hasTok(const char *s) {  // does the numeral at s contain a symbolic digit
  while (isspace((unsigned char)*s) && !isTok(*s)) ++s;
  if (*s == '-' || *s == '+') ++s;
  for (; isDig(*s) || *s == '.'; ++s) if (isTok(*s)) return true;
  return false;
}
extern "C" {
double sym_digit(const char *name, char *c) { double v = sym_real(name, 0, 9); *c = (char)tokByte(v); return v; }
void sym_native(int on) { NATIVE = on; }
void sym_numfmt(int frac) { NUMFMT = frac; if (frac > -2) IOMODE = true; }
double __symfp_sitofp(long i) {
  if (i >= INTBASE && (size_t)(i - INTBASE) < SYMINT.size()) return SYMINT[i - INTBASE];
  return (double)i;
}
long __symfp_strtol(const char *s, char **end, int base) {
  if (!DIG.empty() && base == 10 && hasTok(s)) {
    const char *e; double v = symNum(s, &e, false);
    if (end) *end = (char *)e;
    if (!isSym(v)) return (long)v;
    SYMINT.push_back(v);
    return INTBASE + (long)SYMINT.size() - 1;
  }
  return strtol(s, end, base);
}
double __symfp_strtod(const char *s, char **end) {
  if (!DIG.empty() && hasTok(s)) { const char *e; double v = symNum(s, &e, true); if (end) *end = (char *)e; return v; }
  return strtod(s, end);
}
int __symfp_vsnprintf(char *buf, size_t n, const char *f, va_list ap) {
  if (NUMFMT > -2 && f[0] == '%') {
    const char *q = f + 1; int prec = 6;
    if (*q == '.') { prec = (int)strtol(q + 1, (char **)&q, 10); }
    if ((*q == 'f' || *q == 'g') && q[1] == 0) {
      va_list aq; va_copy(aq, ap); double v = va_arg(aq, double); va_end(aq);
      if (isSym(v)) { std::string t = symText(v, *q, prec); if (n) { strncpy(buf, t.c_str(), n - 1); buf[n - 1] = 0; } return (int)t.size(); }
    }
  }
  return vsnprintf(buf, n, f, ap);
}
int __symfp_snprintf(char *buf, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = __symfp_vsnprintf(buf, n, f, ap); va_end(ap); return r; }
int __symfp_sprintf(char *buf, const char *f, ...) { va_list ap; va_start(ap, f); int r = __symfp_vsnprintf(buf, 1 << 20, f, ap); va_end(ap); return r; }
std::ostream *__symfp_ostream(std::ostream *o, double v) {
  if (!isSym(v)) { *o << v; return o; }
  if (NUMFMT == -2) { *o << "symbolic"; return o; }
  auto fl = o->flags() & std::ios_base::floatfield;
  *o << symText(v, fl == std::ios_base::fixed ? 'f' : 'g', o->precision() == 0 ? 1 : (int)o->precision());
  return o;
}
std::istream *__symfp_istream(std::istream *i, double *v) {
  if (DIG.empty()) { *i >> *v; return i; }
  *i >> std::ws;
  std::string t;
  for (int c; (c = i->peek()) != EOF && (isDig((char)c) || strchr("+-.eE", c)); ) { t += (char)i->get(); }
  if (t.empty()) { i->setstate(std::ios_base::failbit); *v = 0; return i; }
  char *e; *v = __symfp_strtod(t.c_str(), &e);
  return i;
}
int __symfp_fpclass(double a, int mask) {
  if (isSym(a)) { if ((mask & 0x1f8) == 0x1f8) return 1; if ((mask & 0x1f8) == 0) return 0; int s = signOfVal(a); return s < 0 ? (mask & 0x8) != 0 : s > 0 ? (mask & 0x100) != 0 : (mask & 0x60) != 0; }
  int c = std::fpclassify(a); bool n = std::signbit(a);
  int bit = c == FP_NAN ? 3 : c == FP_INFINITE ? (n ? 4 : 0x200) : c == FP_NORMAL ? (n ? 8 : 0x100) : c == FP_SUBNORMAL ? (n ? 0x10 : 0x80) : (n ? 0x20 : 0x40);
  return (mask & bit) != 0;
}
void __symfp_unsup(const char *w) { unsupported(w); }
}
static bool IN_HANDLER = false;
static void crashHandler(int sig) {
  if (IN_HANDLER) _exit(3);
  IN_HANDLER = true;
  S->crashes++;
  std::vector<Model> ms;
  for (int k = 0; k < 2; ++k) { Model m; if (genericModel(&m, 5)) ms.push_back(m); }
  if (ms.empty() && VARS.empty()) ms.push_back(Model());
  if (!ms.empty()) logViolation(sig == SIGALRM ? "hang" : "crash", sig == SIGALRM ? "hang" : "crash", ms, "signal " + std::to_string(sig));
  else logline("{\"kind\":\"undecided\",\"label\":\"crash\"}");
  S->paths++;
  _exit(0);
}
static void unsupported(const std::string &why) {
  S->unsup++;
  if (why.find("to float") != std::string::npos && ++S->probes <= 6) {  // the rounding is outside the arithmetic: solver-chosen points of the path are run on the real code
    GRID = 1099511627776.0;
    std::vector<Model> ms;
    for (int k = 0; k < 4; ++k) { Model m; if (genericModel(&m, 3)) ms.push_back(m); }
    if (!ms.empty()) logViolation("probe", why.c_str(), ms, "");
    S->viol--;
  }
  logline("{\"kind\":\"unsupported\",\"note\":\"" + jesc(why) + "\"}");
  endPath();
}
static void endPath() { fflush(stdout); _exit(0); }

int main(int argc, char **argv) {
  // usage: harness LOG TIMELIMIT Z3MS cfg...
  if (argc < 4) { fprintf(stderr, "usage: %s LOG SECONDS Z3MS cfg...\n", argv[0]); return 2; }
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  LOGFD = open(argv[1], O_CREAT | O_WRONLY | O_APPEND, 0644);
  T_START = now();
  DEADLINE = T_START + atof(argv[2]);
  Z3_TIMEOUT = atoi(argv[3]);
  for (int i = 4; i < argc; ++i) CFG.push_back(atol(argv[i]));
  if (getenv("SYM_DEBUG")) DEBUGRT = true;
  if (getenv("VERIF_SEED")) { SEED = atoi(getenv("VERIF_SEED")); rndState = 12345 + SEED; }
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 6ull << 30;
  setrlimit(RLIMIT_AS, &rl);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  pid_t pid = fork();
  if (pid == 0) {
    Z3_config c = Z3_mk_config();
    ZC = Z3_mk_context(c);
    ZR = Z3_mk_real_sort(ZC);
    Z3_set_error_handler(ZC, [](Z3_context, Z3_error_code) {});
    monoId(MonoF());
    static char stk[1 << 16];
    stack_t ss; ss.ss_sp = stk; ss.ss_size = sizeof stk; ss.ss_flags = 0;
    (void)ss;
    for (int s : {SIGABRT, SIGFPE, SIGALRM}) signal(s, crashHandler);
    {
      // big alternate stack for SIGSEGV (stack overflow) so that the solver can run there
      size_t sz = 64 << 20;
      ss.ss_sp = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = sz;
      sigaltstack(&ss, nullptr);
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crashHandler; sa.sa_flags = SA_ONSTACK;
      sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
    }
    try { harness_main(); } catch (std::exception &e) { sym_check_impossible((std::string("uncaught exception: ") + e.what()).c_str()); } catch (...) { sym_check_impossible("uncaught exception"); }
    // vacuity guard: the path condition of a completed path must be satisfiable
    std::vector<const Con *> cs; bool lin = true;
    for (auto &x : PC) { cs.push_back(&x); lin = lin && isLinear(x.p); }
    if (cs.empty() || z3check(cs, {}, lin, nullptr, Z3_TIMEOUT) == 1) S->witness++;
    S->paths++;
    endPath();
  }
  int st;
  while (waitpid(pid, &st, 0) < 0) {}
  if (WIFSIGNALED(st)) { S->crashes++; logline("{\"kind\":\"lostpath\",\"signal\":" + std::to_string(WTERMSIG(st)) + "}"); }
  std::string s = "{\"kind\":\"summary\",\"cfg\":[";
  for (size_t i = 0; i < CFG.size(); ++i) s += (i ? "," : "") + std::to_string(CFG[i]);
  char b[1200];
  snprintf(b, sizeof b,
           "],\"paths\":%ld,\"pruned\":%ld,\"forks\":%ld,\"obligations\":%ld,\"trivial\":%ld,\"z3q\":%ld,\"z3sat\":%ld,\"z3unsat\":%ld,\"z3unknown\":%ld,\"quick\":%ld,\"viol\":%ld,"
           "\"undecided\":%ld,\"witness\":%ld,\"crashes\":%ld,\"depth\":%ld,\"unsup\":%ld,\"timeouts\":%ld,\"values\":%ld,\"z3time\":%.3f,\"wall\":%.3f",
           S->paths.load(), S->pruned.load(), S->forks.load(), S->obligations.load(), S->trivial.load(), S->z3q.load(), S->z3sat.load(), S->z3unsat.load(), S->z3unknown.load(), S->quick.load(), S->viol.load(),
           S->undecided.load(), S->witness.load(), S->crashes.load(), S->maxdepth.load(), S->unsup.load(), S->timeouts.load(), S->values.load(), S->z3time.load(), now() - T_START);
  s += b;
  s += ",\"labels\":{";
  for (int i = 0; i < S->nlab; ++i) s += std::string(i ? "," : "") + "\"" + jesc(S->lab[i]) + "\":" + std::to_string(S->labn[i]);
  s += "},\"functions\":[";
  for (int i = 0; i < S->nfn; ++i) s += std::string(i ? "," : "") + "\"" + jesc(S->fn[i]) + "\"";
  s += "]}";
  logline(s);
  return 0;
}
