// Replay runtime: runs a harness against the plain (uninstrumented) library on one concrete counterexample.
// usage: replay MODELFILE cfg...      exit 1: a check fails, 0: all checks pass, 3: an assumption does not hold
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "sym.h"
static std::map<std::string, double> V;
static std::map<std::string, int> CH;
static std::vector<long> CFG;
static bool FAILED = false;
static bool close(double a, double b) {
  if (a == b) return true;
  double s = fmax(1.0, fmax(fabs(a), fabs(b)));
  return fabs(a - b) <= 1e-8 * s;
}
static void fail(const char *l, double a, double b) {
  printf("CHECK FAILED: %s (%.17g vs %.17g)\n", l, a, b);
  fflush(stdout);
  FAILED = true;
}
extern "C" {
double sym_real(const char *n, double lo, double hi) {
  auto it = V.find(n);
  double v = it == V.end() ? (lo <= 0 && 0 <= hi ? 0.0 : (lo + hi) / 2) : it->second;
  return v;
}
int sym_choice(const char *n, int k) { auto it = CH.find(n); int r = it == CH.end() ? 0 : it->second; return r < k ? r : k - 1; }
static void bad(const char *w) { printf("ASSUMPTION FAILED %s\n", w); fflush(stdout); _exit(FAILED ? 1 : 3); }
void sym_assume_le(double a, double b) { if (!(a <= b + 1e-12)) bad("le"); }
void sym_assume_lt(double a, double b) { if (!(a < b + 1e-15)) bad("lt"); }
void sym_assume_eq(double a, double b) { if (!close(a, b)) bad("eq"); }
void sym_assume_ne(double a, double b) { if (a == b) bad("ne"); }
void sym_assume(int c) { if (!c) bad("cond"); }
void sym_check_eq(double a, double b, const char *l) { if (!close(a, b)) fail(l, a, b); }
void sym_check_le(double a, double b, const char *l) { if (!(a <= b) && !close(a, b)) fail(l, a, b); }
void sym_check_lt(double a, double b, const char *l) { if (!(a < b)) fail(l, a, b); }
void sym_check_near(double a, double b, double tol, const char *l) { if (!(fabs(a - b) <= tol * (1 + 1e-6) + 1e-12)) fail(l, a, b); }
void sym_check_impossible(const char *l) { fail(l, 0, 0); }
void sym_check(int c, const char *l) { if (!c) fail(l, 0, 0); }
long sym_cfg(int i) { return i < (int)CFG.size() ? CFG[i] : 0; }
int sym_ncfg() { return CFG.size(); }
int sym_is_replay() { return 1; }
double sym_digit(const char *n, char *c) { double v = floor(sym_real(n, 0, 9) + 0.5); *c = (char)('0' + (int)v); return v; }
void sym_numfmt(int) {}
void sym_native(int) {}
void sym_note(const char *t) { printf("note: %s\n", t); }
}
int main(int argc, char **argv) {
  std::ifstream f(argv[1]);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k, n, v;
    is >> k >> n >> v;
    if (k == "real") V[n] = strtod(v.c_str(), nullptr);
    else if (k == "choice") CH[n] = atoi(v.c_str());
    else if (k == "cfg") { CFG.push_back(atol(n.c_str())); }
  }
  try { harness_main(); } catch (std::exception &e) { printf("uncaught exception: %s\n", e.what()); FAILED = true; } catch (...) { printf("uncaught exception\n"); FAILED = true; }
  fflush(stdout);
  printf(FAILED ? "REPLAY: violated\n" : "REPLAY: holds\n");
  fflush(stdout);
  _exit(FAILED ? 1 : 0);
}
