// Harness API. The same harness source is built twice:
//  - SYMBOLIC build: all doubles may be symbolic (NaN-boxed handles), checks are discharged by Z3 for every value;
//  - REPLAY build: plain /repo code, sym_* read a counterexample and checks compare with a rounding tolerance.
#ifndef VERIF_SYM_H_
#define VERIF_SYM_H_
#include <string>
#include <vector>
extern "C" {
// a real in [lo, hi], every value of the interval
double sym_real(const char *name, double lo, double hi);
// solver-independent structural choice 0..n-1, all of them explored
int sym_choice(const char *name, int n);
// assumptions (prune)
void sym_assume_le(double a, double b);
void sym_assume_lt(double a, double b);
void sym_assume_eq(double a, double b);
void sym_assume_ne(double a, double b);
void sym_assume(int cond);
// obligations
void sym_check_eq(double a, double b, const char *label);
void sym_check_le(double a, double b, const char *label);
void sym_check_lt(double a, double b, const char *label);
void sym_check_near(double a, double b, double tol, const char *label);  // |a-b| <= tol
void sym_check_impossible(const char *label);                            // reaching this is a violation
void sym_check(int cond, const char *label);
// configuration parameter i of this run (command line)
long sym_cfg(int i);
int sym_ncfg();
// are we in the replay build
int sym_is_replay();
// a decimal digit 0..9 as a text character; returns its (symbolic) value
double sym_digit(const char *name, char *c);
// texts of symbolic values: -1 all digits of the conversion, n >= 0: values with n digits after the point (for %g); default: not modelled
void sym_numfmt(int frac);
void sym_native(int on);  // operations on two numbers in IEEE double precision (default: exact)
void sym_note(const char *text);
}
void harness_main();  // defined by the harness
// runs f; any C++ exception is a violation labelled label
template <class F> inline void sym_nothrow(F f, const char *label) {
  try { f(); } catch (...) { sym_check_impossible(label); }
}
#endif
