// Reading numerals and lists of numerals; every digit is symbolic.
// cfg: mode, sign (0 none, 1 '-', 2 '+'), digits before the point, point (0/1), digits after it, exponent mark (0 none, 1 e, 2 E), exponent sign (0 none, 1 '+', 2 '-'), exponent
#include "common.h"
#include "string_operations.h"
using namespace vf;
static double p10(int e) { double r = 1; for (int i = 0; i < (e < 0 ? -e : e); ++i) r = r * 10.0; return e < 0 ? 1.0 / r : r; }
struct Num { std::string text; double value; double scale; };
static Num numeral(const std::string &tag, int sign, int ni, int pt, int nf, int em, int es, int ev, int width) {
  Num n; double v = 0;
  n.text = sign == 1 ? "-" : sign == 2 ? "+" : "";
  for (int i = 0; i < ni; ++i) { char c; double d = sym_digit(nm(tag + "i", i).c_str(), &c); n.text += c; v = v * 10.0 + d; }
  if (pt) n.text += '.';
  for (int i = 0; i < nf; ++i) { char c; double d = sym_digit(nm(tag + "f", i).c_str(), &c); n.text += c; v = v + d * p10(-1 - i); }
  int e = 0;
  if (em) {
    n.text += em == 1 ? 'e' : 'E';
    if (es) n.text += es == 1 ? '+' : '-';
    std::string x = std::to_string(ev);
    while ((int)x.size() < width) x = "0" + x;
    n.text += x;
    e = es == 2 ? -ev : ev;
  }
  n.value = v * p10(e);
  if (sign == 1) n.value = 0.0 - n.value;
  n.scale = p10(e + (ni > 0 ? ni - 1 : -1));
  return n;
}
static void check(double got, const Num &n, const char *l) { sym_check_eq(got / n.scale, n.value / n.scale, l); }
void harness_main() {
  Cfg c;
  int mode = (int)c.next(), sign = (int)c.next(), ni = (int)c.next(), pt = (int)c.next(), nf = (int)c.next(), em = (int)c.next(), es = (int)c.next(), ev = (int)c.next();
  try {
    if (mode == 0) {
      Num n = numeral("a", sign, ni, pt, nf, em, es, ev, ev % 5 == 3 ? 4 : ev % 2 ? 2 : 1);
      check(util::StringOperations::StringToDouble(n.text), n, "value of the numeral");
    } else {
      Num a = numeral("a", sign, ni, pt, nf, em, es, ev, 2), b = numeral("b", 1, 1, 1, 2, 0, 0, 0, 0), d = numeral("d", 0, 2, 0, 0, 0, 0, 0, 0), e = numeral("e", 0, 1, 1, 4, 1, 2, 3, 2);
      std::vector<double> got;
      std::vector<Num> want{a, b, d, e, a};
      if (mode == 1) got = util::StringOperations::DelimitedStringToVector(a.text + "," + b.text + ",  " + d.text + " ," + e.text + "," + a.text + ";");
      else if (mode == 2) got = util::StringOperations::DelimitedStringToVector("  " + a.text + "," + b.text + "," + d.text + ";  " + e.text + "," + a.text + ";      ");
      else if (mode == 3) got = util::StringOperations::StringVectorToNumberVector<double>(util::StringOperations::split("\n   " + a.text + "  " + b.text + "\n" + d.text + "\n\n      " + e.text + " " + a.text + "\n    ", ' '));
      else if (mode == 4) got = util::StringOperations::StringVectorToNumberVector<double>(util::StringOperations::split(a.text + "|" + b.text + "||" + d.text + "|" + e.text + "|" + a.text, '|'));
      else for (auto &t : util::StringOperations::split("[" + a.text + " " + b.text + "] [" + d.text + " " + e.text + "\t] [ " + a.text + " ]", ' ')) { std::string x = util::StringOperations::trim(t); if (!x.empty()) got.push_back(util::StringOperations::StringToDouble(x)); }
      sym_check(got.size() == want.size(), "one number per entry");
      for (size_t i = 0; i < got.size() && i < want.size(); ++i) check(got[i], want[i], "value of the entry");
    }
  } catch (std::exception &) {
    sym_check_impossible("a decimal numeral is read without an error");
  }
}
