// Write a list of splines to a file, read it back: same splines (up to the printed precision).
// cfg: format (0 IGES, 1 IRIT, 2 XML), class variant, number of splines, then per spline: DIM, rational, point dimension, directions
#include "rt.h"
// the list is read; two splines: then the second one alone is written over it and read, by the same writer and reader
static std::vector<std::any> second;
template <class R, class W> static std::vector<std::any> twice(const char *f, const std::vector<std::any> &l) {
  R r; W w;
  std::vector<std::any> out = r.ReadFile(f);
  if (l.size() != 2) return out;
  w.WriteFile(l, f);
  w.WriteFile({l[1]}, f);
  second = r.ReadFile(f);
  return out;
}
static std::vector<std::any> again(const char *f, const std::vector<std::any> &l) {
  if (FMT == 0) return twice<io::IGESReader, io::IGESWriter>(f, l);
  if (FMT == 1) return twice<io::IRITReader, io::IRITWriter>(f, l);
  return twice<io::XMLReader, io::XMLWriter>(f, l);
}
void harness_main() {
  Cfg c;
  FMT = (int)c.next(); VAR = (int)c.next();
  int n = (int)c.next();
  std::vector<Any> in;
  std::vector<std::any> list;
  for (int i = 0; i < n; ++i) { in.push_back(readOne(&c, i)); list.push_back(in.back().a); }
  sym_numfmt(-1);
  std::string file = FMT == 0 ? "rt.iges" : FMT == 1 ? "rt.itd" : "rt.xml";
  std::vector<std::any> out;
  try {
    writeFile(FMT, list, file.c_str()); out = again(file.c_str(), list);
  } catch (std::exception &) {
    sym_check_impossible("writing and reading raise no error");
    return;
  }
  sym_numfmt(-2);
  sym_check(out.size() == in.size(), "number of splines");
  if (out.size() != in.size()) return;
  for (int i = 0; i < n; ++i) compareAny(in[i], out[i]);
  if (n != 2) return;
  sym_check(second.size() == 1, "number of splines in the second file");
  if (second.size() == 1) compareAny(in[1], second[0]);
}
