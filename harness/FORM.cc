// The layout of the files. cfg: mode, format (0 IGES, 1 IRIT, 2 XML), class variant, number of splines, then per spline: DIM, rational, point dimension, directions
//  mode 0: a written file follows its format and holds the data where the format puts it (decoded here, not by the readers)
//  mode 1..: a file laid out differently (written here) is read correctly
#include <fstream>
#include <functional>
#include <sstream>
#include "rt.h"
typedef std::vector<std::string> Lines;
static Lines slurp(const std::string &f) { Lines l; std::ifstream s(f); std::string x; while (std::getline(s, x)) l.push_back(x); return l; }
static double num(const std::string &s) { return strtod(s.c_str(), nullptr); }
static std::string blanks(int n) { return std::string(n > 0 ? n : 0, ' '); }
static std::string padl(const std::string &s, int w) { return blanks(w - (int)s.size()) + s; }
static std::string padr(const std::string &s, int w) { return s + blanks(w - (int)s.size()); }
static std::string I(int i) { return std::to_string(i); }
// value as a text: fixed format like the IRIT and XML writers, or 18 significant digits like the IGES writer
static std::string T(double v) { char b[400]; if (FMT) snprintf(b, sizeof b, "%f", v); else snprintf(b, sizeof b, "%.18g", v); return b; }
static std::vector<std::string> cut(const std::string &s, const std::string &sep) {
  std::vector<std::string> r; std::string x;
  for (char c : s) { if (sep.find(c) != std::string::npos) { if (!x.empty()) r.push_back(x); x.clear(); } else x += c; }
  if (!x.empty()) r.push_back(x);
  return r;
}
static int total(const Any &a) { int t = 1; for (int x : a.n) t *= x; return t; }

// ---------------------------------------------------------------- IGES
static void iges(const std::vector<Any> &in, const Lines &l) {
  const std::string order = "SGDPT";
  std::array<int, 5> count{};
  size_t at = 0;
  bool lay = true;
  std::array<Lines, 5> sec;
  for (auto &x : l) {
    bool ok = x.size() == 80;
    sym_check(ok, "80 columns per line");
    if (!ok) { lay = false; break; }
    while (at < 5 && order[at] != x[72]) ++at;
    sym_check(at < 5, "sections in the order S, G, D, P, T");
    if (at == 5) { lay = false; break; }
    sec[at].push_back(x);
    if (at < 4 || count[4] == 0) sym_check(x.substr(73) == padl(I(++count[at]), 7), "line numbers of a section");
  }
  if (!lay) return;
  int n = (int)in.size();
  sym_check(count[0] == 1 && count[1] >= 1 && count[2] == 2 * n && count[3] >= n && sec[4].size() == 1, "sizes of the sections");
  if (count[2] != 2 * n || sec[4].size() != 1) return;
  sym_check(sec[4][0] == "S" + padl(I(count[0]), 7) + "G" + padl(I(count[1]), 7) + "D" + padl(I(count[2]), 7) + "P" + padl(I(count[3]), 7) + blanks(40) + "T" + padl("1", 7), "terminate line");
  std::string g;
  for (auto &x : sec[1]) g += x.substr(0, 72);
  sym_check(g.substr(0, 8) == "1H,,1H;,", "delimiters in the global section");
  while (!g.empty() && g.back() == ' ') g.pop_back();
  sym_check(g.back() == ';', "end of the global section");
  {
    size_t at = 0; int values = 0; bool whole = true;
    while (at < g.size() && whole) {
      size_t e = at; while (e < g.size() && isdigit((unsigned char)g[e])) ++e;
      if (e > at && e < g.size() && g[e] == 'H') e += 1 + (size_t)atoi(g.substr(at, e - at).c_str());
      else e = g.find_first_of(",;", at);
      ++values;
      whole = e < g.size() && (e + 1 == g.size() ? g[e] == ';' : g[e] == ',');
      at = e + 1;
    }
    sym_check(whole && values == 26, "values of the global section");
  }
  int next = 1;
  for (int i = 0; i < n; ++i) {
    const Any &o = in[i];
    const std::string &a = sec[2][2 * i], &b = sec[2][2 * i + 1];
    std::string type = padl(o.dim == 1 ? "126" : "128", 8);
    sym_check(a.substr(0, 8) == type && b.substr(0, 8) == type, "entity type in the directory");
    int first = atoi(a.substr(8, 8).c_str()), len = atoi(b.substr(24, 8).c_str());
    sym_check(first == next && len >= 1 && first - 1 + len <= count[3], "parameter lines named by the directory");
    if (first != next || len < 1 || first - 1 + len > count[3]) return;
    next = first + len;
    std::string p;
    for (int j = first - 1; j < first - 1 + len; ++j) { p += sec[3][j].substr(0, 64); sym_check(sec[3][j].substr(64, 8) == " " + padl(I(2 * i + 1), 7), "directory entry named by a parameter line"); }
    while (!p.empty() && p.back() == ' ') p.pop_back();
    bool end = p.back() == ';' && p.find(';') == p.size() - 1;
    sym_check(end, "one end delimiter");
    if (!end) return;
    p.pop_back();
    std::vector<std::string> v; std::string x;
    for (char c : p) if (c == ',') { v.push_back(x); x.clear(); } else x += c;
    v.push_back(x);
    int t = total(o), d = o.dim;
    size_t want = (d == 1 ? 7 : 10) + 4 * t;
    for (auto &k : o.kn) want += k.size();
    bool size = v.size() == want;
    sym_check(size, "number of parameters");
    if (!size) return;
    size_t q = 0;
    sym_check(atoi(v[q++].c_str()) == (d == 1 ? 126 : 128), "entity type");
    for (int k = 0; k < d; ++k) sym_check(atoi(v[q++].c_str()) == o.n[k] - 1, "upper index of the sum");
    for (int k = 0; k < d; ++k) sym_check(atoi(v[q++].c_str()) == o.p[k], "degree");
    q += 2;
    sym_check(atoi(v[q++].c_str()) == (o.rational ? 0 : 1), "rational or polynomial");
    q += d == 1 ? 1 : 2;
    for (int k = 0; k < d; ++k) for (double y : o.kn[k]) near(num(v[q++]), y, "knot in the file");
    for (int k = 0; k < t; ++k) near(num(v[q++]), o.W[k], "weight in the file");
    for (int k = 0; k < t; ++k) for (int j = 0; j < 3; ++j) near(num(v[q++]), j < o.pd ? o.P[k][j] : 0.0, "coordinate in the file");
  }
  sym_check(next == count[3] + 1, "every parameter line belongs to an entity");
}
static Lines igesForeign(const std::vector<Any> &in, int mode) {
  // mode 1: parameter data in the reverse order of the directory, other entities in between, values spread over many lines
  // mode 2: optional trailing parameters, blanks around the values, directory numbers in other fields, an empty and a short line
  int n = (int)in.size();
  std::vector<Lines> par(n + 1);
  std::vector<int> first(n + 1);
  Lines P;
  for (int z = 0; z <= n; ++z) {
    int i = mode == 1 ? n - z : z;   // entity n: one of another type
    Lines v;
    if (i == n) v = {"110", "0.", "1.5", "2", "3", "4", "5"};
    else {
      const Any &o = in[i];
      v.push_back(o.dim == 1 ? "126" : "128");
      for (int k = 0; k < o.dim; ++k) v.push_back(I(o.n[k] - 1));
      for (int k = 0; k < o.dim; ++k) v.push_back(I(o.p[k]));
      v.push_back("1"); v.push_back("1"); v.push_back(o.rational ? "0" : "1"); v.push_back("1");
      if (o.dim == 2) v.push_back("0");
      for (auto &kn : o.kn) for (double y : kn) v.push_back(T(y));
      for (double w : o.W) v.push_back(T(w));
      for (auto &x : o.P) for (int j = 0; j < 3; ++j) v.push_back(j < o.pd ? T(x[j]) : mode == 1 ? "0." : "0");
      if (mode == 2) for (auto &kn : o.kn) { v.push_back(T(kn.front())); v.push_back(T(kn.back())); }
      if (mode == 2 && o.dim == 1) for (const char *y : {"0.", "0.", "1."}) v.push_back(y);
    }
    first[i] = (int)P.size() + 1;
    std::string x;
    int lines = 0;
    auto flush = [&]() { P.push_back(padr(x, 64) + " " + padl(I(2 * i + 1), 7) + "P" + padl(I((int)P.size() + 1), 7)); x.clear(); ++lines; };
    for (size_t k = 0; k < v.size(); ++k) {
      std::string y = (mode == 2 && k % 3 == 1 ? " " : "") + v[k] + (mode == 2 && k % 4 == 2 ? " " : "") + (k + 1 == v.size() ? ";" : ",");
      if (x.size() + y.size() > (mode == 1 ? 40u : 64u)) flush();
      x += y;
    }
    flush();
    par[i].push_back(I(lines));
  }
  Lines r;
  r.push_back(padr("foreign", 72) + "S" + padl("1", 7));
  r.push_back(padr("1H,,1H;,4Htest,8Htest.igs,,,32,38,6,308,15,,1.,1,2HIN,,,,1.E-6,1.E4,,,11,0;", 72).substr(0, 72) + "G" + padl("1", 7));
  int d = 0;
  for (int i = 0; i <= n; ++i) {
    std::string type = padl(i == n ? "110" : in[i].dim == 1 ? "126" : "128", 8);
    int other = mode == 2 ? 7 : 0;
    r.push_back(type + padl(I(first[i]), 8) + padl("0", 8) + padl("1", 8) + padl(I(other), 8) + padl("0", 8) + padl("0", 8) + padl("0", 8) + "00010001" + "D" + padl(I(++d), 7));
    r.push_back(type + padl(I(other), 8) + padl("5", 8) + padl(par[i][0], 8) + padl("0", 8) + blanks(16) + padl("", 8) + padl("0", 8) + "D" + padl(I(++d), 7));
  }
  for (auto &x : P) { r.push_back(x); if (mode == 2 && r.size() % 3 == 0) { r.push_back(""); r.push_back("short"); } }
  r.push_back(padr("S      1G      1D" + padl(I(d), 7) + "P" + padl(I((int)P.size()), 7), 72) + "T" + padl("1", 7));
  return r;
}

// ---------------------------------------------------------------- IRIT
static void irit(const std::vector<Any> &in, const Lines &l) {
  std::string all;
  for (auto &x : l) all += x + " ";
  // tokens: [ ] words
  std::vector<std::string> t; std::string w;
  for (char c : all) {
    if (c == '[' || c == ']' || c == ' ') { if (!w.empty()) t.push_back(w); w.clear(); if (c != ' ') t.push_back(std::string(1, c)); }
    else w += c;
  }
  size_t q = 0;
  bool good = true;
  auto word = [&](const std::string &x, const char *label) { bool ok = q < t.size() && t[q] == x; sym_check(ok, label); ++q; good = good && ok; };
  auto value = [&](double want, const char *label, bool product) {
    bool ok = q < t.size() && t[q] != "[" && t[q] != "]";
    sym_check(ok, "as many numbers as announced");
    if (!ok) { good = false; return; }
    sym_check_near(num(t[q++]), want, 5.0000001e-7, label); (void)product;
  };
  word("[", "brackets"); word("OBJECT", "object"); word("SPLINES", "object");
  for (size_t i = 0; i < in.size() && good; ++i) {
    const Any &o = in[i];
    word("[", "brackets"); word("OBJECT", "object"); word("SPLINE" + I((int)i + 1), "name of the spline");
    word("[", "brackets"); word(o.dim == 1 ? "CURVE" : o.dim == 2 ? "SURFACE" : "TRIVAR", "type"); word("BSPLINE", "type");
    for (int k : o.n) word(I(k), "number of points");
    for (int k : o.p) word(I(k + 1), "order");
    word((o.rational ? "P" : "E") + I(o.pd), "point type");
    for (auto &kn : o.kn) {
      word("[", "brackets"); word("KV", "knot vector");
      for (double y : kn) { if (!good) return; value(y, "knot in the file", false); }
      word("]", "brackets");
    }
    for (int k = 0; k < total(o); ++k) {
      if (!good) return;
      word("[", "brackets");
      if (o.rational) value(o.W[k], "weight in the file", false);
      for (int j = 0; j < o.pd; ++j) value(o.rational ? o.P[k][j] * o.W[k] : o.P[k][j], "coordinate in the file", true);
      word("]", "brackets");
    }
    word("]", "brackets"); word("]", "brackets");
  }
  if (!good) return;
  word("]", "brackets");
  sym_check(q == t.size(), "nothing after the last object");
}
static Lines iritForeign(const std::vector<Any> &in, int mode) {
  // mode 1: no indentation, every point, knot vector and header on lines of their own, comments of attributes in front; mode 2: all on one line
  Lines r;
  std::string nl = mode == 1 ? "\n" : " ";
  std::string s = "[OBJECT ALL" + nl;
  int c = 0;
  for (auto &o : in) {
    s += "[OBJECT" + std::string(mode == 1 ? " [COLOR 4]" : "") + " S" + I(++c) + nl + "[" + (o.dim == 1 ? "CURVE" : o.dim == 2 ? "SURFACE" : "TRIVAR") + " BSPLINE";
    for (int k : o.n) s += " " + I(k);
    for (int k : o.p) s += " " + I(k + 1);
    s += std::string(o.rational ? " P" : " E") + I(o.pd) + nl;
    for (auto &kn : o.kn) { s += "[KV"; int i = 0; for (double y : kn) s += (mode == 1 && ++i % 3 == 0 ? "\n" : " ") + T(y); s += "]" + nl; }
    for (int k = 0; k < total(o); ++k) {
      s += "[";
      if (o.rational) s += T(o.W[k]) + " ";
      for (int j = 0; j < o.pd; ++j) s += (j ? (mode == 1 && j == 2 ? "\n" : "  ") : "") + T(o.rational ? o.P[k][j] * o.W[k] : o.P[k][j]);
      s += "]" + nl;
    }
    s += "]" + nl + "]" + nl;
  }
  s += "]";
  std::string x;
  for (char ch : s) if (ch == '\n') { r.push_back(x); x.clear(); } else x += ch;
  r.push_back(x);
  return r;
}

// ---------------------------------------------------------------- XML (a scanner for elements without mixed contents)
struct Node { std::string name, text; std::map<std::string, std::string> att; std::vector<Node> kids; };
static bool xml(const std::string &s, size_t *q, Node *n) {  // at '<'
  size_t e = *q + 1;
  while (s[e] != ' ' && s[e] != '>' && s[e] != '/' && s[e] != '\n') n->name += s[e++];
  while (s[e] != '>' && s[e] != '/') {
    if (s[e] == ' ' || s[e] == '\n') { ++e; continue; }
    std::string k, v;
    while (e < s.size() && s[e] != '=') k += s[e++];
    e += 2;
    while (e < s.size() && s[e] != '"') v += s[e++];
    ++e;
    n->att[k] = v;
    if (e >= s.size()) return false;
  }
  if (s[e] == '/') { *q = e + 2; return true; }
  ++e;
  while (e < s.size()) {
    if (s[e] != '<') { n->text += s[e++]; continue; }
    if (s[e + 1] == '/') {
      size_t f = s.find('>', e);
      if (f == std::string::npos || s.substr(e + 2, f - e - 2) != n->name) return false;
      *q = f + 1;
      return true;
    }
    n->kids.emplace_back();
    if (!xml(s, &e, &n->kids.back())) return false;
  }
  return false;
}
static const Node *kid(const Node &n, const std::string &name) { const Node *r = nullptr; for (auto &k : n.kids) if (k.name == name) { if (r) return nullptr; r = &k; } return r; }
static int kids(const Node &n, const std::string &name) { int c = 0; for (auto &k : n.kids) c += k.name == name; return c; }
static void numbers(const std::string &text, const std::vector<double> &want, const char *label) {
  auto v = cut(text, " \n\t");
  sym_check(v.size() == want.size(), "as many numbers as announced");
  if (v.size() == want.size()) for (size_t i = 0; i < v.size(); ++i) near(num(v[i]), want[i], label);
}
static void xmlCheck(const std::vector<Any> &in, const Lines &l) {
  std::string s;
  for (auto &x : l) s += x + "\n";
  size_t q = s.find("<SplineList");
  Node root;
  bool ok = q != std::string::npos && s.substr(0, 5) == "<?xml" && xml(s, &q, &root);
  sym_check(ok, "well-formed XML document");
  if (!ok) return;
  sym_check(root.att["NumberOfSplines"] == I((int)in.size()) && root.kids.size() == in.size(), "number of splines");
  if (root.kids.size() != in.size()) return;
  for (size_t i = 0; i < in.size(); ++i) {
    Node &e = root.kids[i];
    const Any &o = in[i];
    sym_check(e.name == "SplineEntry", "element of a spline");
    sym_check(e.att["splDim"] == I(o.dim), "attribute splDim");
    sym_check(e.att["spaceDim"] == I(o.pd) && e.att["numOfCntrlPntVars"] == I(o.pd), "attributes of the point dimension");
    sym_check(e.att["numCntrlPnts"] == I(total(o)), "attribute numCntrlPnts");
    const Node *names = kid(e, "cntrlPntVarNames"), *vars = kid(e, "cntrlPntVars"), *deg = kid(e, "deg"), *kv = kid(e, "kntVecs"), *w = kid(e, "wght");
    bool have = names && vars && deg && kv && kids(e, "wght") == (o.rational ? 1 : 0) && kids(*kv, "kntVec") == o.dim && (int)kv->kids.size() == o.dim;
    sym_check(have, "elements of a spline");
    if (!have) return;
    static const char *xyz[] = {"x", "y", "z", "t"};
    std::vector<std::string> nn(xyz, xyz + o.pd);
    sym_check(cut(names->text, " \n") == nn, "names of the coordinates");
    std::vector<double> p;
    for (auto &x : o.P) for (double y : x) p.push_back(y);
    numbers(vars->text, p, "coordinate in the file");
    std::vector<std::string> dd;
    for (int k : o.p) dd.push_back(I(k));
    sym_check(cut(deg->text, " \n") == dd, "degrees in the file");
    for (int d = 0; d < o.dim; ++d) numbers(kv->kids[d].text, o.kn[d], "knot in the file");
    if (w) numbers(w->text, o.W, "weight in the file");
  }
}
static Lines xmlForeign(const std::vector<Any> &in, int mode) {
  // mode 1: more variables per point in front of and behind the coordinates, attributes and elements in another order; mode 2: as few line breaks as possible
  std::string s = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<SplineList NumberOfSplines=\"" + I((int)in.size()) + "\">";
  std::string nl = mode == 1 ? "\n   " : " ";
  int c = 0;
  for (auto &o : in) {
    int before = mode == 1 ? 1 + c % 2 : 0, after = mode == 1 ? c % 3 : 1;
    int nv = before + o.pd + after;
    ++c;
    static const char *xyz[] = {"x", "y", "z", "t"};
    std::string kv = "<kntVecs>", deg, w = "<wght>", vars = "<cntrlPntVars>" + nl, names;
    for (auto &k : o.kn) { kv += "<kntVec>"; for (double y : k) kv += (mode == 1 && y == k.back() ? "\n\n" : nl) + T(y); kv += "</kntVec>"; }
    kv += "</kntVecs>";
    for (int k : o.p) deg += nl + I(k);
    for (size_t k = 0; k < o.W.size(); ++k) w += (mode == 1 && k == 1 ? "\n\n  " : nl) + T(o.W[k]);
    w += nl + "</wght>";
    for (int i = 0; i < before; ++i) names += (i + c) % 2 ? " flux" : " x" + I(i);
    for (int i = 0; i < o.pd; ++i) names += std::string(" ") + xyz[i];
    for (int i = 0; i < after; ++i) names += " u" + I(i);
    for (int k = 0; k < total(o); ++k) {
      for (int i = 0; i < before; ++i) vars += " 17." + I(i);
      for (double y : o.P[k]) vars += " " + T(y);
      for (int i = 0; i < after; ++i) vars += " -3.5e1";
      vars += mode == 1 && k == 1 ? "\n \n" : nl;
    }
    vars += "</cntrlPntVars>";
    std::string a = "splDim=\"" + I(o.dim) + "\"", b = "spaceDim=\"" + I(o.pd) + "\"", v = "numOfCntrlPntVars=\"" + I(nv) + "\"", p = "numCntrlPnts=\"" + I(total(o)) + "\"";
    names = "<cntrlPntVarNames>" + names + "</cntrlPntVarNames>";
    deg = "<deg>" + deg + " </deg>";
    if (!o.rational) w = "";
    if (mode == 1) s += "<SplineEntry " + p + " " + v + " " + b + " " + a + ">" + kv + deg + w + vars + names + "</SplineEntry>\n";
    else s += "<SplineEntry " + a + " " + b + " " + v + " " + p + ">" + names + vars + w + deg + kv + "</SplineEntry>";
  }
  s += "</SplineList>\n";
  Lines r; std::string x;
  for (char ch : s) if (ch == '\n') { r.push_back(x); x.clear(); } else x += ch;
  return r;
}

// mode 3: records of every length, so that they end at every column of a line; file names of every length (global section)
static Any curve(double x, std::vector<double> rest) {
  Model<1> m; m.rational = false; m.pd = 3; m.dir[0].p = 1; m.dir[0].knots = {0, 0, 1, 1}; m.n[0] = 2;
  m.P = {{x, rest[0], rest[1]}, {rest[2], rest[3], rest[4]}}; m.W = {1, 1};
  Any r; r.dim = 1; r.rational = false; r.pd = 3; r.p = {1}; r.kn = {m.dir[0].knots}; r.n = {2}; r.P = m.P; r.W = m.W;
  r.a = std::make_any<std::shared_ptr<spl::BSpline<1>>>(m.bspline());
  return r;
}
static void lengths() {
  std::vector<Any> in;
  std::vector<std::any> list;
  for (int i = 0; i < 66; ++i) {
    std::vector<double> rest;
    int digits = i;
    for (int j = 0; j < 5; ++j) { int d = std::min(digits, 14); digits -= d; double v = 7; for (int k = 0; k < d; ++k) v = v * 10 + (k + j) % 9 + 1; rest.push_back(v); }
    in.push_back(curve(i % 16 ? 5.0 + i : sym_real(nm("x", i).c_str(), 1.05, 9.95), rest)); list.push_back(in.back().a);
  }
  sym_numfmt(-1);
  writeFile(0, list, "form.iges");
  Lines l = slurp("form.iges");
  std::vector<std::any> out;
  try { out = readFile(0, "form.iges"); } catch (std::exception &) { sym_check_impossible("reading raises no error"); return; }
  sym_numfmt(-2);
  iges(in, l);
  sym_check(out.size() == in.size(), "number of splines");
  if (out.size() == in.size()) for (size_t i = 0; i < in.size(); ++i) compareAny(in[i], out[i]);
  for (int k = 1; k <= 73; ++k) {
    std::string f = std::string(k, 'n') + ".iges";
    writeFile(0, {list[1]}, f.c_str());
    iges({in[1]}, slurp(f));
    remove(f.c_str());
  }
}
void harness_main() {
  Cfg c;
  int mode = (int)c.next();
  FMT = (int)c.next(); VAR = (int)c.next();
  int n = (int)c.next();
  if (mode == 3) { lengths(); return; }
  std::vector<Any> in;
  std::vector<std::any> list;
  for (int i = 0; i < n; ++i) { in.push_back(readOne(&c, i)); list.push_back(in.back().a); }
  sym_numfmt(-1);
  std::string file = FMT == 0 ? "form.iges" : FMT == 1 ? "form.itd" : "form.xml";
  if (mode == 0) {
    try { writeFile(FMT, list, file.c_str()); } catch (std::exception &) { sym_check_impossible("writing raises no error"); return; }
    Lines l = slurp(file);
    sym_numfmt(-2);
    if (FMT == 0) iges(in, l);
    else if (FMT == 1) irit(in, l);
    else xmlCheck(in, l);
    return;
  }
  bool tabs = mode == 4;  // as mode 1, with tabs for every other blank and lines ended by CR LF
  if (tabs) mode = 1;
  Lines l = FMT == 0 ? igesForeign(in, mode) : FMT == 1 ? iritForeign(in, mode) : xmlForeign(in, mode);
  if (tabs) {
    int k = 0;
    for (size_t i = 0; i < l.size(); ++i) {
      if (FMT == 1 || (FMT == 2 && i)) for (auto &ch : l[i]) if (ch == ' ' && ++k % 2) ch = '\t';
      l[i] += '\r';
    }
  }
  { std::ofstream o(file); for (auto &x : l) o << x << "\n"; }
  std::vector<std::any> out;
  try { out = readFile(FMT, file.c_str()); } catch (std::exception &) { sym_check_impossible("reading raises no error"); return; }
  sym_numfmt(-2);
  sym_check(out.size() == in.size(), "number of splines");
  if (out.size() != in.size()) return;
  for (int i = 0; i < n; ++i) compareAny(in[i], out[i]);
}
