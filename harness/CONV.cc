// Conversion between file formats with a selection of splines.
// cfg: mode (0 IOConverter, 1 executable with log file), input format, output format (0 IGES, 1 IRIT, 2 XML, 3 VTK), class variant,
//      maximal number of positions, second call (mode 0) / layout (mode 1), number of symbolic numbers, number of splines, then per spline: DIM, rational, point dimension, directions
#include <fstream>
#include <sstream>
#include "rt.h"
#include "io_converter.h"
#include "vtk_writer.h"
#define TOOL(x) int tool_##x(int, char **) __asm__("vf_main_" #x);
TOOL(iges_to_irit) TOOL(iges_to_vtk) TOOL(iges_to_xml) TOOL(irit_to_iges) TOOL(irit_to_vtk) TOOL(irit_to_xml) TOOL(xml_to_iges) TOOL(xml_to_irit) TOOL(xml_to_vtk)
static const char *EXT[] = {".iges", ".itd", ".xml", ".vtk"};
static const int LIMIT[] = {2, 3, 4, 3};
template <int DIM> static Any look(const std::any &a) {
  Any r; r.a = a; r.dim = DIM; r.rational = false;
  std::shared_ptr<spl::Spline<DIM>> s;
  if (auto p = std::any_cast<std::shared_ptr<spl::NURBS<DIM>>>(&a)) { s = *p; r.rational = true; }
  else s = *std::any_cast<std::shared_ptr<spl::BSpline<DIM>>>(&a);
  r.pd = s->GetPointDim();
  auto n = s->GetPointsPerDirection();
  int t = 1;
  for (int d = 0; d < DIM; ++d) {
    r.p.push_back(s->GetDegree(d).get()); r.n.push_back(n[d]); t *= n[d];
    r.kn.emplace_back();
    for (size_t i = 0; i < s->GetKnotVector(d)->GetNumberOfKnots(); ++i) r.kn.back().push_back(s->GetKnotVector(d)->GetKnot(i).get());
  }
  for (int i = 0; i < t; ++i) {
    std::array<int, DIM> a2; int f = i;
    for (int d = 0; d < DIM; ++d) { a2[d] = f % n[d]; f /= n[d]; }
    std::vector<double> x; for (int j = 0; j < r.pd; ++j) x.push_back(s->GetControlPoint(a2, j));
    r.P.push_back(x); r.W.push_back(s->GetWeight(a2));
  }
  return r;
}
static Any lookAny(const std::any &a, int dim) { return dim == 1 ? look<1>(a) : dim == 2 ? look<2>(a) : dim == 3 ? look<3>(a) : look<4>(a); }
static std::vector<std::string> tokens(const char *f) { std::ifstream s(f); std::vector<std::string> r; std::string w; while (s >> w) r.push_back(w); return r; }

static void verify(int outfmt, const char *out, const std::vector<std::any> &src, const std::vector<int> &dims, const std::vector<int> &want, const std::vector<std::vector<int>> &wsc) {
  std::vector<std::any> sel; for (int i : want) sel.push_back(src[i]);
  if (outfmt == 3) {
    sym_numfmt(-1);
    io::VTKWriter().WriteFile(sel, "want.vtk", wsc);
    sym_numfmt(-2);
    std::ifstream a(out), b("want.vtk");
    std::string x, y; int k = 0;
    // header up to POINTS as text, then numbers
    for (;;) {
      bool fa = bool(a >> x), fb = bool(b >> y);
      sym_check(fa == fb, "same length as the directly written file");
      if (!fa || !fb) return;
      sym_check(x == y, "same words as the directly written file");
      if (x != y) return;
      if (x == "POINTS") {
        int n = 0, m = 0; a >> n >> x; b >> m >> y;
        sym_check(n == m && x == y, "same number of points as the directly written file");
        if (n != m) return;
        for (int i = 0; i < 3 * n; ++i) { double p = 0, q = 1; a >> p; b >> q; sym_check(bool(a) && bool(b), "numbers of points"); if (!a || !b) return; sym_check_near(p, q, 1.1e-4, "same point as the directly written file"); }
      }
      if (++k > 5000) return;
    }
  }
  if (want.empty()) return;
  std::vector<std::any> got;
  try { got = readFile(outfmt, out); } catch (std::exception &) { sym_check_impossible("the converted file can be read"); return; }
  sym_check(got.size() == want.size(), "number of splines in the converted file");
  if (got.size() != want.size()) return;
  FMT = outfmt;
  for (size_t i = 0; i < want.size(); ++i) compareAny(lookAny(src[want[i]], dims[want[i]]), got[i]);
}
struct Sel { std::vector<int> pos, want; std::vector<std::vector<int>> sc, wsc; };
static Sel choose(const char *tag, int n, const std::vector<int> &dims, int maxpos, int minpos, int low, int limit, bool vtk) {
  Sel s;
  int np = minpos + sym_choice((std::string(tag) + "np").c_str(), maxpos - minpos + 1);
  for (int i = 0; i < np; ++i) s.pos.push_back(low + sym_choice(nm(std::string(tag) + "p", i).c_str(), n + 1 - low));
  auto scat = [&](int i, int salt) { std::vector<int> r; int d = i >= 0 && i < n ? dims[i] : 1; for (int j = 0; j < d; ++j) r.push_back(1 + (i + 2 * j + salt) % 3); return r; };
  if (np == 0) for (int i = 0; i < n; ++i) { s.sc.push_back(scat(i, 1)); if (dims[i] <= limit) { s.want.push_back(i); s.wsc.push_back(scat(i, 1)); } }
  else for (int k = 0; k < np; ++k) { int i = s.pos[k]; s.sc.push_back(scat(i, k + 3)); if (i >= 0 && i < n && dims[i] <= limit) { s.want.push_back(i); s.wsc.push_back(scat(i, k + 3)); } }
  if (!vtk) s.sc.clear();
  return s;
}
void harness_main() {
  Cfg c;
  int mode = (int)c.next(), infmt = (int)c.next(), outfmt = (int)c.next();
  FMT = infmt == 0 ? 0 : 1; VAR = (int)c.next();
  int maxpos = (int)c.next(), second = (int)c.next();
  SYMMAX = (int)c.next();
  int n = (int)c.next();
  std::vector<std::any> list; std::vector<int> dims;
  for (int i = 0; i < n; ++i) { Any a = readOne(&c, i); list.push_back(a.a); dims.push_back(a.dim); }
  std::string in = std::string("in") + EXT[infmt], out = std::string("out") + EXT[outfmt];
  bool bad = false;
  if (mode == 2) {  // file names: the format is that of the end of the name, whatever precedes it
    static const char *pre[] = {"a", "a.xml", "a.itd", "a.iges", "a.vtk", "", "a.b.c"}, *no[] = {"out.txt", "out", "xml", "out.xml.bak", "out.itdx", "outvtk", "o.igs", ".iges.x"};
    in = std::string(pre[sym_choice("in", 7)]) + EXT[infmt];
    int k = sym_choice("out", 15);
    bad = k >= 7;
    out = bad ? std::string(no[k - 7]) : "o" + std::string(pre[k]) + EXT[outfmt];
  }
  sym_numfmt(-1);
  std::vector<std::any> src;
  try { writeFile(infmt, list, in.c_str()); src = readFile(infmt, in.c_str()); } catch (std::exception &) { sym_check_impossible("the input can be written and read"); return; }
  sym_check((int)src.size() == n, "all splines are in the input");
  if ((int)src.size() != n) return;
  Sel s = choose("a", n, dims, maxpos, 0, mode == 0 ? -1 : 0, LIMIT[outfmt], outfmt == 3);
  if (mode == 2) {
    std::vector<int> r;
    int e = 0;
    try { r = io::IOConverter(in.c_str(), out.c_str()).ConvertFile(s.pos, s.sc); } catch (std::runtime_error &) { e = 1; } catch (...) { e = 2; }
    sym_check(e == (bad ? 1 : 0), "exactly the names of the supported formats are accepted");
    if (e || bad) return;
    sym_check(r == s.want, "the selected splines are written");
    verify(outfmt, out.c_str(), src, dims, s.want, s.wsc);
    return;
  }
  if (mode == 0) {
    std::vector<int> r;
    io::IOConverter conv(in.c_str(), out.c_str());
    try { r = conv.ConvertFile(s.pos, s.sc); } catch (std::exception &) { sym_check_impossible("conversion raises no error"); return; }
    sym_check(r == s.want, "exactly the selected splines the format can hold are written, in the order of the request");
    verify(outfmt, out.c_str(), src, dims, s.want, s.wsc);
    if (second) {
      sym_numfmt(-1);
      Sel q = choose("b", n, dims, 1, second == 1 ? 1 : 0, 0, LIMIT[outfmt], outfmt == 3);
      try { r = conv.ConvertFile(q.pos, q.sc); } catch (std::exception &) { sym_check_impossible("a second conversion raises no error"); return; }
      sym_check(r == q.want, "a second conversion does not depend on the first");
      verify(outfmt, out.c_str(), src, dims, q.want, q.wsc);
    }
    return;
  }
  {
    std::ofstream log("conv.txt");
    log << "input:\n" << in << "\n" << (second & 1 ? "" : "\n") << "output:\n" << out << "\n" << (second & 1 ? "" : "\n") << "options:\n";
    if (s.pos.empty()) log << (second & 4 ? "" : "all"); else for (size_t i = 0; i < s.pos.size(); ++i) log << (i ? "\n" : "") << s.pos[i];
    if (outfmt == 3) {
      log << "\n" << (second & 1 ? "" : "\n") << "scattering:";
      for (auto &v : s.sc) { log << "\n"; for (size_t j = 0; j < v.size(); ++j) log << (j ? " " : "") << v[j]; }
    }
    if (second & 2) log << "\n";
  }
  char a0[] = "converter", a1[] = "conv.txt"; char *argv[] = {a0, a1, nullptr};
  typedef int (*Main)(int, char **);
  static const Main mains[3][4] = {{nullptr, tool_iges_to_irit, tool_iges_to_xml, tool_iges_to_vtk}, {tool_irit_to_iges, nullptr, tool_irit_to_xml, tool_irit_to_vtk}, {tool_xml_to_iges, tool_xml_to_irit, nullptr, tool_xml_to_vtk}};
  int rc = -1;
  try { rc = mains[infmt][outfmt](2, argv); } catch (...) { sym_check_impossible("the converter raises no error"); return; }
  sym_check(rc == 0, "the converter reports success");
  verify(outfmt, out.c_str(), src, dims, s.want, s.wsc);
  std::ifstream lf("conv.txt");
  std::stringstream all; all << lf.rdbuf();
  std::string text = all.str(), e;
  if (s.want.empty()) e = "No splines in file ";
  else { e = s.want.size() == 1 ? "The spline at position " : "The splines at positions "; for (size_t i = 0; i < s.want.size(); ++i) e += (i ? ", " : "") + std::to_string(s.want[i]); e += " in file "; }
  e += in + (s.want.size() == 1 ? " has been written to " : " have been written to ") + out;
  size_t lp = text.find("\nlog:\n");
  sym_check(lp != std::string::npos && text.find(e, lp) != std::string::npos, "the log names the splines that were written");
}
