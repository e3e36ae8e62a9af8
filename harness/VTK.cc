// The VTK file of a list of splines: points, cells and cell types.
// cfg: knot variant (0 fixed, 1 symbolic breakpoints, 2 fixed and only one coordinate symbolic, 4 fixed ranges whose equidistant grids round past the end), number of splines, then per spline: DIM, rational, point dimension, directions, DIM scatterings
#include <any>
#include <fstream>
#include <sstream>
#include "common.h"
#include "vtk_writer.h"
using namespace vf;
struct Sp { std::any a; int dim, pd; std::vector<int> sc; std::vector<std::array<double, 3>> pts; };
static double sval(const std::string &n, int i) {
  static const double lo[] = {1.25, -9.5, 12, -80}, hi[] = {9.5, -1.25, 90, -12};
  int k = (i / 3) % 4;
  (void)k;
  return sym_real(n.c_str(), lo[0], hi[0]);
}
template <int DIM> static Sp build(Cfg *c, int s, int kv) {
  Model<DIM> m; readModel(c, &m);
  Sp r; r.dim = DIM; r.pd = m.pd;
  std::array<int, DIM> sc;
  for (int d = 0; d < DIM; ++d) { sc[d] = (int)c->next(); r.sc.push_back(sc[d]); }
  std::string tag = "s" + std::to_string(s);
  for (int d = 0; d < DIM; ++d) { m.dir[d].ksym = kv == 1 ? 2 : kv == 4 ? 4 : 0; makeKnots(&m.dir[d], nm(tag + "k", d), -1); }
  for (int d = 0; d < DIM; ++d) m.n[d] = m.dir[d].nbas();
  static int cnt = 0;
  for (int i = 0; i < m.total(); ++i) {
    std::vector<double> x;
    for (int j = 0; j < m.pd; ++j) x.push_back((cnt++ % 17) < 12 || cnt > 90 || (kv == 2 && cnt != 15) || (kv == 4 && cnt != 1) ? double((i * 7 + j * 3) % 8) + 1.5 : sval(nm(tag + "P", i, j), cnt));
    m.P.push_back(x);
    m.W.push_back(m.rational ? 0.5 + 0.25 * ((i * 3) % 5) : 1.0);
  }
  // reference points: first direction fastest, equally spaced parameters including both ends
  int t = 1; for (int d = 0; d < DIM; ++d) t *= sc[d] + 1;
  for (int f = 0; f < t; ++f) {
    int g = f;
    for (int d = 0; d < DIM; ++d) {
      int i = g % (sc[d] + 1); g /= sc[d] + 1;
      Dir &q = m.dir[d];
      double a = q.brk.front(), b = q.brk.back();
      q.u = i == sc[d] ? b : a + i * (b - a) / sc[d];
      q.loc = 0;
      for (int k = 0; k < (int)q.brk.size(); ++k) { if (q.u == q.brk[k]) q.loc = 2 * k; else if (k + 1 < (int)q.brk.size() && q.u > q.brk[k] && q.u < q.brk[k + 1]) q.loc = 2 * k + 1; }
    }
    std::array<double, 3> p;
    for (int j = 0; j < 3; ++j) p[j] = j < m.pd ? m.refEval(j) : 0.0;
    r.pts.push_back(p);
  }
  if (m.rational) r.a = std::make_any<std::shared_ptr<spl::NURBS<DIM>>>(m.nurbs());
  else r.a = std::make_any<std::shared_ptr<spl::BSpline<DIM>>>(m.bspline());
  return r;
}
void harness_main() {
  Cfg c;
  int kv = (int)c.next(), n = (int)c.next();
  std::vector<Sp> sp; std::vector<std::any> list; std::vector<std::vector<int>> sc;
  int np = 0, nc = 0, ne = 0;
  for (int i = 0; i < n; ++i) {
    int dim = (int)c.next();
    sp.push_back(dim == 1 ? build<1>(&c, i, kv) : dim == 2 ? build<2>(&c, i, kv) : build<3>(&c, i, kv));
    list.push_back(sp.back().a); sc.push_back(sp.back().sc);
    int k = 1; for (int x : sp.back().sc) k *= x;
    np += (int)sp.back().pts.size(); nc += k; ne += k * ((1 << dim) + 1);
  }
  sym_numfmt(-1);
  sym_native(kv == 4);
  try { io::VTKWriter().WriteFile(list, "out.vtk", sc); } catch (std::exception &) { sym_check_impossible("writing raises no error"); return; }
  sym_numfmt(-2);
  sym_native(0);
  std::ifstream f("out.vtk");
  std::string w; int a = -1, b = -1;
  while (f >> w && w != "POINTS") {}
  f >> a >> w;
  sym_check(bool(f) && a == np && w == "double", "number of points");
  if (!f || a != np || kv == 4) return;
  for (auto &s : sp)
    for (auto &p : s.pts)
      for (int j = 0; j < 3; ++j) {
        double v = 0; f >> v;
        sym_check(bool(f), "a point is three numbers");
        if (!f) return;
        sym_check_near(v, p[j], 5.1e-5, "coordinate of a point");
      }
  f >> w >> a >> b;
  sym_check(bool(f) && w == "CELLS" && a == nc && b == ne, "number of cells and entries");
  if (!f || w != "CELLS") return;
  int off = 0;
  for (auto &s : sp) {
    int D = s.dim, cells = 1;
    for (int x : s.sc) cells *= x;
    for (int k = 0; k < cells; ++k) {
      int g = k, base = 0, st = 1; int str[3];
      for (int d = 0; d < D; ++d) { str[d] = st; base += (g % s.sc[d]) * st; g /= s.sc[d]; st *= s.sc[d] + 1; }
      std::vector<int> want{base, base + 1};
      if (D > 1) { want.push_back(base + 1 + str[1]); want.push_back(base + str[1]); }
      if (D > 2) for (int i = 0; i < 4; ++i) want.push_back(want[i] + str[2]);
      int cnt = 0; f >> cnt;
      sym_check(cnt == (1 << D), "corners of a cell");
      for (int x : want) { int v = -1; f >> v; sym_check(bool(f) && v == x + off, "point of a cell"); if (!f) return; }
    }
    off += (int)s.pts.size();
  }
  f >> w >> a;
  sym_check(bool(f) && w == "CELL_TYPES" && a == nc, "number of cell types");
  for (auto &s : sp) {
    int cells = 1; for (int x : s.sc) cells *= x;
    for (int k = 0; k < cells; ++k) { int v = -1; f >> v; sym_check(v == (s.dim == 1 ? 3 : s.dim == 2 ? 9 : 12), "cell type"); }
  }
  f >> w;
  sym_check(!f, "nothing follows");
}
