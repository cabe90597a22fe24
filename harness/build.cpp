// Lines built by the library: C06 what a line may contain, C29 the lines that are expected.
#include <memory>
#define CELLS 36
#include "box.h"
#include "linesmodel.h"
#ifndef PROP
#define PROP 6
#endif
static bool T() { return sym_tier() != 0; }
using Graph_ = comma::Dual_Graph<UL, double, int>;
using Cells_ = comma::Coarse_Cell_Container<UL, double, int>;
using Pool_ = comma::Seeds_Pool_Boundary_Priority<UL, double, int>;
using Aniso_ = comma::Agglomerator_Anisotropic<UL, double, int>;

// The library's lines, as first found
static std::vector<Line> built(const Mesh &m, const Conf &c, int *count = nullptr) {
  auto g = std::make_shared<Graph_>(m.n, m.row, m.col, m.area, m.vol, m.ctr, m.nbnd, m.dim, m.compliant);
  auto cc = std::make_shared<Cells_>(g, 1);
  auto sp = std::make_shared<Pool_>(m.nbnd, m.prio, false);
  std::optional<UL> mx;
  Aniso_ a(g, cc, sp, m.dim, c.thresh, VI{}, VI{}, m.prio, true, c.odd, mx, c.coupling, c.force);
  VI idx, val;
  a.export_anisotropic_lines(0, idx, val);
  std::vector<Line> r;
  for (size_t k = 0; k + 1 < idx.size(); ++k) r.emplace_back(val.begin() + idx[k], val.begin() + idx[k + 1]);
  if (count) *count = (int)a._nb_lines[0];
  return r;
}

#if PROP == 6
static void judge(const Mesh &m, const Conf &c) {
  int count = 0;
  const auto L = built(m, c, &count);
  const Coupling k{m, c.coupling == CoMMACellCouplingT::MIN_DISTANCE};
  sym_assert(count == (int)L.size(), "C06 number of lines");
  bool in[MAXN] = {}, el[MAXN] = {};
  for (int i = 0; i < m.n; ++i) el[i] = eligible(m, c, i);
  for (auto &l : L) {
    sym_assert(l.size() > 1, "C06 a line has two cells at least");
    for (size_t p = 0; p < l.size(); ++p) {
      sym_assert(l[p] >= 0 && l[p] < m.n, "C06 cells of the mesh");
      sym_assert(el[l[p]], "C06 only eligible cells");
      sym_assert(!in[l[p]], "C06 each cell once");
      in[l[p]] = true;
      if (p) sym_assert(m.adj[l[p]][l[p - 1]], "C06 face to face");
      if (c.force && p > 1) {
        double a[3] = {}, b[3] = {};
        step(m, l[p - 2], l[p - 1], a);
        step(m, l[p - 1], l[p], b);
        sym_assert(aligned(m, a, b), "C06 straight");
        sym_cover("three in a row");
      }
    }
    if (!c.force) {
      bool ok = false;
      for (size_t s = 0; s < l.size(); ++s) {
        bool o = true;
        for (size_t p = 0; p + 1 < l.size(); ++p) o = o & (p < s ? k.high(l[p + 1], l[p]) : k.high(l[p], l[p + 1]));
        ok = ok | o;
      }
      sym_assert(ok, "C06 a line follows strong couplings");
    }
  }
  for (auto &l : L)
    for (int end = 0; end < 2; ++end) {
      const int e = end ? l.back() : l.front(), before = end ? l[l.size() - 2] : l[1];
      for (int q = 0; q < m.n; ++q) {
        if (!m.adj[e][q] || !el[q] || in[q]) continue;
        bool go = true;
        if (c.force) {
          double a[3] = {}, b[3] = {};
          step(m, before, e, a);
          step(m, e, q, b);
          go = aligned(m, a, b);
        } else go = k.high(e, q);
        sym_assert(!go | !k.high(q, e), "C06 a line stops only where nothing strong continues it");
        sym_cover("end of a line next to a free eligible cell");
      }
    }
  for (int i = 0; i < m.n; ++i)
    for (int j = 0; j < i; ++j)
      if (m.adj[i][j] && el[i] && el[j] && !in[i] && !in[j]) {
        sym_assert(!k.high(i, j) | !k.high(j, i), "C06 two cells strongly coupled to each other are not both left");
        sym_cover("neighbours left");
      }
  for (auto &l : L) { sym_observe(888); for (int v : l) sym_observe(v); }
}
#else
static void judge(const Mesh &m, const Conf &c) {
  const auto L = built(m, c), E = expected(m, c);
  sym_assert(L.size() == E.size(), "C29 the expected number of lines");
  for (size_t k = 0; k < L.size(); ++k) {
    Line r = L[k];
    std::reverse(r.begin(), r.end());
    sym_assert(L[k] == E[k] || r == E[k], "C29 the expected lines");
  }
  Res r;
  Conf d = c;
  d.build = d.aniso = true; d.min = d.goal = d.max = 2;
  agglo(m, d, r);
  int ncc = 0, id = 0;
  sym_assert(isPartition(m, r.f2c, ncc), "C29 partition");
  auto g = groups(r.f2c, ncc);
  size_t pos = 0;
  sym_assert(r.idx.size() == (E.empty() ? 0 : E.size() + 1), "C29 as many lines returned");
  for (auto &e : E) {
    const Line l = oriented(m, e);
    int len = (int)l.size(), cells = 0;
    for (int i = 0; i + 1 < len; i += 2, ++id, ++cells) {
      Line x{l[i], l[i + 1]};
      if (i + 3 == len && c.odd) x.push_back(l[i + 2]);
      std::sort(x.begin(), x.end());
      sym_assert(id < ncc && g[id] == x, "C29 the lines are cut in coarse cells");
    }
    sym_assert((int)(r.idx[pos + 1] - r.idx[pos]) == cells, "C29 lines returned");
    ++pos;
  }
  observe(r);
  for (auto &l : L) { sym_observe(888); for (int v : l) sym_observe(v); }
}
#endif
static void compliantAll(Mesh &m) { m.compliant.clear(); for (int i = 0; i < m.n; ++i) m.compliant.push_back(i); }
static void compliantSome(Mesh &m) {
  m.compliant.clear();
  for (int i = m.n; i--;) if (sym_concrete(sym_i32("compliant", i, 0, 1))) m.compliant.push_back(i);
}
static void weighted(int n, int prio) {
  sym_mode(1);
  Mesh m; topoClass(m, n, true);
  if (chooseb("reversed")) relabelReverse(m);
  Geo g; g.w = 1; g.hi = 32; g.prio = 0; g.bnd = 0; fill(m, g);
  if (prio) m.prio[choose("first", 0, n - 1)] = 100;
  compliantAll(m);
  Conf c; c.thresh = -1; c.force = false; c.odd = T() ? chooseb("odd") : true;
  judge(m, c);
}
static void w3() { weighted(3, 1); }
static void w4() { weighted(4, 1); }
static void tags() {
  sym_mode(1);
  Mesh m; m.dim = choose("dimension", 2, 3);
  if (chooseb("ring")) topoClass(m, 3, true); else { m.n = 4; edge(m, 0, 1); edge(m, 1, 2); edge(m, 2, 3); }
  Geo g; g.w = 1; g.hi = 32; g.prio = 0; g.bnd = 0; fill(m, g);
  compliantSome(m);
  static const double t[] = {-1, 2, 0.25, 1, 0, 1.5};
  Conf c; c.thresh = t[choose("threshold", 0, T() ? 5 : 4)]; c.force = false;
  judge(m, c);
}
static void prios() {
  Mesh m; topoClass(m, T() ? 5 : 4, T() ? chooseb("connected") : true);
  Geo g; g.w = 2; g.bnd = 1; g.bhi = 1; fill(m, g);
  compliantAll(m);
  // cells without faces cannot be measured
  Conf c; c.thresh = 0.99; c.force = false;
  judge(m, c);
}
static void grid(int nx, int ny, bool dist) {
  Mesh m; topoGrid(m, nx, ny);
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  // weak faces along x are chosen one by one, those along y are weak
  for (int i = 0; i < m.n; ++i)
    for (int j = 0; j < i; ++j)
      if (m.adj[i][j]) m.w[i][j] = m.w[j][i] = i - j == 1 ? (sym_concrete(sym_i32("strong", i, 0, 1)) ? 10 : 5) : 4;
  areas(m);
  for (int i = 0; i < m.n; ++i) { m.ctr[i][0] = 8 * (i % nx); m.ctr[i][1] = 32 * (i / nx); }
  const int a = choose("moved", 0, nx - 1);
  static const double up[] = {-4, -2, 0, 1, 3};
  m.ctr[a][1] += up[choose("up", 0, T() ? 4 : 2)];
  if (dist) m.ctr[a][0] += choose("right", -1, 1);
  m.prio[choose("first", 0, m.n - 1)] = 100;
  compliantAll(m);
  if (chooseb("excluded")) m.compliant.erase(m.compliant.begin() + choose("which", 0, m.n - 1));
  Conf c; c.thresh = dist ? -1 : 1.5; c.force = T() || !dist ? chooseb("straight") : true;
  c.coupling = dist ? CoMMACellCouplingT::MIN_DISTANCE : CoMMACellCouplingT::MAX_WEIGHT;
  judge(m, c);
}
static void g32() { grid(T() ? 4 : 3, 2, false); }
static void d32() { grid(T() ? 4 : 3, 2, true); }
// a chain and a fork, one cell moving freely
static void angle() {
  sym_mode(1);
  Mesh m; m.n = 5; edge(m, 0, 1); edge(m, 1, 2); edge(m, 1, 3); edge(m, 0, 4);
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  static const double p[5][2] = {{0, 0}, {16, 0}, {32, 0}, {32, 4}, {-16, 0}};
  for (int i = 0; i < 5; ++i) { m.ctr[i][0] = p[i][0]; m.ctr[i][1] = p[i][1]; }
  const int k = choose("moving", 2, 4);
  if (k == 2 && chooseb("mirrored")) m.ctr[k][1] = -4;
  else {
    m.ctr[k][1] = sym_f64("height", 0, -16, 16);
    if (k == 2) sym_assume(m.ctr[k][1] * m.ctr[k][1] != 16);
  }
  if (chooseb("space")) stand(m);
  const double heavy = 10;
  m.w[0][1] = m.w[1][0] = heavy;
  m.w[1][2] = m.w[2][1] = chooseb("strong") ? heavy : 5;
  m.w[1][3] = m.w[3][1] = chooseb("strong2") ? heavy : 6;
  m.w[0][4] = m.w[4][0] = chooseb("back") ? heavy : 5;
  areas(m);
  m.prio[choose("first", 0, 4)] = 100;
  compliantAll(m);
  Conf c; c.thresh = -1;
  judge(m, c);
}
// coupling by distance: one cell slides along the axis
static void slide() {
  sym_mode(1);
  Mesh m; m.n = 4; edge(m, 0, 1); edge(m, 1, 2); edge(m, 2, 3); edge(m, 0, 2);
  Geo g; g.prio = 0; g.bnd = 0; g.w = 2; fill(m, g);
  static const double p[4][2] = {{0, 0}, {8, 0}, {16, 0}, {32, 0}};
  for (int i = 0; i < 4; ++i) { m.ctr[i][0] = p[i][0]; m.ctr[i][1] = p[i][1]; }
  m.ctr[choose("moving", 1, 3)][0] = sym_f64("place", 0, 1, 40);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) sym_assume(m.ctr[i][0] != m.ctr[j][0]);
  if (chooseb("space")) for (auto &p : m.ctr) p = {p[1], p[1], p[0]};
  m.prio[choose("first", 0, 3)] = 100;
  compliantAll(m);
  Conf c; c.thresh = chooseb("all") ? -1 : 1.5; c.force = false; c.coupling = CoMMACellCouplingT::MIN_DISTANCE;
  judge(m, c);
}
// layers of several heights, some strong faces between them, holes
static void layers() {
  const int shape = choose("box", 0, 2);
  Box b(shape == 0 ? 6 : shape == 1 ? 4 : 3, shape == 0 ? 6 : shape == 1 ? 8 : 3, shape == 2 ? 3 : 1);
  Mesh &m = b.m;
  const int h = choose("height", 2, b.ny), o = choose("others", 0, b.ny);
  for (int k = 0; k < b.nz; ++k) for (int i = 0; i < b.nx; ++i) b.layer(i, k, i == 1 && k == b.nz / 2 ? h : o);
  const int bridge = choose("bridge", 0, 3);
  if (bridge) m.w[b.id(1, bridge - 1, 0)][b.id(2, bridge - 1, 0)] = m.w[b.id(2, bridge - 1, 0)][b.id(1, bridge - 1, 0)] = 8 * choose("bridge_weight", 1, 3);
  areas(m);
  const int hole = choose("hole", 0, 2);
  if (hole) m.compliant.erase(m.compliant.begin() + b.id(1, hole, b.nz / 2));
  if (chooseb("late")) m.prio[b.id(1, h / 2, 0)] = -1;
  if (chooseb("early")) m.prio[b.id(1, h / 2, 0)] = 1000;
  Conf c; c.thresh = chooseb("all") ? -1 : 2; c.force = chooseb("straight"); c.odd = T() ? chooseb("odd") : h % 2;
  c.coupling = chooseb("distance") ? CoMMACellCouplingT::MIN_DISTANCE : CoMMACellCouplingT::MAX_WEIGHT;
  judge(m, c);
}
// one strong path through a grid, straight, bent, or winding; where it turns and where it starts vary
static void winding() {
  Mesh m; topoGrid(m, 6, 5);
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  for (int i = 0; i < m.n; ++i) { m.ctr[i][0] = 8 * (i % 6); m.ctr[i][1] = 8 * (i / 6); }
  std::vector<int> p;
  const int kind = choose("path", 0, 3), turn = choose("turn", 1, 4);
  if (kind == 0) for (int r = 0; r < 5; ++r) for (int x = 0; x < 6; ++x) p.push_back(6 * r + (r % 2 ? 5 - x : x));
  else if (kind == 1) { for (int x = 0; x <= turn; ++x) p.push_back(x); for (int r = 1; r < 5; ++r) p.push_back(6 * r + turn); }
  else if (kind == 2) { int x = 0, y = 0; p.push_back(0); while (x < 5 && y < 4) { if ((int)p.size() % (turn + 1)) ++x; else ++y; p.push_back(6 * y + x); } }
  else for (int x = 0; x < 6; ++x) p.push_back(6 * turn + x);
  for (size_t i = 0; i + 1 < p.size(); ++i) m.w[p[i]][p[i + 1]] = m.w[p[i + 1]][p[i]] = 16 + (chooseb("graded") ? (int)i % 3 : 0);
  areas(m);
  compliantAll(m);
  m.prio[p[choose("first", 0, std::min<int>(p.size(), T() ? 30 : 8) - 1)]] = 100;
  m.ctr[p[2]][0] += choose("right", 0, 1) * 3;
  m.ctr[p[2]][1] += choose("up", -1, 1) * 3;
  if (chooseb("space")) stand(m);
  Conf c; c.thresh = chooseb("all") ? -1 : 4; c.force = chooseb("straight"); c.odd = kind % 2;
  judge(m, c);
}
CASES({"layers on a box", 0, layers}, {"winding path", 0, winding}, {"weights, 3 cells", 0, w3}, {"weights, 4 cells", 0, w4}, {"threshold and compliance", 0, tags}, {"priorities", 0, prios},
      {"stretched grid", 0, g32}, {"stretched grid, distances", 0, d32}, {"angle", 0, angle}, {"distance", 0, slide})
