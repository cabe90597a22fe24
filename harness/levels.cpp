// Several levels, each one made from the coarse graph and the lines of the one before: C33.
#define CELLS 36
#include "corrmodel.h"
#include "linesmodel.h"
#include "linesin.h"
#include "wholemodel.h"
#include "box.h"
static bool T() { return sym_tier() != 0; }
static void cards(Conf &c, int k) {
  static const int t[][3] = {{4, 4, 4}, {2, 2, 2}, {2, 3, 4}, {2, 4, 5}, {3, 3, 3}};
  c.min = t[k][0]; c.goal = t[k][1]; c.max = t[k][2];
}
static double total(const VD &v) { double s = 0; for (double x : v) s += x; return s; }
static void climb(const Mesh &fine, Conf c, int levels) {
  Mesh m = fine;
  Res r;
  std::vector<int> top(m.n);
  for (int i = 0; i < m.n; ++i) top[i] = i;
  const int pool = choose("pool", 0, T() ? 3 : 1);
  c.pool = poolOf(pool);
  for (int level = 0; level < levels; ++level) {
    std::vector<Line> L;
    if (c.build) L = expected(m, c);
    else {
      bool good = r.idx.empty() ? r.lines.empty() : r.idx.front() == 0 && r.idx.back() == r.lines.size();
      for (size_t k = 0; good && k + 1 < r.idx.size(); ++k) good = r.idx[k] <= r.idx[k + 1];
      sym_assert(good, "C33 lines handed on are well-formed");
      if (!good) return;
    }
    if (!c.build) for (size_t k = 0; k + 1 < r.idx.size(); ++k) L.emplace_back(r.lines.begin() + r.idx[k], r.lines.begin() + r.idx[k + 1]);
    // lines of a level are paths of its graph
    bool seen[MAXN] = {};
    for (auto &l : L)
      for (size_t p = 0; p < l.size(); ++p) {
        const bool in = l[p] >= 0 && l[p] < m.n && !seen[l[p]];
        sym_assert(in, "C33 cells of the lines");
        if (!in) return;
        seen[l[p]] = true;
        if (p) sym_assert(m.adj[l[p]][l[p - 1]], "C33 lines handed on follow faces");
        if (level && p) sym_cover("line on a coarse level");
      }
    agglo(m, c, r);
    int ncc = 0;
    const bool part = isPartition(m, r.f2c, ncc);
    sym_assert(part, "partition");
    if (!part) return;
    Model x(m, c, pool % 2 == 0, pool >= 2);
    if (c.aniso) x.lines(L);
    const int naniso = x.ncc;
    x.start();
    const bool ok = x.run();
    sym_assert(ok, "the model has an answer");
    if (!ok) return;
    std::vector<std::vector<int>> g(x.ncc);
    for (int i = 0; i < m.n; ++i) g[x.f2c[i]].push_back(i);
    const auto got = groups(r.f2c, ncc);
    bool match = !c.correction && got == g, known = true;
    if (c.correction) {
      int parted = 0;
      for (unsigned f = 0; f < (1u << std::min(parted, 10)) && known && !match; ++f) {
        auto e = g;
        const int p = expectMoves(m, e, naniso, std::min(c.sing, c.min - 1), f);
        known = p >= 0;
        parted = std::max(parted, p);
        match = e == got;
      }
    }
    sym_assert(match | !known, "C33 the coarse cells of every level");
    observe(r);
    // the next level
    for (int &t : top) t = (int)r.f2c[t];
    std::vector<std::vector<int>> all(ncc);
    for (int i = 0; i < fine.n; ++i) all[top[i]].push_back(i);
    for (auto &a : all) sym_assert(connectedSet(fine, a), "C33 cells of every level are connected");
    Mesh n;
    n.n = ncc; n.dim = m.dim;
    comma::build_coarse_graph<UL, double, int>(r.f2c, m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.nbnd, n.row, n.col, n.area, n.vol, n.ctr, n.prio, n.nbnd);
    const bool sz = (int)n.row.size() == ncc + 1 && n.col.size() == n.area.size() && n.row.back() == n.col.size() && (int)n.vol.size() == ncc
                    && (int)n.ctr.size() == ncc && (int)n.prio.size() == ncc && (int)n.nbnd.size() == ncc;
    sym_assert(sz, "C33 a well-formed coarse graph");
    if (!sz) return;
    for (int i = 0; i < ncc; ++i)
      for (UL e = n.row[i]; e < n.row[i + 1]; ++e) { n.adj[i][n.col[e]] = true; n.w[i][n.col[e]] = n.area[e]; }
    sym_assert(total(n.vol) == total(fine.vol), "C33 volume is conserved");
    for (int i = 0; i < ncc; ++i) {
      int k = 0;
      double p = -1;
      for (int f : all[i]) { k = std::max(k, fine.nbnd[f]); if (fine.prio[f] > p) p = fine.prio[f]; }
      for (int x = 0; x < (int)fine.ctr[0].size(); ++x) {
        double v = 0, at = 0;
        for (int f : all[i]) { v += fine.vol[f]; at += fine.vol[f] * fine.ctr[f][x]; }
        sym_assert(std::fabs(n.ctr[i][x] * v - at) <= 1e-9 * v, "C33 centres of a level");
      }
      sym_assert(n.nbnd[i] == k, "C33 boundary faces of a level");
      sym_assert(n.prio[i] == p, "C33 priorities of a level");
      for (int j = 0; j < ncc; ++j) {
        if (i == j) continue;
        double w = 0;
        for (int a : all[i]) for (int b : all[j]) if (fine.adj[a][b]) w += fine.w[a][b];
        sym_assert(n.adj[i][j] == (w > 0) && n.w[i][j] == w, "C33 faces of a level");
      }
    }
    m = n;
    c.build = false;
    c.aniso = !r.idx.empty();
    if (level > 1) sym_cover("third level");
    if (ncc == 1) break;
  }
}
static void prios(Mesh &m) {
  const int k = choose("order", 0, 2);
  if (k == 1) for (double &x : m.prio) x = 1;
  if (k == 2) { const int c = choose("cell", 0, T() ? m.n - 1 : 1) * (T() ? 1 : m.n / 2); m.prio[c] = sym_f64("priority", c, 0, 30); }
}
static void layers() {
  Box b(5, 5, 1);
  for (int i = 0; i < 5; ++i) b.layer(i, 0, i == 1 || i == 4 ? choose(i == 1 ? "height1" : "height4", 1, 5) : i == 2 ? 3 : 5);
  areas(b.m);
  prios(b.m);
  Conf c; cards(c, choose("cards", 0, T() ? 4 : 1)); c.ar = AR::ONE_OVER_INTERNAL_WEIGHTS; c.odd = chooseb("odd"); c.correction = chooseb("correction"); c.sing = 2;
  c.build = c.aniso = true;
  climb(b.m, c, 3);
}
// lines that may only be followed for some cells
static void limited() {
  Box b(4, 6, 1);
  for (int i = 0; i < 4; ++i) b.layer(i, 0, i == 1 ? choose("height", 1, 6) : i == 2 ? 3 : 6 - i);
  areas(b.m);
  prios(b.m);
  Conf c; cards(c, choose("cards", 0, 1)); c.ar = AR::ONE_OVER_INTERNAL_WEIGHTS; c.odd = chooseb("odd"); c.correction = true; c.sing = 1;
  c.build = c.aniso = true;
  c.maxline = choose("limit", 1, 5);
  if (*c.maxline == 1) sym_cover("no cell of a line");
  climb(b.m, c, 3);
}
static void layers3() {
  Box b(3, 3, 3);
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) b.layer(i, k, (i + k) % 3 == 0 ? 3 : i == 1 && k == 1 ? choose("height", 1, 3) : 2 * (i != k));
  areas(b.m);
  prios(b.m);
  Conf c; cards(c, choose("cards", 0, T() ? 4 : 2)); c.ar = AR::ONE_OVER_INTERNAL_WEIGHTS; c.odd = chooseb("odd"); c.correction = chooseb("correction"); c.sing = 2;
  c.build = c.aniso = true; c.thresh = 2; c.neigh = neighOf(choose("neighbourhood", 0, 1));
  climb(b.m, c, 3);
}
static void plain() {
  Box b(6, 6, 1);
  Geo g; g.prio = 2; g.w = 2; g.vol = 2; g.bnd = 0; 
  const auto nb = b.m.nbnd;
  fill(b.m, g);
  b.m.nbnd = nb;
  prios(b.m);
  Conf c; cards(c, choose("cards", 0, 4)); c.ar = AR::ONE_OVER_INTERNAL_WEIGHTS; c.correction = chooseb("correction"); c.iter = choose("ahead", 1, 2);
  climb(b.m, c, 4);
}
// any graph, symbolic volumes and faces
static void small() {
  sym_mode(1);
  Mesh m; topoClass(m, T() ? 6 : 5, true);
  Geo g; g.vol = 1; g.prio = 0; g.bnd = 0; g.hi = 50; fill(m, g);
  int k = 0;
  for (int i = 0; i < m.n; ++i) for (int j = 0; j < i; ++j) if (m.adj[i][j]) { m.w[i][j] = m.w[j][i] = k < (T() ? 3 : 4) ? sym_f64("weight", k, 1, 50) : 1 + k; ++k; }
  areas(m);
  for (auto &x : m.ctr) x.assign(2, 0.0);
  Conf c; cards(c, 1 + choose("cards", 0, 1));
  climb(m, c, 3);
}
CASES({"layers on a 5x5 grid", 0, layers}, {"limited lines on a 4x6 grid", 0, limited}, {"layers on a 3x3x3 grid", 0, layers3}, {"6x6 grid", 0, plain}, {"5 cells, volumes and faces", 0, small})
