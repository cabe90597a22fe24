// Whole agglomerations of small meshes (C01 partition, C02 connectivity, C03 cardinalities).
#define CELLS 36
#include "box.h"
#include "linesin.h"
#ifndef PROP
#define PROP 1
#endif

static void judge(const Mesh &m, const Conf &c, const Res &r, const LinesIn &li) {
  int ncc = 0;
  const bool part = isPartition(m, r.f2c, ncc);
  sym_assert(part, "C01 every cell is in one coarse cell, identifiers contiguous");
  if (!part) return;
  auto g = groups(r.f2c, ncc);
  if (ncc > 1) sym_cover("several coarse cells");
  if (ncc < m.n) sym_cover("something is grouped");
#if PROP == 2
  for (auto &x : g) sym_assert(connectedSet(m, x), "C02 coarse cell is connected");
#endif
#if PROP == 3
  if (!c.correction) {
    std::vector<bool> iso(ncc, true);
    for (int k = 0; k < ncc; ++k)
      for (int v : g[k]) if (li.in[v]) iso[k] = false;
    for (int k = 0; k < ncc; ++k)
      if (iso[k]) sym_assert((int)g[k].size() <= c.max, "C03 not above the maximum cardinality");
    for (int i = 0; i < m.n; ++i)
      for (int j = 0; j < m.n; ++j) {
        UL a = r.f2c[i], b = r.f2c[j];
        if (!m.adj[i][j] || a == b || !iso[a] || !iso[b]) continue;
        sym_assert((int)g[a].size() >= c.min || (int)g[b].size() >= c.min,
                   "C03 touching coarse cells are not both below the minimum");
        // the one created later may be small only when nothing was left around it
        if ((int)g[a].size() < c.min) {
          sym_cover("small coarse cell");
          sym_assert(a > b, "C03 small coarse cell was made when a neighbour was still free");
        }
      }
  }
#endif
  observe(r);
}
static void run(Mesh &m, Conf &c) {
  Res r;
  LinesIn li;
  agglo(m, c, r);
  judge(m, c, r, li);
}
static void cards(Conf &c, int k) {
  static const int t[][3] = {{2, 2, 2}, {2, 2, 3}, {2, 3, 4}, {3, 3, 3}, {3, 4, 4}, {2, 4, 4}, {3, 3, 4}, {4, 4, 5}};
  c.min = t[k][0]; c.goal = t[k][1]; c.max = t[k][2];
}
// correction is outside the third property
static bool corr() { return PROP != 3; }
static bool corrAny() { return PROP != 3 && chooseb("correction"); }
static bool T() { return sym_tier() != 0; }

// every labelled graph, any priorities, any boundary counts
static void n3() {
  Mesh m; m.dim = choose("dim", 2, 3);
  Geo g; if (!T()) g.bhi = 2;
  topoAll(m, 3); fill(m, g);
  Conf c; cards(c, choose("cards", 0, T() ? 3 : 1)); c.pool = poolOf(choose("pool", 0, 3)); c.correction = T() ? corrAny() : corr();
  run(m, c);
}
static void n4() {
  Mesh m; topoAll(m, 4);
  Geo g; g.bhi = 1; fill(m, g);
  Conf c; cards(c, T() ? choose("cards", 0, 2) : 1); c.pool = poolOf(choose("pool", 0, T() ? 3 : 1)); c.correction = corr();
  run(m, c);
}
// any face weights: every outcome of the aspect-ratio competition
static void n4w() {
  Mesh m; topoClass(m, 4);
  Geo g; g.w = 1; g.bnd = 0; g.vol = 0; fill(m, g);
  Conf c; cards(c, choose("cards", T() ? 0 : 1, 2)); c.correction = corr(); c.iter = choose("iter", 1, T() ? 3 : 2);
  c.neigh = chooseb("front") ? CoMMANeighbourhoodT::PURE_FRONT : CoMMANeighbourhoodT::EXTENDED;
  run(m, c);
}
static void n5() {
  Mesh m; topoClass(m, 5);
  if (T() && chooseb("reversed")) relabelReverse(m);
  Geo g; g.bnd = 0; fill(m, g);
  Conf c; cards(c, choose("cards", 1, T() ? 4 : 2)); c.correction = corr();
  c.pool = poolOf(T() ? choose("pool", 0, 1) : 1);
  run(m, c);
}
static void n5b() {
  Mesh m; topoClass(m, 5, chooseb("connected"));
  Geo g; g.bnd = 1; g.prio = 0; if (!T()) g.bhi = 1; fill(m, g);
  Conf c; cards(c, T() ? choose("cards", 1, 2) : 2); c.correction = corr(); c.pool = poolOf(choose("pool", 1, 3)); c.iter = 2;
  run(m, c);
}
// singularity threshold of two
static void n6() {
  Mesh m; topoClass(m, 6);
  Geo g; g.prio = 0; g.bnd = 1; g.bhi = 1; fill(m, g);
  Conf c; cards(c, choose("cards", 3, 4)); c.correction = corr(); c.sing = PROP == 3 ? 1 : choose("singular", 1, 2);
  run(m, c);
}
static void grid8() {
  Mesh m; topoGrid(m, 4, 2);
  Geo g; g.prio = 0; g.bnd = 1; if (!T()) g.bhi = 1; fill(m, g);
  Conf c; cards(c, choose("cards", 5, 7)); c.correction = corr(); c.pool = poolOf(choose("pool", 0, 1));
  run(m, c);
}
static void grid9() {
  Mesh m; topoGrid(m, 3, 3);
  Geo g; g.prio = 0; g.bnd = 1; g.bhi = 1; fill(m, g);
  Conf c; cards(c, choose("cards", 2, 5)); c.correction = corr(); c.pool = poolOf(choose("pool", 0, 1)); c.iter = choose("iter", 1, 2);
  run(m, c);
}
// all aspect ratios: the value itself is left free
static void ratios() {
  Mesh m; m.dim = choose("dim", 2, 3);
  topoClass(m, T() ? 4 : 3);
  Geo g; g.w = 2; g.vol = 1; g.bnd = 0; g.prio = 0; fill(m, g);
  Conf c; cards(c, T() ? 2 : 1); c.ar = (CoMMAAspectRatioT)choose("ratio", 0, 9); c.iter = choose("iter", 1, 2);
  c.correction = corr();
  run(m, c);
}
// lines given
static void lines4() {
  Mesh m; topoClass(m, 4);
  if (T() && chooseb("reversed")) relabelReverse(m);
  Geo g; g.prio = 0; g.bnd = 1; g.bhi = 1; fill(m, g);
  Conf c; cards(c, T() ? choose("cards", 0, 1) : 1); c.aniso = true; c.odd = chooseb("odd"); c.correction = corr();
  Res r; LinesIn li;
  giveLines(m, r, li, 2, 4, true);
  agglo(m, c, r);
  judge(m, c, r, li);
}
static void lines5() {
  Mesh m; topoClass(m, 5);
  Geo g; g.prio = T(); g.bnd = 0; fill(m, g);
  Conf c; cards(c, choose("cards", 1, 2)); c.aniso = true; c.odd = chooseb("odd"); c.correction = corr();
  Res r; LinesIn li;
  giveLines(m, r, li, 1, 4, true);
  agglo(m, c, r);
  judge(m, c, r, li);
}
// lines built
static void built() {
  sym_mode(1);
  Mesh m;
  if (T() || chooseb("four")) topoClass(m, 4); else topoClass(m, 3);
  Geo g; g.w = 1; g.prio = 0; g.bnd = 0; fill(m, g);
  for (int i = 0; i < m.n; ++i) m.compliant.push_back(i);
  Conf c; cards(c, T() ? choose("cards", 0, 1) : 1); c.aniso = c.build = true; c.thresh = 4; c.force = false; c.odd = chooseb("odd"); c.correction = corr();
  if (!T() && m.n == 4) for (int i = 0; i < 4; ++i) if (m.row[i + 1] - m.row[i] == 3) return;
  Res r; LinesIn li;
  agglo(m, c, r);
  if (PROP == 3) return;
  judge(m, c, r, li);
}
// some dozens of cells
static void large() {
  Mesh m; largeMesh(m);
  Conf c; largeCards(c); c.pool = poolOf(choose("pool", 0, 3)); c.neigh = neighOf(choose("neighbourhood", 0, 1)); c.iter = choose("iter", 1, T() ? 3 : 2);
  c.correction = corr(); c.sing = PROP == 3 ? 1 : T() ? choose("singular", 1, 3) : 2;
  run(m, c);
}
static void layers() {
  Box b(5, 5, 1);
  for (int i = 0; i < 5; ++i) b.layer(i, 0, i == 1 || i == 4 ? choose(i == 1 ? "height1" : "height4", 1, 5) : i == 2 ? 3 : 5);
  areas(b.m);
  Conf c; largeCards(c, 3); c.pool = poolOf(choose("pool", 0, 3)); c.correction = corr(); c.sing = 2; c.odd = chooseb("odd");
  if (chooseb("limited")) c.maxline = 3;
  c.build = c.aniso = true;
  Res r; LinesIn li;
  agglo(b.m, c, r);
  // the cells of lines
  if (PROP == 3) for (int i = 0; i < b.m.n; ++i) li.in[i] = std::count(r.lines.begin(), r.lines.end(), r.f2c[i]) > 0;
  judge(b.m, c, r, li);
}
#if PROP != 3
// a row of cells, each face strong or weak, started from any of them
static void row() {
  const int n = T() ? 8 : 7;
  Mesh m; m.n = n; m.dim = T() ? choose("dim", 2, 3) : 2;
  for (int i = 0; i + 1 < n; ++i) edge(m, i, i + 1);
  Geo g; g.w = g.prio = 2; g.bnd = 0; fill(m, g);
  for (int i = 0; i + 1 < n; ++i) m.w[i][i + 1] = m.w[i + 1][i] = sym_concrete(sym_i32("strong", i, 0, 1)) ? 10 : 1;
  areas(m);
  const bool near = chooseb("near");
  for (int i = 0; i < n; ++i) {
    m.ctr[i].assign(m.dim, 0.0);
    m.ctr[i][0] = !i ? 0 : m.ctr[i - 1][0] + (near && m.w[i][i - 1] < 10 ? 9 : 2);
    m.prio[i] = i % 3;
  }
  m.prio[choose("first", 0, n - 1)] = 9;
  for (int i = 0; i < n; ++i) m.compliant.push_back(i);
  Conf c; cards(c, 1); c.aniso = c.build = true; c.thresh = chooseb("any") ? -1 : 4; c.odd = chooseb("odd"); c.correction = corr(); c.force = chooseb("straight");
  if (near) c.coupling = CoMMACellCouplingT::MIN_DISTANCE;
  run(m, c);
}
#endif
CASES({"3 cells, every graph", 0, n3}, {"4 cells, every graph", 0, n4}, {"4 cells, weights", 0, n4w},
      {"5 cells, priorities", 0, n5}, {"5 cells, boundary", 0, n5b}, {"6 cells", 0, n6}, {"4x2 grid", 0, grid8},
      {"3x3 grid", 1, grid9}, {"all aspect ratios", 0, ratios}, {"4 cells, lines given", 0, lines4},
      {"5 cells, line given", 0, lines5}, {"some dozens of cells", 0, large}, {"layers of cells", 0, layers}
#if PROP != 3
      , {"4 cells, lines built", 0, built}, {"row of cells, lines built", 0, row}
#endif
)
