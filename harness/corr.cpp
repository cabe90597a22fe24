// The correction pass: the same agglomeration with and without it (C04 nothing else changes, C27 choice of the receiver).
#define CELLS 36
#include "corrmodel.h"
#include "box.h"
#include "linesin.h"
#ifndef PROP
#define PROP 4
#endif
static bool T() { return sym_tier() != 0; }

#if PROP == 4
typedef std::vector<std::vector<int>> Groups;
// g0 before, g1 after; made: whether the cells were distributed by the library
static void judge(const Mesh &m, const Groups &g0, const std::vector<bool> &an, const Groups &g1, int th, bool made, bool lined) {
  const int n0 = (int)g0.size(), n1 = (int)g1.size();
  int f1[MAXN], f0[MAXN];
  for (int k = 0; k < n0; ++k) for (int v : g0[k]) f0[v] = k;
  for (int k = 0; k < n1; ++k) for (int v : g1[k]) f1[v] = k;
  std::vector<int> to(n0, -1);
  int prev = -1;
  for (int k = 0; k < n0; ++k) {
    const bool big = an[k] || (int)g0[k].size() > th;
    if (!big) { sym_cover("singular coarse cell"); continue; }
    const int t = f1[g0[k][0]];
    for (int v : g0[k]) sym_assert(f1[v] == t, "C04 a coarse cell above the threshold stays whole");
    if (an[k]) sym_assert(g1[t] == g0[k], "C04 an anisotropic coarse cell gains nothing");
    sym_assert(t > prev, "C04 coarse cells are not merged and keep their order");
    prev = t;
    to[k] = t;
  }
  std::vector<bool> iso1(n1, true);
  for (int k = 0; k < n0; ++k) if (an[k] && to[k] >= 0) iso1[to[k]] = false;
  for (int i = 0; i < m.n; ++i)
    for (int j = 0; j < m.n; ++j) {
      const int a = f1[i], b = f1[j];
      if (!m.adj[i][j] || a == b || !iso1[a] || !iso1[b]) continue;
      sym_assert((int)g1[a].size() > th, "C04 no singular coarse cell is left next to another one");
    }
  // what is still small was small before, and unchanged
  for (int k = 0; k < n1 && made; ++k)
    if ((int)g1[k].size() <= th) {
      const int q = f0[g1[k][0]];
      sym_assert(g0[q] == g1[k], "C04 a coarse cell that stays small is unchanged");
    }
  for (auto &x : g1) if (!lined) sym_assert(connectedSet(m, x), "C04 corrected coarse cells are connected");
}
#endif
static void both(Mesh &m, Conf c, const Res &in, const LinesIn &li) {
  Res r0 = in, r1 = in;
  c.correction = false;
  agglo(m, c, r0);
  c.correction = true;
  agglo(m, c, r1);
  int n0 = 0, n1 = 0;
  const bool p0 = isPartition(m, r0.f2c, n0), p1 = isPartition(m, r1.f2c, n1);
  sym_assert(p0 && p1, "partition");
  if (!p0 || !p1) return;
  auto g0 = groups(r0.f2c, n0), g1 = groups(r1.f2c, n1);
  const int th = std::min(c.sing, c.min - 1);
  // anisotropic coarse cells come first
  std::vector<bool> an(n0, false);
  int naniso = 0;
  for (UL v : r0.lines) if (c.aniso) { an[v] = true; naniso = std::max(naniso, (int)v + 1); }
#if PROP == 4
  judge(m, g0, an, g1, th, true, c.aniso);
#endif
#if PROP == 27
  bool match = false, known = true;
  int parted = 0;
  for (unsigned f = 0; f < (1u << std::min(parted, 10)) && known && !match; ++f) {
    auto e = g0;
    const int p = expectMoves(m, e, naniso, th, f);
    known = p >= 0;
    parted = std::max(parted, p);
    match = e == g1;
  }
  sym_assert(match || !known, "C27 a singular coarse cell joins its best neighbour");
#endif
  observe(r0);
  observe(r1);
}
static void both(Mesh &m, Conf c) { both(m, c, Res(), LinesIn()); }
static void cards(Conf &c, int k) {
  static const int t[][3] = {{2, 2, 2}, {2, 2, 3}, {2, 3, 4}, {3, 3, 3}, {3, 3, 4}, {4, 4, 4}};
  c.min = t[k][0]; c.goal = t[k][1]; c.max = t[k][2];
}
static void n3() {
  Mesh m; topoAll(m, 3); fill(m, {});
  // a threshold at or above the minimum counts as the minimum less one
  Conf c; cards(c, choose("cards", 0, 1)); c.sing = choose("singular", 1, 3);
  both(m, c);
}
static void n4() {
  Mesh m; topoAll(m, 4);
  Geo g; g.prio = T(); g.bnd = 1; fill(m, g);
  Conf c; cards(c, T() ? choose("cards", 0, 2) : choose("cards", 0, 1)); c.sing = choose("singular", 1, T() ? 3 : 2);
  both(m, c);
}
static void n5() {
  Mesh m; topoClass(m, 5, T() ? chooseb("connected") : true);
  if (chooseb("reversed")) relabelReverse(m);
  Geo g; g.prio = 0; if (!T()) g.bhi = 1; fill(m, g);
  Conf c; cards(c, choose("cards", 0, T() ? 4 : 1)); c.sing = T() ? choose("singular", 1, 2) : 1;
  both(m, c);
}
static void n6() {
  Mesh m; topoClass(m, 6);
  Geo g; g.prio = 0; g.bhi = 1; fill(m, g);
  Conf c;
  if (PROP == 4) { cards(c, T() ? choose("cards", 3, 5) : 3); c.sing = T() ? choose("singular", 1, 3) : 2; }
  else { const bool two = chooseb("two"); cards(c, two ? 3 : T() ? choose("cards", 0, 3) : 1); c.sing = two ? 2 : 1; }
  both(m, c);
}
// two blocks joined by a chain: cells of the chain are left alone
static void chain() {
  Mesh m; m.n = 7;
  for (int i = 0; i < 7; ++i)
    for (int j = i + 1; j < 7; ++j)
      if (j == i + 1 || (j == i + 2 && sym_bool("extra", i))) edge(m, i, j);
  Geo g; g.prio = 0; g.bhi = 1; fill(m, g);
  Conf c; cards(c, T() ? choose("cards", 3, 5) : 3 + (PROP == 4)); c.sing = choose("singular", 1, 2); c.pool = poolOf(T() ? choose("pool", 0, 1) : 1);
  both(m, c);
}
// a pair left between two groups of three
static void between() {
  Mesh m; m.n = 8;
  edge(m, 0, 1); edge(m, 1, 2); edge(m, 5, 6); edge(m, 6, 7); edge(m, 3, 4);
  if (sym_bool("extra", 0)) edge(m, 0, 2);
  if (sym_bool("extra", 1)) edge(m, 5, 7);
  for (int i = 0; i < 4; ++i)
    for (int j = 3; j < 5; ++j) {
      const int k = i < 2 ? i + 1 : i + 3;
      if (sym_bool("link", 2 * i + j - 3)) edge(m, k, j);
    }
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  m.nbnd[0] = m.nbnd[7] = 2;
  Conf c; cards(c, 3 + (T() ? choose("max", 0, 1) : 0)); c.sing = 2; c.pool = poolOf(1);
  both(m, c);
}
static void lined() {
  Mesh m; topoClass(m, 5);
  Geo g; g.prio = 0; g.bnd = T(); g.bhi = 1; fill(m, g);
  Conf c; cards(c, choose("cards", 0, 1)); c.aniso = true; c.odd = chooseb("odd");
  Res r; LinesIn li;
  giveLines(m, r, li, 1, 4, true);
  both(m, c, r, li);
}
static void large() {
  Mesh m; largeMesh(m);
  Conf c; largeCards(c); c.pool = poolOf(choose("pool", 0, 3)); c.neigh = neighOf(choose("neighbourhood", 0, 1)); c.sing = choose("singular", 1, 3);
  both(m, c);
}
static void layers() {
  Box b(5, 5, 1);
  for (int i = 0; i < 5; ++i) b.layer(i, 0, i == 1 || i == 4 ? choose(i == 1 ? "height1" : "height4", 1, 5) : i == 2 ? 3 : 5);
  areas(b.m);
  Conf c; largeCards(c, 3); c.pool = poolOf(choose("pool", 0, 3)); c.sing = choose("singular", 1, 3); c.odd = chooseb("odd");
  if (chooseb("limited")) c.maxline = 3;
  c.build = c.aniso = true;
  both(b.m, c);
}
#if !defined(REDUCED)
// coarse cells made by hand: any distribution of the cells, the first coarse cell anisotropic or not
static void byhand(Mesh &m, int steps, bool lines) {
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  auto d = std::make_shared<comma::Dual_Graph<UL, double, int>>(m.n, m.row, m.col, m.area, m.vol, m.ctr, m.nbnd, m.dim, VI{});
  const int th = choose("singular", 1, 2);
  comma::Coarse_Cell_Container<UL, double, int> c(d, th);
  std::vector<std::vector<int>> g0(steps), g1;
  for (int i = 0; i < m.n; ++i) g0[(int)sym_concrete(sym_i32("group", i, 0, steps - 1))].push_back(i);
  for (auto &v : g0) sym_assume(!v.empty() && connectedSet(m, v));
  const bool an = lines && chooseb("anisotropic");
  for (auto &v : g0) c.create_cc({v.begin(), v.end()}, inner(m, v), an && &v == &g0[0]);
  c.correct(m.n);
  for (int i = 0; i < m.n; ++i) {
    const UL k = c._fc_2_cc[i].value();
    if (k >= g1.size()) g1.resize(k + 1);
    g1[k].push_back(i);
  }
#if PROP == 4
  std::vector<bool> first(steps, false);
  first[0] = an;
  bool full = true;
  for (auto &v : g1) full &= !v.empty();
  sym_assert(full, "C04 coarse cells are numbered without gaps");
  if (full) judge(m, g0, first, g1, th, false, false);
#else
  bool match = false, known = true;
  int parted = 0;
  for (unsigned f = 0; f < (1u << std::min(parted, 10)) && known && !match; ++f) {
    auto e = g0;
    const int p = expectMoves(m, e, an, th, f);
    known = p >= 0;
    parted = std::max(parted, p);
    match = e == g1;
  }
  sym_assert(match || !known, "C27 a singular coarse cell joins its best neighbour");
#endif
  for (auto &x : c._fc_2_cc) sym_observe((long)x.value());
}
static void hand4() { Mesh m; topoClass(m, 4); byhand(m, choose("groups", 2, 4), true); }
static void hand5() { Mesh m; topoClass(m, 5); byhand(m, T() ? choose("groups", 3, 4) : 3, T()); }
static void hand6() {
  // a cell next to two groups of any shape
  Mesh m; m.n = 6;
  for (int i = 0; i < 5; ++i) { edge(m, 5, i); for (int j = i + 1; j < 5; ++j) if (j == i + 2 || ((T() || j == i + 1) && sym_bool("edge", pairIdx(6, i, j)))) edge(m, i, j); }
  byhand(m, 3, false);
}
#define HAND {"coarse cells by hand, 4 cells", 0, hand4}, {"coarse cells by hand, 5 cells", 0, hand5}, {"coarse cells by hand, around a cell", 0, hand6},
#else
#define HAND
#endif
CASES(HAND {"some dozens of cells", 0, large}, {"layers of cells", 0, layers}, {"3 cells, every graph", 0, n3}, {"4 cells, every graph", 0, n4}, {"5 cells", 0, n5}, {"6 cells", 0, n6},
      {"chains of 7 cells", 0, chain}, {"pair between two groups", 0, between}, {"5 cells with a line", 0, lined})
