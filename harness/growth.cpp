// How isotropic coarse cells come about: C09 order of the seeds, C10 choice of the next cell, C28 choice of the size.
#define CELLS 36
#include "model.h"
#include "box.h"
#ifndef PROP
#define PROP 10
#endif
static bool T() { return sym_tier() != 0; }
static void cards(Conf &c, int lo, int goal, int hi) { c.min = lo; c.goal = goal; c.max = hi; }
// better seed: more boundary faces, higher priority, lower index (one formula)
static bool better(const Mesh &m, int a, int b) {
  const int x = std::min(m.nbnd[a], m.dim), y = std::min(m.nbnd[b], m.dim);
  return (x > y) | ((x == y) & ((m.prio[a] > m.prio[b]) | ((m.prio[a] == m.prio[b]) & (a < b))));
}

#if PROP == 9
// nl: number of coarse cells made of lines
static void order(Mesh &m, Conf &c, int pools, const Res &in = Res(), int nl = 0) {
  const int k = choose("pool", 0, pools);
  c.pool = poolOf(k);
  Res r = in;
  agglo(m, c, r);
  int ncc = 0;
  const bool part = isPartition(m, r.f2c, ncc);
  sym_assert(part, "partition");
  if (!part) return;
  auto g = groups(r.f2c, ncc);
  if (nl == 0) {
    bool first = false;
    for (int i : g[0]) {
      bool best = true;
      for (int j = 0; j < m.n; ++j) if (j != i) best = best & better(m, i, j);
      first = first | best;
    }
    sym_assert(first, "C09 the first coarse cell holds the best seed");
  }
  for (int q = std::max(nl, 1); q < ncc; ++q) {
    if (k % 2 == 0) {
      bool ok = false;
      for (int i : g[q]) {
        bool top = true;
        for (int j = 0; j < m.n; ++j) if ((int)r.f2c[j] >= q) top = top & (std::min(m.nbnd[i], m.dim) >= std::min(m.nbnd[j], m.dim));
        ok = ok | top;
      }
      sym_assert(ok, "C09 boundary: a cell with most boundary faces of those left");
      sym_cover("later seed, boundary");
    }
    if (k == 3 || (k == 1 && q == nl)) {
      if (q == nl) sym_cover("first seed after lines");
      bool any = false, own = false;
      for (int i = 0; i < m.n; ++i)
        if ((int)r.f2c[i] >= q)
          for (int j = 0; j < m.n; ++j)
            if (m.adj[i][j] && (int)r.f2c[j] < q) { any = true; own |= (int)r.f2c[i] == q; }
      // the first time nothing is left around, all cells of one level are queued again
      if (!any) {
        bool due = false;
        for (int i : g[q]) {
          bool best = true;
          for (int j = 0; j < m.n; ++j) if (j != i && (int)r.f2c[j] >= q) best = best & better(m, i, j);
          due = due | best;
        }
        sym_assert(due, "C09 one point: the best seed of those left where nothing touches the region");
        sym_cover("another component");
        break;
      }
      sym_assert(own, "C09 one point: a cell next to the region already treated");
      sym_cover("later seed, neighbourhood");
    }
  }
  observe(r);
}
static void o3() { Mesh m; topoAll(m, 3); fill(m, {}); Conf c; cards(c, 2, 2, choose("max", 2, 3)); order(m, c, 3); }
static void o4() {
  Mesh m; if (T()) topoAll(m, 4); else topoClass(m, 4, chooseb("connected"));
  if (!T() && chooseb("reversed")) relabelReverse(m);
  Geo g; g.bhi = T() ? 2 : 1; fill(m, g);
  Conf c; cards(c, 2, 2, 2); order(m, c, 3);
}
static void o5() {
  Mesh m; topoClass(m, 5, T() ? chooseb("connected") : true);
  Geo g; g.prio = T() ? 1 : 2; g.bhi = T() ? 2 : 3; m.dim = 3; fill(m, g);
  Conf c; cards(c, 2, 2, T() ? choose("max", 2, 3) : 2); order(m, c, 3);
}
static void o6() {
  Mesh m; topoGrid(m, 3, 2);
  Geo g; g.prio = 1; g.bnd = 0; fill(m, g);
  if (!T()) for (int i = 1; i < 6; ++i) m.prio[i] = i % 2 ? sym_f64("priority", i, -1000, 1000) : 0;
  Conf c; cards(c, 2, 2, 2); order(m, c, 3);
}
static void o8() {
  Mesh m; topoGrid(m, T() ? 5 : 4, 2);
  Geo g; g.prio = 0; g.bhi = 1; fill(m, g);
  Conf c; cards(c, 2, choose("goal", 2, 3), 3); order(m, c, 3);
}
static void large() { Mesh m; largeMesh(m); Conf c; largeCards(c); c.neigh = neighOf(choose("neighbourhood", 0, 1)); c.iter = choose("iter", 1, 2); order(m, c, 3); }
// many pieces: what follows when one is finished
static void pieces() {
  Mesh m; m.dim = choose("dimension", 2, 3); m.n = T() ? 6 : 5;
  edge(m, 0, 3);
  if (T()) edge(m, 1, 4);
  Geo g; g.prio = 2; g.bhi = m.dim; fill(m, g);
  if (T()) m.prio[1] = sym_f64("priority", 1, -1000, 1000);
  Conf c; cards(c, 2, 2, 2); order(m, c, 3);
}
// lines first, then cells around them and apart from them
static void lined() {
  const bool row = chooseb("row");
  Mesh m; topoGrid(m, row ? 5 : 3, row ? 1 : 2); m.dim = choose("dimension", 2, 3);
  const int first = m.n;
  m.n += T() ? 3 : 2;
  for (int i = first; i + 1 < m.n; ++i) edge(m, i, i + 1);
  Geo g; g.prio = 2; g.bnd = 0; fill(m, g);
  for (int i = 2; i < m.n; ++i) m.nbnd[i] = sym_i32("boundary", i, 0, T() || row || i % 3 == 2 ? m.dim : 1);
  for (int i = 2; row && i < m.n; ++i) m.prio[i] = i;
  Conf c; cards(c, 2, 2, 2); c.aniso = true; c.odd = false; c.build = false;
  Res in; in.idx = {0, 2}; in.lines = {0, 1};
  order(m, c, 3, in, 1);
}
CASES({"some dozens of cells", 0, large}, {"after lines", 0, lined}, {"many pieces", 0, pieces}, {"3 cells, every graph", 0, o3}, {"4 cells", 0, o4}, {"5 cells", 0, o5}, {"3x2 grid, priorities", 0, o6}, {"4x2 grid, boundary", 0, o8})
#endif

#if PROP == 10 || PROP == 28
static void judge(const Mesh &m, const Conf &c) {
  Res r;
  agglo(m, c, r);
  int ncc = 0;
  const bool part = isPartition(m, r.f2c, ncc);
  sym_assert(part, "partition");
  if (!part) return;
  bool free_[MAXN];
  for (int i = 0; i < m.n; ++i) free_[i] = true;
  auto g = groups(r.f2c, ncc);
  for (int q = 0; q < ncc; ++q) {
    bool ok = false;
    for (size_t s = 0; s < g[q].size() && !ok; ++s) {
      const int seed = g[q][s];
      // the first seed is known
      if (q == 0) { bool top = true; for (int j = 0; j < m.n; ++j) if (j != seed) top = top & better(m, seed, j); if (!top) continue; }
      bool av[MAXN];
      for (int i = 0; i < m.n; ++i) av[i] = free_[i] && i != seed;
      const Set e = grown(m, c, seed, av);
      if (c.close) { sym_cover("shapes too close to call"); return; }
      ok = e.size == (int)g[q].size();
      for (int i : g[q]) ok = ok && e.in[i];
    }
    sym_assert(ok, PROP == 10 ? "C10 each coarse cell is grown by its best neighbours" : "C28 each coarse cell has the best of the possible sizes");
    if (q) sym_cover("later coarse cell");
    for (int i : g[q]) free_[i] = false;
  }
  observe(r);
}
#endif

#if PROP == 10
static void large() {
  Mesh m; largeMesh(m);
  Conf c; const int k = 2 << choose("size", 0, 3); cards(c, k, k, k); c.pool = poolOf(choose("pool", 0, 3)); c.neigh = neighOf(choose("neighbourhood", 0, 1));
  c.ar = chooseb("inner") ? AR::ONE_OVER_INTERNAL_WEIGHTS : AR::EXTERNAL_WEIGHTS; c.watch = true;
  judge(m, c);
}
static void ties() {  // everything equal: priorities decide
  Mesh m; topoClass(m, T() ? 5 : 4, true);
  if (chooseb("reversed")) relabelReverse(m);
  Geo g; g.bnd = T() ? 0 : 1; g.bhi = 1; fill(m, g);
  for (int i = 0; i < m.n; ++i) m.nbnd[i] = (int)sym_concrete(m.nbnd[i]);
  Conf c; const int k = choose("size", 2, 3); cards(c, k, k, k); c.pool = poolOf(choose("pool", 0, T() ? 3 : 1));
  c.ar = AR::ALGEBRAIC_PERIMETER_OVER_MEASURE;
  judge(m, c);
}
static void weights(Mesh &m, int size) {
  sym_mode(1);
  Geo g; g.w = 1; g.prio = 0; g.bnd = 0; g.hi = 50; fill(m, g);
  Conf c; cards(c, size, size, size); c.pool = poolOf(1);
  static const CoMMAAspectRatioT t[] = {AR::EXTERNAL_WEIGHTS, AR::ONE_OVER_INTERNAL_WEIGHTS};
  c.ar = t[choose("measure", 0, 1)];
  m.prio[choose("first", 0, m.n - 1)] = 100;
  judge(m, c);
}
static void w4() { Mesh m; topoClass(m, 4, true); weights(m, 3); }
static void w5() { Mesh m; topoClass(m, 5, true); weights(m, 3); }
static void w6() { Mesh m; topoGrid(m, 3, 2); weights(m, 3); }
static void volumes() {
  sym_mode(1);
  Mesh m; topoClass(m, choose("cells", 4, 5), true);
  Geo g; g.vol = 1; g.prio = 0; g.bnd = 0; g.ctr = 2; g.w = 2; g.hi = 50; fill(m, g);
  Conf c; cards(c, 3, 3, 3);
  static const CoMMAAspectRatioT t[] = {AR::ONE_OVER_MEASURE, AR::ALGEBRAIC_PERIMETER_OVER_MEASURE, AR::DIAMETER_OVER_RADIUS, AR::PERIMETER_OVER_RADIUS};
  c.ar = t[choose("measure", 0, 3)];
  m.prio[choose("first", 0, m.n - 1)] = 100;
  judge(m, c);
}
static void space() {
  sym_mode(1);
  Mesh m; topoClass(m, 4, true);
  m.dim = 3;
  Geo g; g.vol = 1; g.prio = 0; g.bnd = 0; g.ctr = 2; g.w = 2; g.hi = T() ? 20 : 6; fill(m, g);
  Conf c; cards(c, 3, 3, 3);
  static const CoMMAAspectRatioT t[] = {AR::ONE_OVER_MEASURE, AR::DIAMETER_OVER_RADIUS, AR::PERIMETER_OVER_RADIUS};
  c.ar = t[choose("measure", 0, 2)];
  m.prio[choose("first", 0, m.n - 1)] = 100;
  judge(m, c);
}
static void both() {
  sym_mode(1);
  Mesh m; topoClass(m, 4, true);
  Geo g; g.vol = 1; g.prio = 0; g.bnd = 0; g.w = 1; g.hi = T() ? 50 : 9; fill(m, g);
  Conf c; cards(c, 3, 3, 3);
  c.ar = T() && chooseb("radius") ? AR::PERIMETER_OVER_RADIUS : AR::ALGEBRAIC_PERIMETER_OVER_MEASURE;
  m.prio[choose("first", 0, m.n - 1)] = 100;
  judge(m, c);
}
static void centres() {
  sym_mode(1);
  Mesh m; m.n = 4; edge(m, 0, 1); edge(m, 0, 2); edge(m, 1, 3); edge(m, 2, 3);
  if (chooseb("star")) edge(m, 0, 3);
  Geo g; g.vol = 2; g.prio = 0; g.bnd = 0; g.ctr = 2; fill(m, g);
  const int f = choose("first", 0, 3);
  m.prio[f] = 100;
  for (int i = 0; i < 4; ++i) m.ctr[i][0] = i == f ? 0.0 : sym_f64("centre", i, T() ? -20 : -4, T() ? 20 : 4);
  for (int i = 0; i < 4; ++i) m.ctr[i][1] = i;
  Conf c; cards(c, 3, 3, 3);
  static const CoMMAAspectRatioT t[] = {AR::DIAMETER, AR::DIAMETER_OVER_MIN_EDGE, AR::DIAMETER_OVER_RADIUS};
  c.ar = t[choose("measure", 0, 2)];
  judge(m, c);
}
static void irregular() {
  Mesh m; topoGrid(m, 3, 3);
  m.dim = choose("dimension", 2, 3);
  Geo g; g.vol = 2; g.prio = 2; g.bnd = 0; g.ctr = 2; g.w = 2; fill(m, g);
  for (int i = 0; i < 9; ++i) m.nbnd[i] = (i % 2 == 0) + (i % 4 == 0);
  m.nbnd[choose("first", 0, 8)] = 3;
  Conf c; const int k = choose("size", 2, 5); cards(c, k, k, k); c.pool = poolOf(choose("pool", 0, 3)); c.watch = true;
  static const CoMMAAspectRatioT t[] = {AR::DIAMETER_OVER_RADIUS, AR::DIAMETER_OVER_MIN_EDGE, AR::DIAMETER, AR::ONE_OVER_MEASURE, AR::ONE_OVER_INTERNAL_WEIGHTS,
                                        AR::PERIMETER_OVER_RADIUS, AR::EXTERNAL_WEIGHTS, AR::ALGEBRAIC_PERIMETER_OVER_MEASURE};
  c.ar = t[choose("measure", 0, 7)];
  judge(m, c);
}
CASES({"priorities decide", 0, ties}, {"weights, 4 cells", 0, w4}, {"weights, 5 cells", 0, w5}, {"weights, 3x2 grid", 0, w6}, {"volumes", 0, volumes}, {"volumes in space", 0, space}, {"weights and volumes", 0, both},
      {"centres", 0, centres}, {"irregular 3x3 grid", 0, irregular}, {"some dozens of cells", 0, large})
#endif

#if PROP == 28
static void large() {
  Mesh m; largeMesh(m);
  Conf c; largeCards(c); c.pool = poolOf(choose("pool", 0, 3)); c.neigh = neighOf(choose("neighbourhood", 0, 1)); c.watch = true;
  judge(m, c);
}
static void sizes(Mesh &m, int kinds, bool prio) {
  Geo g; g.prio = prio ? 1 : 0; g.bhi = 2; g.bnd = 1; fill(m, g);
  for (int i = 0; i < m.n; ++i) m.nbnd[i] = (int)sym_concrete(m.nbnd[i]);
  static const int t[][3] = {{2, 2, 3}, {2, 3, 4}, {2, 3, 3}, {3, 3, 4}, {2, 4, 5}, {3, 4, 5}, {2, 2, 5}, {4, 4, 5}};
  const int k = choose("cards", 0, kinds);
  Conf c; cards(c, t[k][0], t[k][1], t[k][2]); c.pool = poolOf(choose("pool", 0, T() ? 3 : 1));
  judge(m, c);
}
static void s4() { Mesh m; topoAll(m, 4); sizes(m, 1, false); }
static void s4p() { Mesh m; topoClass(m, 4, true); sizes(m, 2, true); }
static void s5() { Mesh m; topoClass(m, 5, true); sizes(m, T() ? 7 : 3, false); }
static void s6() { Mesh m; topoClass(m, 6, true); Geo g; g.prio = 2; g.bnd = 0; fill(m, g);
  m.nbnd[choose("first", 0, 5)] = 1; if (chooseb("other")) m.nbnd[3] = 2;
  static const int t[][3] = {{2, 3, 4}, {2, 4, 5}, {3, 4, 5}, {2, 2, 5}, {4, 4, 5}, {2, 3, 6}};
  const int k = choose("cards", 0, 5);
  Conf c; cards(c, t[k][0], t[k][1], t[k][2]); c.pool = poolOf(choose("pool", 0, T() ? 3 : 1)); judge(m, c); }
static void s9() { Mesh m; topoGrid(m, 3, 3); Geo g; g.prio = 2; g.bnd = 0; fill(m, g);
  for (int i = 0; i < 9; ++i) m.nbnd[i] = i == 4 ? 0 : i % 2 ? 1 : 2;
  m.nbnd[choose("first", 0, 8)] = 2;
  static const int t[][3] = {{2, 3, 4}, {2, 4, 6}, {3, 4, 5}, {2, 2, 9}, {4, 4, 6}, {2, 3, 6}};
  const int k = choose("cards", 0, 5);
  Conf c; cards(c, t[k][0], t[k][1], t[k][2]); c.pool = poolOf(choose("pool", 0, 3)); judge(m, c); }
CASES({"4 cells, every graph", 0, s4}, {"4 cells, priorities", 0, s4p}, {"5 cells", 0, s5}, {"6 cells", 0, s6}, {"3x3 grid", 0, s9}, {"some dozens of cells", 0, large})
#endif
