// The whole agglomeration against a reference model: C30 coarse cells and numbering, C31 looking ahead.
#define CELLS 36
#include "box.h"
#include "linesin.h"
#include "wholemodel.h"
#ifndef PROP
#define PROP 30
#endif
static bool T() { return sym_tier() != 0; }
static void cards(Conf &c, int k) {
  static const int t[][3] = {{2, 2, 2}, {2, 2, 3}, {2, 3, 4}, {3, 3, 3}, {3, 4, 5}, {4, 4, 4}, {2, 4, 5}, {2, 2, 5}, {6, 8, 10}, {4, 8, 8}, {8, 8, 12}};
  c.min = t[k][0]; c.goal = t[k][1]; c.max = t[k][2];
}

static void judge(const Mesh &m, Conf &c, int pools, const LinesIn *li = nullptr, const Res &in = Res()) {
  const int k = choose("pool", 0, pools);
  c.pool = poolOf(k);
  c.aniso = li != nullptr;
  Res r = in;
  agglo(m, c, r);
  int ncc = 0;
  const bool part = isPartition(m, r.f2c, ncc);
  sym_assert(part, "partition");
  if (!part) return;
  Model x(m, c, k % 2 == 0, k >= 2);
  if (li) x.lines(li->lines);
  x.start();
  const bool ok = x.run();
  if (c.close) { sym_cover("shapes too close to call"); return; }
  sym_assert(ok, "the model has an answer");
  if (!ok) return;
  sym_assert(ncc == x.ncc, PROP == 30 ? "C30 number of coarse cells" : "C31 number of coarse cells");
  for (int i = 0; i < m.n; ++i)
    sym_assert((int)r.f2c[i] == x.f2c[i], PROP == 30 ? "C30 each cell is in the coarse cell that is due" : "C31 each cell is in the coarse cell that is due");
  if (ncc > 2) sym_cover("three coarse cells");
  observe(r);
}

#if PROP == 30
static void n4() {
  Mesh m; topoClass(m, 4, chooseb("connected"));
  Geo g; g.bhi = 1; if (!T()) g.bnd = 0; fill(m, g);
  if (!T()) m.nbnd[choose("boundary_cell", 0, 3)] = 1;
  Conf c; cards(c, choose("cards", 0, T() ? 3 : 1)); c.neigh = neighOf(choose("neighbourhood", 0, T() ? 1 : 0));
  judge(m, c, 3);
}
static void n5p() {
  Mesh m; topoClass(m, 5, true);
  Geo g; g.bnd = 0; fill(m, g);
  if (!T()) m.prio[4] = 5000;
  Conf c; cards(c, T() ? choose("cards", 0, 2) : 0); c.neigh = neighOf(T() ? choose("neighbourhood", 0, 1) : 0);
  judge(m, c, T() ? 3 : 1);
}
static void n5b() {
  Mesh m; topoClass(m, 5, true);
  if (chooseb("reversed")) relabelReverse(m);
  Geo g; g.prio = 0; g.bhi = T() ? 2 : 1; fill(m, g);
  Conf c; cards(c, choose("cards", 0, T() ? 4 : 1)); c.neigh = neighOf(choose("neighbourhood", 0, T() ? 1 : 0));
  judge(m, c, 3);
}
static void n6() {
  Mesh m; topoClass(m, 6, true);
  Geo g; g.prio = 2; g.bnd = 0; g.w = 2; fill(m, g);
  const int b = choose("boundary_cell", 0, 5);
  m.nbnd[b] = 1; m.nbnd[(b + 2) % 6] = 2;
  Conf c; cards(c, choose("cards", 0, T() ? 7 : 2)); c.neigh = neighOf(choose("neighbourhood", 0, 1));
  judge(m, c, T() ? 3 : 1);
}
static void g9() {
  Mesh m; topoGrid(m, 3, 3);
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  for (int i = 0; i < 9; ++i) m.prio[i] = i % 4 == 0 ? sym_f64("priority", i, 0, 10) : double(i % 3);
  for (int i = 0; i < 9; ++i) m.nbnd[i] = i == 4 ? 0 : i % 2 ? 1 : 2;
  if (chooseb("boundary_free")) for (int &x : m.nbnd) x = 0;
  Conf c; cards(c, choose("cards", 0, T() ? 7 : 2)); c.neigh = neighOf(choose("neighbourhood", 0, 1));
  judge(m, c, 3);
}
// every size of coarse cell in three dimensions, where the least neighbourhood is larger
static void space() {
  Mesh m; m.dim = 3; topoClass(m, T() ? 6 : 5, true);
  if (chooseb("reversed")) relabelReverse(m);
  Geo g; g.prio = 2; g.bnd = 0; g.w = 2; fill(m, g);
  m.prio[choose("first", 0, m.n - 1)] = 100;
  m.nbnd[choose("boundary_cell", 0, m.n - 1)] = 3;
  Conf c; cards(c, choose("cards", 0, 7)); c.neigh = neighOf(choose("neighbourhood", 0, 1));
  judge(m, c, 3);
}
static void large() {
  Mesh m; largeMesh(m);
  Conf c; largeCards(c); c.neigh = neighOf(choose("neighbourhood", 0, 1));
  judge(m, c, 3);
}
// larger meshes with the boundary of a box, one cell anywhere in the order
static void box(int nx, int ny, int nz, int kinds) {
  Mesh m; m.n = nx * ny * nz; m.dim = nz > 1 ? 3 : 2;
  auto id = [&](int i, int j, int k) { return (k * ny + j) * nx + i; };
  for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
    if (i + 1 < nx) edge(m, id(i, j, k), id(i + 1, j, k));
    if (j + 1 < ny) edge(m, id(i, j, k), id(i, j + 1, k));
    if (k + 1 < nz) edge(m, id(i, j, k), id(i, j, k + 1));
  }
  Geo g; g.prio = 2; g.bnd = 0; g.w = choose("weights", 0, 1) * 2; fill(m, g);
  if (chooseb("flat")) for (double &x : m.prio) x = 1;
  const int c0 = choose("cell", 0, T() ? m.n - 1 : 2) * (T() ? 1 : m.n / 2 - 1);
  m.prio[c0] = sym_f64("priority", c0, 0, 30);
  if (chooseb("boundary"))
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i)
      m.nbnd[id(i, j, k)] = (i == 0 || i == nx - 1) + (j == 0 || j == ny - 1) + (nz > 1 && (k == 0 || k == nz - 1));
  Conf c; cards(c, choose("cards", T() ? 0 : 5, kinds)); c.neigh = neighOf(choose("neighbourhood", 0, 1));
  judge(m, c, 3);
}
static void g36() { box(6, 6, 1, 10); }
static void g27() { box(3, 3, 3, 10); }
// what is left after given lines
static void withLines(int nx, int ny, int maxLines, int maxCells, int kinds) {
  Mesh m; topoGrid(m, nx, ny);
  Geo g; g.prio = 2; g.bnd = 0; fill(m, g);
  if (chooseb("flat")) for (double &x : m.prio) x = 1;
  const int b = choose("boundary_cell", 0, m.n);
  if (b < m.n) m.nbnd[b] = 1;
  Res r; LinesIn li; giveLines(m, r, li, maxLines, maxCells, true);
  Conf c; cards(c, choose("cards", 0, kinds)); c.odd = chooseb("odd");
  judge(m, c, 3, &li, r);
}
static void l6() { withLines(3, 2, 2, T() ? 4 : 3, T() ? 2 : 1); }
static void l8() { withLines(4, 2, 1, 3, T() ? 2 : 0); }
static void l5() {
  Mesh m; topoClass(m, 5, true);
  Geo g; g.prio = 2; g.bnd = 0; fill(m, g);
  for (int i = 0; i < 5; ++i) m.nbnd[i] = i < 1 + T() ? (int)sym_concrete(sym_i32("boundary", i, 0, 2)) : i == 3;
  Res r; LinesIn li; giveLines(m, r, li, 1, 2, true);
  Conf c; cards(c, 0);
  judge(m, c, 3, &li, r);
}
CASES({"some dozens of cells", 0, large}, {"three dimensions", 0, space}, {"6x6 grid", 0, g36}, {"3x3x3 grid", 0, g27}, {"4 cells, priorities", 0, n4}, {"5 cells, priorities", 0, n5p}, {"5 cells, boundary", 0, n5b}, {"6 cells", 0, n6}, {"3x3 grid", 0, g9}, {"lines on 3x2 grid", 0, l6}, {"lines on 4x2 grid", 0, l8}, {"lines on 5 cells", 0, l5})
#endif

#if PROP == 31
static void shape(Conf &c) {
  static const AR t[] = {AR::EXTERNAL_WEIGHTS, AR::DIAMETER_OVER_RADIUS, AR::ONE_OVER_INTERNAL_WEIGHTS, AR::ONE_OVER_MEASURE};
  c.ar = t[choose("measure", 0, T() ? 3 : 1)];
  c.watch = true;
}
static void n5() {
  Mesh m; topoClass(m, 5, true);
  if (chooseb("reversed")) relabelReverse(m);
  Geo g; g.prio = 2; g.bnd = 0; g.w = 2; g.vol = 2; fill(m, g);
  m.prio[choose("first", 0, 4)] = 100;
  Conf c; cards(c, choose("cards", 3, 6)); shape(c); c.iter = choose("ahead", 2, 3); c.neigh = neighOf(choose("neighbourhood", 0, 1));
  judge(m, c, 1);
}
static void n6() {
  Mesh m; topoClass(m, 6, true);
  Geo g; g.prio = 2; g.bnd = 0; g.w = 2; g.vol = 2; fill(m, g);
  m.prio[choose("first", 0, 5)] = 100;
  Conf c; cards(c, choose("cards", 3, T() ? 7 : 4)); shape(c); c.iter = choose("ahead", 2, T() ? 4 : 2);
  judge(m, c, T() ? 3 : 0);
}
static void p5() {
  Mesh m; topoClass(m, T() ? 5 : 4, true);
  Geo g; g.bnd = 0; g.w = 2; fill(m, g);
  Conf c; cards(c, choose("cards", 3, 4)); c.iter = 2;
  judge(m, c, 0);
}
static void g9() {
  Mesh m; topoGrid(m, 3, 3);
  Geo g; g.prio = 2; g.bnd = 0; g.w = 2; g.vol = 2; g.ctr = 2; fill(m, g);
  m.prio[choose("first", 0, 8)] = 100;
  Conf c; cards(c, choose("cards", 3, 7)); shape(c); c.iter = choose("ahead", 2, 4); c.neigh = neighOf(choose("neighbourhood", 0, 1));
  judge(m, c, 3);
}
static void w6() {
  sym_mode(1);
  Mesh m; topoGrid(m, 3, 2);
  Geo g; g.w = 1; g.prio = 0; g.bnd = 0; g.hi = 50; fill(m, g);
  m.prio[choose("first", 0, 5)] = 100;
  Conf c; cards(c, choose("cards", 3, 4)); c.iter = 2;
  judge(m, c, 0);
}
static void large() {
  Mesh m; largeMesh(m);
  Conf c; largeCards(c, T() ? 7 : 5); shape(c); c.iter = choose("ahead", 2, T() || c.goal < 5 ? 3 : 2); c.neigh = neighOf(choose("neighbourhood", 0, 1));
  judge(m, c, 3);
}
CASES({"some dozens of cells", 0, large}, {"5 cells", 0, n5}, {"6 cells", 0, n6}, {"priorities", 0, p5}, {"3x3 grid", 0, g9}, {"weights, 3x2 grid", 0, w6})
#endif
