// Complete calls on larger meshes, every step at once, against the composed reference models: C32.
#define CELLS 36
#include "corrmodel.h"
#include "linesmodel.h"
#include "linesin.h"
#include "wholemodel.h"
#include "box.h"
static bool T() { return sym_tier() != 0; }
static void cards(Conf &c, int k) {
  static const int t[][3] = {{4, 4, 4}, {2, 4, 5}, {8, 8, 8}, {3, 3, 3}, {2, 2, 2}, {6, 8, 10}, {2, 3, 4}};
  c.min = t[k][0]; c.goal = t[k][1]; c.max = t[k][2];
}
static void judge(const Mesh &m, Conf &c, int pool) {
  c.pool = poolOf(pool);
  Res r;
  agglo(m, c, r);
  int ncc = 0;
  const bool part = isPartition(m, r.f2c, ncc);
  sym_assert(part, "partition");
  if (!part) return;
  std::vector<Line> L;
  if (c.aniso) L = expected(m, c);
  Model x(m, c, pool % 2 == 0, pool >= 2);
  if (c.aniso) x.lines(L);
  const int naniso = x.ncc;
  x.start();
  const bool ok = x.run();
  if (c.close) { sym_cover("shapes too close to call"); return; }
  sym_assert(ok, "the model has an answer");
  if (!ok) return;
  if (naniso && x.ncc > naniso + 1) sym_cover("lines and the rest");
  std::vector<std::vector<int>> g(x.ncc);
  for (int i = 0; i < m.n; ++i) g[x.f2c[i]].push_back(i);
  const auto got = groups(r.f2c, ncc);
  bool match = !c.correction && got == g, known = true;
  if (c.correction) {
    int parted = 0;
    for (unsigned f = 0; f < (1u << std::min(parted, 10)) && known && !match; ++f) {
      auto e = g;
      const int p = expectMoves(m, e, naniso, std::min(c.sing, c.min - 1), f);
      known = p >= 0;
      parted = std::max(parted, p);
      match = e == got;
    }
    if (known && g != got) sym_cover("corrected");
  }
  sym_assert(match | !known, "C32 the coarse cells of a complete call");
  // lines handed on: the coarse cells of each line, in a row
  VI idx, lines;
  if (!L.empty()) idx.push_back(0);
  int id = 0;
  for (auto &l : L) {
    int len = (int)l.size();
    if (c.maxline) len = std::min(len, *c.maxline);
    for (int i = 0; i + 1 < len; i += 2) lines.push_back(id++);
    idx.push_back(lines.size());
  }
  sym_assert((r.idx == idx) & (r.lines == lines), "C32 the lines of a complete call");
  observe(r);
}
static void some(Mesh &m, bool three) {
  const int k = choose("order", 0, three ? 3 : 2);
  if (k == 1) for (double &x : m.prio) x = 1;
  if (k == 3) for (int c : {1, m.n / 2, m.n - 2}) m.prio[c] = sym_f64("priority", c, 0, T() ? 30 : 4);
  if (k == 2) { const int c = T() ? choose("cell", 0, m.n - 1) : m.n / 2; m.prio[c] = sym_f64("priority", c, 0, 30); }
}
static void options(Conf &c) {
  static const int lim[] = {0, 3, 2, 5};
  const int k = choose("limit", 0, T() ? 3 : 1);
  if (lim[k]) c.maxline = lim[k];
  c.odd = chooseb("odd"); c.correction = chooseb("correction");
  c.sing = T() ? choose("singular", 1, 2) : 2;
}
static void layers() {
  Box b(5, 5, 1);
  for (int i = 0; i < 5; ++i) b.layer(i, 0, i == 1 || i == 4 ? choose(i == 1 ? "height1" : "height4", 1, 5) : i == 2 ? 3 : 5);
  areas(b.m);
  some(b.m, T());
  Conf c; options(c); cards(c, choose("cards", 0, T() ? 6 : 1));
  c.build = c.aniso = true; c.thresh = 4; c.force = T() ? chooseb("straight") : true;
  judge(b.m, c, choose("pool", 0, T() ? 3 : 1));
}
static void layers3() {
  Box b(3, 3, 3);
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) b.layer(i, k, (i + k) % 3 == 0 ? 3 : i == 1 && k == 1 ? choose("height", 1, 3) : 2 * (i != k));
  areas(b.m);
  some(b.m, T());
  Conf c; options(c); cards(c, choose("cards", 0, T() ? 6 : 2));
  c.build = c.aniso = true; c.thresh = chooseb("all") ? -1 : 2; c.neigh = neighOf(choose("neighbourhood", 0, T()));
  judge(b.m, c, choose("pool", 0, 3));
}
static void triangles() {
  Mesh m; triangulate(m);
  some(m, true);
  Conf c; cards(c, choose("cards", 0, 6)); c.correction = chooseb("correction"); c.sing = choose("singular", 1, 3);
  c.neigh = neighOf(choose("neighbourhood", 0, 1)); c.iter = choose("ahead", 1, T() ? 3 : 1);
  judge(m, c, choose("pool", 0, 3));
}
// every measure of the shape
static void shapes() {
  Mesh m;
  if (chooseb("squares")) {
    Box b(5, 5, 1); m = b.m;
    Geo g; g.prio = 2; g.vol = 2; g.w = 2; g.bnd = 0; fill(m, g);
    for (int i = 0; i < m.n; ++i) { m.nbnd[i] = b.m.nbnd[i]; m.ctr[i][0] = i % 5 * (3 + i % 5); m.ctr[i][1] = i / 5 * (4 + i / 5); }
  } else triangulate(m);
  const int k = choose("order", 0, 2);
  if (k == 1) for (double &x : m.prio) x = 1;
  if (k == 2) m.prio[7] = sym_f64("priority", 7, 0, 30);
  static const AR t[] = {AR::DIAMETER_OVER_RADIUS, AR::DIAMETER_OVER_MIN_EDGE, AR::DIAMETER, AR::ONE_OVER_MEASURE, AR::ONE_OVER_INTERNAL_WEIGHTS,
                         AR::PERIMETER_OVER_RADIUS, AR::EXTERNAL_WEIGHTS, AR::ALGEBRAIC_PERIMETER_OVER_MEASURE};
  Conf c; cards(c, choose("cards", 0, T() ? 6 : 2)); c.ar = t[choose("measure", 0, 7)]; c.watch = true;
  c.iter = choose("ahead", 1, T() ? 3 : 2); c.neigh = neighOf(choose("neighbourhood", 0, 1));
  judge(m, c, choose("pool", 0, T() ? 3 : 1));
}
// some faces of any size
static void faces() {
  sym_mode(1);
  Box b(4, 4, 1);
  Mesh &m = b.m;
  for (int i = 0; i < m.n; ++i) for (int j = 0; j < i; ++j) if (m.adj[i][j]) m.w[i][j] = m.w[j][i] = 12 * (3 + (i + 2 * j) % 5);
  static const int f[][2] = {{5, 6}, {5, 9}, {9, 10}, {6, 10}};
  for (int k = 0; k < (T() ? 4 : 3); ++k) m.w[f[k][0]][f[k][1]] = m.w[f[k][1]][f[k][0]] = sym_f64("weight", k, 1, 100);
  areas(m);
  if (chooseb("flat")) for (double &x : m.prio) x = 1;
  if (chooseb("closed")) for (int &x : m.nbnd) x = 0;
  Conf c; cards(c, choose("cards", 0, T() ? 6 : 3)); c.iter = choose("ahead", 1, 2);
  judge(m, c, choose("pool", 0, T() ? 3 : 1));
}
static void edges() {
  Box b(5, 5, 1);
  for (int c : {2, 7, 12, 20}) b.m.nbnd[c] = sym_i32("boundary", c, 0, 2);
  Conf c; cards(c, choose("cards", 0, 3)); c.correction = chooseb("correction"); c.sing = 2;
  judge(b.m, c, choose("pool", 0, 3));
}
CASES({"shapes", 0, shapes}, {"some faces", 0, faces}, {"some boundary counts", 0, edges}, {"layers on a 5x5 grid", 0, layers}, {"layers on a 3x3x3 grid", 0, layers3}, {"triangles", 0, triangles})
