// Agglomeration along given lines (C05 pairing, C07 returned lines).
#define CELLS 36
#include "box.h"
#include "linesin.h"
#ifndef PROP
#define PROP 5
#endif

struct Expected { std::vector<std::vector<int>> groups; std::vector<std::vector<int>> byLine; };

// Where the cutting starts
static bool forward(const Mesh &m, const std::vector<int> &l) {
  const int a = l.front(), b = l.back();
  if (m.nbnd[a] != m.nbnd[b]) return m.nbnd[a] > m.nbnd[b];
  if (m.prio[a] != m.prio[b]) return m.prio[a] > m.prio[b];
  return a < b;
}
static Expected expect(const Mesh &m, const Conf &c, const LinesIn &li) {
  Expected e;
  for (auto l : li.lines) {
    if (l.size() < 2) continue;
    if (!forward(m, l)) std::reverse(l.begin(), l.end());
    int len = (int)l.size();
    if (c.maxline && *c.maxline < len) len = *c.maxline;
    std::vector<int> ids;
    for (int i = 0; i + 1 < len; i += 2) {
      std::vector<int> g = {l[i], l[i + 1]};
      if (i + 3 == len && c.odd) g.push_back(l[i + 2]);
      std::sort(g.begin(), g.end());
      ids.push_back((int)e.groups.size());
      e.groups.push_back(g);
    }
    e.byLine.push_back(ids);
  }
  return e;
}
static bool touch(const Mesh &m, const std::vector<int> &a, const std::vector<int> &b) {
  for (int i : a) for (int j : b) if (m.adj[i][j]) return true;
  return false;
}

static void judge(const Mesh &m, const Conf &c, const Res &r, const LinesIn &li, bool adjacent) {
  int ncc = 0;
  const bool part = isPartition(m, r.f2c, ncc);
  sym_assert(part, "partition");
  if (!part) return;
  auto g = groups(r.f2c, ncc);
  Expected e = expect(m, c, li);
  if (!e.groups.empty()) sym_cover("anisotropic cells");
#if PROP == 5
  sym_assert(ncc >= (int)e.groups.size(), "C05 every pair of a line is a coarse cell");
  for (size_t k = 0; k < e.groups.size(); ++k) {
    if (e.groups[k].size() == 3) sym_cover("group of three");
    sym_assert(g[k] == e.groups[k], "C05 coarse cells of the lines, in line order");
  }
#endif
#if PROP == 7
  size_t used = 0;
  for (auto &l : li.lines) used += l.size() > 1;
  if (!used) {
    sym_assert(r.idx.empty() && r.lines.empty(), "C07 no line returned when none could be used");
  } else {
    sym_assert(r.idx.size() == used + 1 && r.idx[0] == 0, "C07 one line out per line in, indices start at zero");
    for (size_t k = 0; k + 1 < r.idx.size(); ++k) sym_assert(r.idx[k] <= r.idx[k + 1], "C07 indices never decrease");
    sym_assert(r.idx.back() == r.lines.size(), "C07 indices end at the number of values");
    const int nan = (int)e.groups.size();
    std::vector<int> seen(nan, 0);
    for (UL v : r.lines) {
      sym_assert(v < (UL)nan, "C07 values are anisotropic coarse cells");
      seen[v]++;
    }
    for (int s : seen) sym_assert(s == 1, "C07 each anisotropic coarse cell appears once");
    for (size_t k = 0; k + 1 < r.idx.size(); ++k) {
      std::vector<int> got;
      for (UL p = r.idx[k]; p < r.idx[k + 1]; ++p) got.push_back((int)r.lines[p]);
      sym_assert(got == e.byLine[k], "C07 a line holds the coarse cells made from it");
    }
    for (size_t k = 0; k + 1 < r.idx.size(); ++k)
      for (UL p = r.idx[k]; p + 1 < r.idx[k + 1]; ++p) {
        sym_cover("line of several coarse cells");
        if (adjacent) sym_assert(touch(m, g[r.lines[p]], g[r.lines[p + 1]]), "C07 successive values are neighbours");
        sym_assert(r.lines[p] < r.lines[p + 1], "C07 a line follows the order of its cells");
      }
    // one more level
    Mesh q; q.dim = m.dim; q.n = ncc;
    for (int i = 0; i < m.n; ++i)
      for (int j = 0; j < m.n; ++j)
        if (m.adj[i][j] && r.f2c[i] != r.f2c[j]) q.adj[r.f2c[i]][r.f2c[j]] = true;
    Geo g0; g0.prio = g0.bnd = 0; fill(q, g0);
    Res r2; r2.idx = r.idx; r2.lines = r.lines;
    Conf c2 = c;
    agglo(q, c2, r2);
    int n2 = 0;
    sym_assert(isPartition(q, r2.f2c, n2), "C07 returned lines are accepted at the next level");
    observe(r2);
  }
#endif
  observe(r);
}
static bool T() { return sym_tier() != 0; }
static void go(Mesh &m, Conf &c, int nl, int ncells, bool adjacent) {
  Res r; LinesIn li;
  giveLines(m, r, li, nl, ncells, adjacent);
  agglo(m, c, r);
  judge(m, c, r, li, adjacent);
}
static void limit(Conf &c, int hi) {
  const int k = choose("limit", 0, hi);
  if (k) c.maxline = k;
}
// any lines over 3-4 cells, neighbours or not, any priorities and boundary counts
static void n3() {
  Mesh m; topoClass(m, 3, T() ? chooseb("connected") : true);
  Geo g; if (!T()) g.bhi = 1;
  fill(m, g);
  Conf c; c.min = c.goal = 2; c.max = 2; c.aniso = true; c.odd = chooseb("odd"); c.correction = T() ? chooseb("correction") : true; limit(c, 3);
  go(m, c, 2, 3, false);
}
static void n4() {
  Mesh m; topoGrid(m, 2, 2);
  Geo g; g.bhi = 1; g.bnd = T(); fill(m, g);
  Conf c; c.min = c.goal = 2; c.max = 3; c.aniso = true; c.odd = chooseb("odd"); limit(c, T() ? 4 : 3);
  go(m, c, T() ? 3 : 2, 4, false);
}
static void n5() {
  Mesh m; m.n = 5; for (int i = 0; i < 4; ++i) edge(m, i, i + 1);
  edge(m, 0, 3);
  Geo g; g.prio = T(); if (!T()) g.bhi = 1; fill(m, g);
  Conf c; c.min = c.goal = 2; c.max = 3; c.aniso = true; c.odd = chooseb("odd"); c.correction = true; limit(c, 5);
  c.pool = poolOf(T() ? choose("pool", 0, 3) : 1);
  go(m, c, 2, 5, true);
}
// long lines: 4x2 and 7x1 grids, lines along x
static void strip() {
  const int nx = choose("length", 5, 7);
  Mesh m; topoGrid(m, nx, 1);
  Geo g; g.prio = T(); g.bnd = 0; fill(m, g);
  if (!T()) { m.prio[0] = sym_f64("priority", 0, -10, 10); m.prio[nx - 1] = sym_f64("priority", 1, -10, 10); }
  m.nbnd[0] = sym_i32("boundary", 0, 0, 2); m.nbnd[nx - 1] = sym_i32("boundary", 1, 0, 2);
  Conf c; c.min = c.goal = c.max = 2; c.aniso = true; c.odd = chooseb("odd"); limit(c, nx + 1);
  Res r; LinesIn li;
  std::vector<int> l;
  for (int i = 0; i < nx; ++i) { l.push_back(i); li.in[i] = true; }
  if (chooseb("backwards")) std::reverse(l.begin(), l.end());
  li.lines.push_back(l);
  r.idx = {0, (UL)nx};
  for (int v : l) r.lines.push_back(v);
  agglo(m, c, r);
  judge(m, c, r, li, true);
}
static void two() {
  Mesh m; topoGrid(m, 4, 2);
  Geo g; g.prio = 0; g.bnd = 1; if (!T()) g.bhi = 1; fill(m, g);
  Conf c; c.min = c.goal = c.max = 2; c.aniso = true; c.odd = chooseb("odd"); limit(c, T() ? 4 : 3);
  Res r; LinesIn li;
  const int la = choose("first", 1, 4), lb = choose("second", 1, 4);
  std::vector<int> a, b;
  for (int i = 0; i < la; ++i) a.push_back(i);
  for (int i = 0; i < lb; ++i) b.push_back(7 - i);
  li.lines = {a, b};
  r.idx = {0};
  for (auto &l : li.lines) { for (int v : l) r.lines.push_back(v); r.idx.push_back(r.lines.size()); }
  agglo(m, c, r);
  judge(m, c, r, li, true);
}
// many short lines side by side
static void many() {
  Mesh m; topoGrid(m, 2, 5);
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  m.nbnd[1] = sym_i32("boundary", 1, 0, 1); m.nbnd[4] = sym_i32("boundary", 4, 0, 1);
  Conf c; c.min = c.goal = c.max = 2; c.aniso = true; c.odd = chooseb("odd"); limit(c, T() ? 4 : 2);
  const int nl = choose("lines", 3, 5);
  Res r; LinesIn li;
  for (int k = 0; k < nl; ++k) {
    std::vector<int> l = {2 * k};
    if (sym_concrete(sym_i32("pair", k, 0, 1))) l.push_back(2 * k + 1);
    li.lines.push_back(l);
  }
  // the last line takes what is left of the last rows
  for (int k = nl; k < 5; ++k) for (int i = 0; i < 2; ++i) li.lines.back().push_back(k % 2 == nl % 2 ? 2 * k + 1 - i : 2 * k + i);
  if (li.lines.back().size() % 2) li.lines.back().erase(li.lines.back().begin());
  r.idx = {0};
  for (auto &l : li.lines) { for (int v : l) r.lines.push_back(v); r.idx.push_back(r.lines.size()); }
  agglo(m, c, r);
  sym_cover("three lines or more");
  judge(m, c, r, li, true);
}
// long lines on a 6x6 grid: rows in turns, some of them joined
static void longer() {
  Box b(6, 6, 1);
  Mesh &m = b.m;
  const int flat = choose("order", 0, 2);
  if (flat == 1) for (double &x : m.prio) x = 1;
  if (flat == 2) for (int c : {5, 35}) m.prio[c] = sym_f64("priority", c, 0, 30);
  m.nbnd[0] = sym_i32("boundary", 0, 0, 2); if (T()) m.nbnd[35] = sym_i32("boundary", 1, 0, 2);
  Conf c; c.min = c.goal = 2; c.max = 4; c.aniso = true; c.odd = chooseb("odd");
  static const int lim[] = {0, 3, 4, 11, 35, 7, 2, 5, 12, 13, 36, 37};
  const int k = choose("limit", 0, T() ? 11 : 5);
  if (lim[k]) c.maxline = lim[k];
  Res r; LinesIn li;
  const int joined = T() ? choose("joined", 1, 6) : 1 << choose("joined", 0, 3), cut = choose("cut", 0, T() ? 2 : 1), rev = choose("backwards", 0, 1);
  // a snake through the grid, in pieces of some rows, shortened
  for (int j = 0; j < 6; j += joined) {
    std::vector<int> l;
    for (int q = j; q < std::min(6, j + joined); ++q) for (int i = 0; i < 6; ++i) l.push_back(b.id((q - j) % 2 ? 5 - i : i, q, 0));
    for (int x = 0; x < cut; ++x) l.pop_back();
    if (rev) std::reverse(l.begin(), l.end());
    li.lines.push_back(l);
  }
  r.idx = {0};
  for (auto &l : li.lines) { for (int v : l) r.lines.push_back(v); r.idx.push_back(r.lines.size()); }
  agglo(m, c, r);
  judge(m, c, r, li, true);
}
CASES({"long lines on a 6x6 grid", 0, longer}, {"3 cells, any lines", 0, n3}, {"2x2 grid, any lines", 0, n4}, {"5 cells, lines of neighbours", 0, n5},
      {"one line of 5-7 cells", 0, strip}, {"two lines on a 4x2 grid", 0, two},
      {"3 to 5 lines", 0, many})
