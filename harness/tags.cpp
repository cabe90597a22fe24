// C39: which cells are eligible for lines, in which order, and how strongly they are coupled.
#define CELLS 27
#include "common.h"
static bool T() { return sym_tier() != 0; }
using D = comma::Dual_Graph<UL, double, int>;

static void judge(Mesh &m, double th, CoMMACellCouplingT coupling, int only) {
  D d(m.n, m.row, m.col, m.area, m.vol, m.ctr, m.nbnd, m.dim, m.compliant);
  VD alt, top(m.n, 0.0);
  std::vector<bool> is(m.n, false);
  std::deque<UL> pool;
  d.tag_anisotropic_cells(alt, top, is, pool, th, m.prio, coupling, only);
  const bool dist = coupling == CoMMACellCouplingT::MIN_DISTANCE;
  std::vector<bool> in(m.n, false);
  for (UL c : m.compliant) in[c] = true;
  std::vector<bool> seen(m.n, false);
  bool once = true;
  for (UL c : pool) { once = once && c < (UL)m.n && !seen[c]; if (c < (UL)m.n) seen[c] = true; }
  sym_assert(once, "C39 eligible cells are listed once");
  for (int i = 0; i < m.n; ++i) {
    double mx = 0, mn = 0, near = 0;
    int k = 0;
    bool far = true;
    for (UL e = m.row[i]; e < m.row[i + 1]; ++e, ++k) {
      const double w = m.area[e];
      if (k == 0 || w > mx) mx = w;
      if (k == 0 || w < mn) mn = w;
      double s = 0;
      for (int x = 0; x < m.dim; ++x) { const double y = m.ctr[i][x] - m.ctr[m.col[e]][x]; s += y * y; }
      const double inv = 1. / s;
      if (k == 0 || inv > near) near = inv;
      if (dist) far = far & (alt.size() == m.col.size() && alt[e] == (in[i] ? inv : 0.));
    }
    // an aspect ratio is the ratio of areas, or its root in space
    bool tag = in[i];
    if (th >= 0) {
      tag = tag && k > 0;
      if (tag && mx < (m.dim == 2 ? th : th * th) * mn) tag = false;
      if (only == 2 || only == 3) tag = tag && (k == 2 * only || (k == 2 * only - 1 && m.nbnd[i] > 0));
    }
    sym_assert(seen[i] == tag, "C39 exactly the eligible cells are listed");
    sym_assert(is[i] == seen[i], "C39 the cells listed are those marked");
    if (dist) sym_assert(far, "C39 couplings are inverse squared distances");
    sym_assert(top[i] == (in[i] && k ? (dist ? near : mx) : 0.), "C39 the strongest coupling of each cell is noted");
    if (tag) sym_cover(only == 3 ? "boundary layer in space" : only == 2 ? "boundary layer" : dist ? "by distance" : "by area");
  }
  bool sorted = true;
  for (size_t k = 1; k < pool.size(); ++k) {
    const UL a = pool[k - 1], b = pool[k];
    sorted = sorted & ((m.prio[a] > m.prio[b]) | ((m.prio[a] == m.prio[b]) & (a < b)));
  }
  sym_assert(sorted, "C39 eligible cells come by decreasing priority, then increasing index");
  for (UL c : pool) sym_observe((long)c);
}
static void some(Mesh &m) {
  // in decreasing order
  for (int i = m.n; i-- > 0;) if (sym_concrete(sym_i32("compliant", i, 0, 1))) m.compliant.push_back(i);
}
static void all(Mesh &m) { for (int i = 0; i < m.n; ++i) m.compliant.push_back(i); }
static double limit() {
  static const double t[] = {-1, 2, 1.5, 1, 4, 1.25};
  return t[choose("threshold", 0, T() ? 5 : 3)];
}
static CoMMACellCouplingT coupling() { return chooseb("distance") ? CoMMACellCouplingT::MIN_DISTANCE : CoMMACellCouplingT::MAX_WEIGHT; }
static void ratio() {
  sym_mode(1);
  Mesh m; m.dim = choose("dimension", 2, 3);
  topoClass(m, 3, chooseb("connected"));
  Geo g; g.w = 1; g.hi = 64; g.prio = 0; g.bnd = 0; fill(m, g);
  some(m);
  judge(m, limit(), coupling(), 0);
}
static void star() {
  sym_mode(1);
  Mesh m; m.dim = choose("dimension", 2, 3); m.n = T() ? 6 : 5;
  for (int i = 1; i < m.n; ++i) edge(m, 0, i);
  Geo g; g.w = 1; g.hi = 64; g.prio = 0; g.bnd = 0; fill(m, g);
  m.compliant = {0, 2};
  judge(m, limit(), CoMMACellCouplingT::MAX_WEIGHT, 0);
}
static void order() {
  Mesh m; topoClass(m, T() ? 5 : 4, true);
  Geo g; g.w = 2; g.bnd = 0; fill(m, g);
  if (chooseb("all")) all(m); else some(m);
  if (chooseb("small")) for (auto &w : m.area) w /= 1 << 20;
  judge(m, chooseb("negative") ? -1. : 1., coupling(), 0);
}
// the places of cells decide how strongly they are coupled
static void places() {
  Mesh m; m.dim = choose("dimension", 2, 3); topoClass(m, T() ? 5 : 4, true);
  Geo g; g.w = 2; g.prio = 2; g.bnd = 0; g.ctr = 2; fill(m, g);
  const int a = choose("moved", 0, m.n - 1);
  for (int x = 0; x < m.dim; ++x) m.ctr[a][x] = x < 2 || T() ? 32 + 8 * sym_concrete(sym_i32("place", x, 0, 2 + T())) : 3;
  some(m);
  judge(m, chooseb("negative") ? -1. : 1.5, CoMMACellCouplingT::MIN_DISTANCE, 0);
}
// layers of flat cells, asked for those of a boundary layer only
static void flat(int nx, int ny, int nz, int kind) {
  Mesh m; m.dim = nz > 1 ? 3 : 2; m.n = nx * ny * nz;
  for (int c = 0; c < m.n; ++c) {
    if (c % nx + 1 < nx) edge(m, c, c + 1);
    if (c / nx % ny + 1 < ny) edge(m, c, c + nx);
    if (c + nx * ny < m.n) edge(m, c, c + nx * ny);
  }
  Geo g; g.prio = 2; g.bnd = 0; fill(m, g);
  const int dir = choose("across", 0, m.dim - 1);
  for (int i = 0; i < m.n; ++i)
    for (int j = 0; j < i; ++j)
      if (m.adj[i][j]) m.w[i][j] = m.w[j][i] = (i - j == 1 ? 0 : i - j == nx ? 1 : 2) == dir ? 90 : 10;
  // some of the cells are less flat, on the boundary or lack a face
  const int c = choose("cell", 0, m.n - 1);
  for (int j = 0; j < m.n; ++j)
    if (m.adj[c][j]) m.w[c][j] = m.w[j][c] = sym_concrete(sym_i32("area", 0, 0, 1)) ? m.w[c][j] : 20;
  if (chooseb("cut")) m.adj[c][(c + 1) % m.n] = m.adj[(c + 1) % m.n][c] = false;
  rows(m);
  if (kind) for (int i = 0; i < m.n; ++i) m.nbnd[i] = i % 3 != 1;
  else for (int i = 0; i < m.n; ++i) { if (i == c || i == (c + 1) % m.n || i == m.n / 2) m.nbnd[i] = (int)sym_concrete(sym_i32("boundary", i, 0, 2)); }
  all(m);
  static const double t[] = {-1, 3, 9, 2};
  static const int only[] = {0, 2, 3};
  judge(m, t[choose("threshold", 0, 3)], coupling(), only[choose("only", 0, 2)]);
}
static void flat33() { flat(3, 3, 1, choose("boundaries", 0, 1)); }
static void flat44() { if (T()) flat(5, 4, 1, choose("boundaries", 0, 1)); else flat(4, 3, 1, 1); }
static void flat333() { flat(3, 3, 3, T() ? choose("boundaries", 0, 1) : 1); }
CASES({"ratio of areas", 0, ratio}, {"star", 0, star}, {"order", 0, order}, {"places", 0, places}, {"flat cells, 3x3", 0, flat33}, {"flat cells, 4x3", 0, flat44}, {"flat cells, 3x3x3", 0, flat333})
