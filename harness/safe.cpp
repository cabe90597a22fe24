// C21: the public functions with checked containers, iterators and algorithms (_GLIBCXX_DEBUG, _GLIBCXX_DEBUG_PEDANTIC).
// Whatever is dereferenced, indexed or advanced wrongly stops the run, which is a violation by itself.
#define CELLS 36
#include "box.h"
#include "linesin.h"
static bool T() { return sym_tier() != 0; }
static void cards(Conf &c, int k) {
  static const int t[][3] = {{2, 2, 2}, {2, 2, 3}, {2, 3, 4}, {3, 3, 4}, {4, 4, 5}};
  c.min = t[k][0]; c.goal = t[k][1]; c.max = t[k][2];
}
static void done(const Mesh &m, const Res &r) {
  sym_assert((int)r.f2c.size() == m.n, "C21 a mapping of the cells comes back");
  for (UL v : r.f2c) if (v >= (UL)m.n) sym_assert(false, "C21 identifiers are in range");
  sym_cover("came back");
  observe(r);
}
// every graph, isolated cells included; every ordering
static void any3() {
  Mesh m; m.n = 3; topoAll(m, 3);
  Geo g; g.bhi = 1; fill(m, g);
  Conf c; cards(c, choose("cards", 0, 1)); c.pool = poolOf(choose("pool", 0, 3)); c.correction = chooseb("correction"); c.iter = T() ? choose("iterations", 1, 2) : 1;
  Res r; agglo(m, c, r); done(m, r);
}
static void any4() {
  Mesh m; topoAll(m, 4);
  Geo g; g.prio = T(); g.bhi = 1; fill(m, g);
  Conf c; cards(c, T() ? choose("cards", 0, 2) : 1); c.pool = poolOf(choose("pool", 0, 3)); c.correction = true;
  Res r; agglo(m, c, r); done(m, r);
}
static void tiny() {
  Mesh m; m.n = choose("cells", 0, 2);
  if (m.n == 2 && chooseb("edge")) edge(m, 0, 1);
  m.dim = T() ? choose("dimension", 2, 3) : 2;
  Geo g; g.bnd = T(); g.bhi = 1; fill(m, g);
  for (int i = 0; i < m.n; ++i) if (sym_concrete(sym_i32("compliant", i, 0, 1))) m.compliant.push_back(i);
  Conf c; cards(c, T() ? choose("cards", 0, 2) : 1); c.pool = poolOf(choose("pool", 0, 3)); c.correction = chooseb("correction");
  c.aniso = c.build = chooseb("anisotropic"); c.thresh = chooseb("all") ? -1 : 2; c.odd = chooseb("odd");
  c.coupling = chooseb("distance") ? CoMMACellCouplingT::MIN_DISTANCE : CoMMACellCouplingT::MAX_WEIGHT;
  Res r; agglo(m, c, r); done(m, r);
}
// aspect ratios, neighbourhoods and look-ahead
static void ratios() {
  Mesh m; m.dim = choose("dimension", 2, 3);
  topoClass(m, 4, T() ? chooseb("connected") : true);
  Geo g; g.prio = 0; g.bnd = 0; g.w = 2; g.vol = 2; g.ctr = 2; fill(m, g);
  Conf c; cards(c, choose("cards", 0, 3)); c.ar = (CoMMAAspectRatioT)choose("aspect_ratio", 0, 9); c.iter = choose("iterations", 1, T() ? 4 : 2);
  c.neigh = chooseb("front") ? CoMMANeighbourhoodT::PURE_FRONT : CoMMANeighbourhoodT::EXTENDED; c.correction = chooseb("correction");
  Res r; agglo(m, c, r); done(m, r);
}
// correction that dissolves several coarse cells, larger thresholds
static void corrected() {
  Mesh m; topoClass(m, T() ? 6 : 5, chooseb("connected"));
  Geo g; g.prio = 0; g.bhi = 1; fill(m, g);
  Conf c; cards(c, choose("cards", T() ? 2 : 3, 4)); c.correction = true; c.sing = choose("singular", 1, T() ? 4 : 2); c.pool = poolOf(T() ? choose("pool", 0, 1) : 1);
  Res r; agglo(m, c, r); done(m, r);
}
// lines: too short, absent, longer than the limit, not of neighbours
static void given() {
  Mesh m; topoClass(m, T() ? 4 : 3, chooseb("connected"));
  Geo g; g.prio = 0; g.bnd = T(); g.bhi = 1; fill(m, g);
  Conf c; cards(c, choose("cards", 0, 1)); c.aniso = true; c.odd = chooseb("odd"); c.correction = chooseb("correction");
  const int k = choose("limit", 0, 3);
  if (k) c.maxline = k;
  Res r; LinesIn li;
  giveLines(m, r, li, T() ? 3 : 2, m.n, false);
  if (chooseb("no_cells")) { r.lines.clear(); r.idx.assign(chooseb("no_index") ? 0 : 1, 0); }
  agglo(m, c, r); done(m, r);
}
// lines given with repeated borders: some are empty
static void empties() {
  Mesh m; topoGrid(m, 4, 1);
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  Conf c; cards(c, 0); c.aniso = true; c.odd = chooseb("odd"); c.correction = chooseb("correction");
  Res r; r.lines = {0, 1, 2, 3}; r.idx = {0};
  int at = 0;
  const int nl = choose("lines", 1, 4);
  for (int l = 0; l < nl; ++l) { at = l + 1 == nl ? 4 : (int)sym_concrete(sym_i32("end", l, at, 4)); r.idx.push_back(at); }
  agglo(m, c, r); done(m, r);
}
static void built() {
  sym_mode(1);
  Mesh m; topoClass(m, 4, chooseb("connected"));
  Geo g; g.prio = 0; g.bnd = 0; g.ctr = 0; g.w = 2; fill(m, g);
  for (int i = 0; i < m.n; ++i) if (sym_concrete(sym_i32("compliant", i, 0, 1))) m.compliant.push_back(i);
  Conf c; cards(c, 1); c.aniso = c.build = true; c.odd = chooseb("odd"); c.force = chooseb("force"); c.correction = T() && chooseb("correction");
  static const double th[] = {-1, 0.25, 1, 3};
  c.thresh = th[choose("threshold", 0, 3)];
  c.coupling = chooseb("distance") ? CoMMACellCouplingT::MIN_DISTANCE : CoMMACellCouplingT::MAX_WEIGHT;
  const int k = choose("limit", 0, T() ? 2 : 1);
  if (k) c.maxline = k + 1;
  Res r; agglo(m, c, r); done(m, r);
}
// the utilities on graphs with isolated cells, empty walls, nothing allowed
static void utilities() {
  Mesh m; m.n = choose("cells", 0, 3);
  topoAll(m, m.n);
  Geo g; g.prio = 2; g.bnd = T(); g.bhi = 1; fill(m, g);
  VI wall;
  for (int i = 0; i < m.n; ++i) if (sym_concrete(sym_i32("wall", i, 0, 1))) wall.push_back(i);
  std::vector<long> d;
  comma::compute_neighbourhood_based_wall_distance<UL, long>(m.row, m.col, wall, d);
  sym_assert((int)d.size() == m.n, "C21 a distance for each cell");
  VI kept;
  std::unordered_set<int> al;
  if (chooseb("allow")) al = {1, 2};
  comma::filter_cells_by_n_edges<UL, int>(m.row, m.nbnd, al, kept);
  sym_assert((int)kept.size() <= m.n, "C21 the filter keeps cells");
  if (m.n == 0) return;
  VI f, cr, cc; VD cw, cv, cp; std::vector<VD> cx; std::vector<int> cb;
  UL mx = 0;
  for (int i = 0; i < m.n; ++i) { f.push_back((UL)sym_concrete(sym_i32("coarse", i, 0, (int)(i ? mx + 1 : 0)))); mx = std::max(mx, f.back()); }
  comma::build_coarse_graph<UL, double, int>(f, m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.nbnd, cr, cc, cw, cv, cx, cp, cb);
  sym_assert(cr.size() == mx + 2 && cc.size() == cr.back(), "C21 a coarse graph comes back");
}
static void large() {
  Mesh m; largeMesh(m);
  Conf c; largeCards(c, T() ? 7 : 3); c.pool = poolOf(choose("pool", 0, 3)); c.correction = true; c.sing = c.goal > 3 ? c.goal / 2 : 2;
  c.neigh = neighOf(c.goal % 2); c.iter = c.goal == 3 ? 3 : 1;
  Res r; agglo(m, c, r); done(m, r);
}
static void layers() {
  const bool flat = chooseb("flat");
  Box b(flat ? 6 : 3, flat ? 6 : 3, flat ? 1 : 3);
  for (int k = 0; k < b.nz; ++k) for (int i = 0; i < b.nx; ++i) b.layer(i, k, choose(k == b.nz / 2 && i == 1 ? "height" : "other_heights", 0, b.ny));
  areas(b.m);
  Conf c; cards(c, choose("cards", 2, 4)); c.aniso = c.build = true; c.odd = chooseb("odd"); c.force = c.odd; c.thresh = 4; c.sing = 2;
  c.pool = poolOf(choose("pool", 0, 3)); c.correction = chooseb("correction");
  const int ml = choose("limit", 0, 3);
  if (ml) c.maxline = ml + 1;
  Res r; agglo(b.m, c, r); done(b.m, r);
}
CASES({"some dozens of cells", 0, large}, {"layers of cells", 0, layers}, {"3 cells, every graph", 0, any3}, {"4 cells, every graph", 0, any4}, {"0 to 2 cells", 0, tiny}, {"aspect ratios", 0, ratios},
      {"correction", 0, corrected}, {"lines given", 0, given}, {"empty lines given", 0, empties}, {"lines built", 0, built}, {"utilities", 0, utilities})
