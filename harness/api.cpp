// The public entry points: C08 validation, C11 equivalent calls, C12 boundary counts, C24 order of priorities.
#ifndef PROP
#define PROP 8
#endif
#if PROP != 8
#define CELLS 36
#include "box.h"
#else
#include "common.h"
#endif
#include "linesin.h"
static bool T() { return sym_tier() != 0; }
static bool sameRes(const Res &a, const Res &b) { return a.f2c == b.f2c && a.idx == b.idx && a.lines == b.lines; }
static void cards(Conf &c, int k) {
  static const int t[][3] = {{2, 2, 2}, {2, 2, 3}, {2, 3, 4}, {3, 3, 3}, {3, 3, 4}};
  c.min = t[k][0]; c.goal = t[k][1]; c.max = t[k][2];
}

#if PROP == 8
// 1: refused, 0: accepted, 2: another error
static int refused(const Mesh &m, const Conf &c, Res &r) {
  try { agglo(m, c, r); } catch (const std::invalid_argument &) { return 1; } catch (...) { return 2; }
  return 0;
}
static void path(Mesh &m, int n) { m.n = n; for (int i = 0; i + 1 < n; ++i) edge(m, i, i + 1); Geo g; g.prio = 0; g.bnd = 0; fill(m, g); }
static void expect(const Mesh &m, const Conf &c, Res &r, bool bad) {
  Res r0 = r;
  const int got = refused(m, c, r);
  sym_assert(got != 2, "C08 no other kind of error");
  sym_assert(got == (bad ? 1 : 0), bad ? "C08 an invalid call is refused" : "C08 a valid call is accepted");
  if (got == 1) { sym_cover("refused"); sym_assert(r.f2c == r0.f2c, "C08 a refused call leaves the mapping alone"); }
  if (got == 0) { sym_cover("accepted"); sym_assert((int)r.f2c.size() == (int)m.row.size() - 1, "C08 an accepted call gives a mapping"); }
}
// numbers: dimension, cardinalities, iterations and threshold, all at once
static void numbers() {
  Mesh m; path(m, 3);
  Conf c;
  m.dim = 2;
  for (auto &p : m.ctr) p.resize(3, 0.0);  // enough for any dimension
  const int dim = sym_i32("dimension", 0, -1000, 1000);
  c.goal = sym_i32("goal", 0, -1000, 1000); c.min = sym_i32("min", 0, -1000, 1000); c.max = sym_i32("max", 0, -1000, 1000);
  c.iter = sym_i32("iterations", 0, -1000, 1000);
  c.sing = sym_i32("singular", 0, -1000, 1000);
  c.correction = chooseb("correction");
  bool bad = dim != 2 && dim != 3;
  bad |= c.min < 2 || c.goal < 2 || c.max < 2;
  bad |= c.min > c.goal || c.goal > c.max;
  bad |= c.iter < 1 || c.iter > 4;
  bad |= c.sing < 1;
  m.dim = dim;
  Res r; r.f2c = {9, 9};
  expect(m, c, r, bad);
}
// kinds given as raw numbers
static void kinds() {
  Mesh m; path(m, 3);
  Conf c; cards(c, 0);
  const int p = (int)sym_concrete(sym_i32("ordering", 0, -2, 13)), a = (int)sym_concrete(sym_i32("aspect_ratio", 0, -2, 11));
  c.pool = static_cast<CoMMASeedsPoolT>(p); c.ar = static_cast<CoMMAAspectRatioT>(a);
  c.iter = choose("iterations", 1, 2);
  c.aniso = chooseb("anisotropic");
  Res r; r.f2c = {9, 9, 9, 9};
  if (c.aniso) { r.idx = {0, 2}; r.lines = {0, 1}; }
  expect(m, c, r, !(p == 0 || p == 1 || p == 10 || p == 11) || a < 0 || a > 9);
}
static void coupling() {
  // kinds that are only hints fall back to a default
  Mesh m; path(m, 3);
  m.compliant = {0, 1, 2};
  Conf c; cards(c, 0); c.aniso = c.build = true; c.thresh = -1;
  c.coupling = static_cast<CoMMACellCouplingT>((int)sym_concrete(sym_i32("coupling", 0, -1, 3)));
  c.maxline = choose("limit", 0, 3);
  Res r;
  expect(m, c, r, false);
}
// sizes of the compressed graph
static void sizes() {
  Mesh m; path(m, 3);
  Conf c; cards(c, 0);
  const int dr = (int)sym_concrete(sym_i32("last_row", 0, -1, 1)), dc = (int)sym_concrete(sym_i32("columns", 0, -1, 1)), da = (int)sym_concrete(sym_i32("areas", 0, -1, 1));
  const bool norow = chooseb("no_rows");
  const long want = (long)m.row.back();
  Mesh q = m;
  if (norow) q.row.clear(); else q.row.back() = want + dr;
  q.col.resize(want + dc, 0); q.area.resize(want + da, 1.0);
  const bool bad = norow || dr != dc || dr != da;
  sym_assume(bad || (dr == 0 && dc == 0));  // keep accepted graphs well formed
  Res r; r.f2c = {5};
  expect(q, c, r, bad);
}
static void lines() {
  Mesh m; path(m, 4);
  Conf c; cards(c, 0); c.aniso = chooseb("anisotropic"); c.build = chooseb("build"); c.odd = chooseb("odd");
  Res r; r.f2c = {7};
  const int nidx = (int)sym_concrete(sym_i32("indices", 0, 0, 2)), nl = (int)sym_concrete(sym_i32("cells", 0, 0, 3));
  const UL last = (UL)sym_i64("last", 0, 0, 4);
  if (nidx > 0) r.idx.push_back(0);
  if (nidx > 1) r.idx.push_back(last);
  for (int i = 0; i < nl; ++i) r.lines.push_back(i);
  if (c.build) m.compliant = {0, 1, 2, 3};
  const bool bad = c.aniso && !c.build && nidx > 1 && nl > 0 && last != (UL)nl;
  expect(m, c, r, bad);
}
CASES({"numbers", 0, numbers}, {"kinds", 0, kinds}, {"couplings", 0, coupling}, {"sizes of the graph", 0, sizes}, {"sizes of the lines", 0, lines})
#endif

#if PROP == 11
using G = comma::GraphArgs<UL, double, int>;
using A = comma::AgglomerationArgs<UL, double, int>;
using N = comma::AnisotropicArgs<UL, double, int>;
static bool sameMesh(const Mesh &a, const Mesh &b) {
  return a.row == b.row && a.col == b.col && a.area == b.area && a.vol == b.vol && a.ctr == b.ctr && a.prio == b.prio && a.nbnd == b.nbnd
         && a.compliant == b.compliant;
}
static void structured(const Mesh &m, const Conf &c, Res &r) {
  G g(m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.nbnd, m.dim);
  A a(c.goal, c.min, c.max, c.correction, c.pool, c.ar, c.sing, c.iter, c.neigh);
  std::optional<UL> ml;
  if (c.maxline) ml = *c.maxline;
  N n(c.aniso, m.compliant, c.build, c.odd, c.thresh, ml, c.coupling, c.force);
  comma::agglomerate_one_level<UL, double, int>(g, a, n, r.f2c, r.idx, r.lines);
}
static void twoWays(const Mesh &m0, const Conf &c, const Res &in) {
  Mesh m = m0;
  Res a = in, b = in, d = in;
  d.f2c = {4, 4, 4, 4, 4, 4, 4, 4, 4};
  agglo(m, c, a);
  sym_assert(sameMesh(m, m0), "C11 inputs are left alone");
  structured(m, c, b);
  sym_assert(sameMesh(m, m0), "C11 inputs are left alone");
  sym_assert(sameRes(a, b), "C11 both interfaces agree");
  agglo(m, c, d);
  sym_assert(sameRes(a, d), "C11 a repeated call gives the same result");
  observe(a);
}
static void options() {
  // isotropic options, one mesh where they matter
  Mesh m; topoGrid(m, 3, 2); m.dim = choose("dimension", 2, 3);
  Geo g; g.prio = 2; g.bnd = 2; g.w = 2; g.vol = 2; g.ctr = 2; fill(m, g);
  Conf c; cards(c, choose("cards", 0, 4));
  c.correction = chooseb("correction"); c.pool = poolOf(choose("pool", 0, 3));
  c.ar = static_cast<CoMMAAspectRatioT>(choose("aspect_ratio", 0, 9)); c.sing = choose("singular", 1, T() ? 3 : 2);
  c.iter = choose("iterations", 1, T() ? 3 : 2); c.neigh = static_cast<CoMMANeighbourhoodT>(choose("neighbourhood", 0, 1));
  twoWays(m, c, Res());
}
static void anisoOptions() {
  Mesh m; topoGrid(m, 4, 2);
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  for (int i = 0; i < m.n; ++i) for (int j = 0; j < m.n; ++j) if (m.adj[i][j]) m.w[i][j] = (i / 4 == j / 4) ? (i / 4 ? 6 : 3) : 1;
  areas(m);
  for (int i = 0; i < m.n; ++i) m.ctr[i] = {double(i % 4), 4.0 * (i / 4)};
  m.compliant = chooseb("all") ? VI{0, 1, 2, 3, 4, 5, 6, 7} : VI{0, 1, 2, 4, 5};
  Conf c; cards(c, 2); c.aniso = chooseb("anisotropic"); c.build = chooseb("build"); c.odd = chooseb("odd"); c.force = chooseb("force");
  static const double th[] = {-1, 0.25, 3, 4};
  c.thresh = th[choose("threshold", 0, 3)];
  const int ml = choose("limit", 0, 4);
  if (ml) c.maxline = ml;
  c.coupling = static_cast<CoMMACellCouplingT>(choose("coupling", 0, 1));
  Res in;
  if (!c.build) { in.idx = {0, 3, 5}; in.lines = {0, 1, 2, 6, 7}; }
  twoWays(m, c, in);
}
static void symbolic() {
  Mesh m; topoClass(m, T() ? 5 : 4, true);
  Geo g; g.w = 0; g.bhi = 1; fill(m, g);
  Conf c; cards(c, choose("cards", 0, 1)); c.pool = poolOf(choose("pool", 0, 3)); c.correction = chooseb("correction");
  twoWays(m, c, Res());
}
static void large() {
  Mesh m; largeMesh(m);
  Conf c; largeCards(c, T() ? 7 : 4); c.pool = poolOf(choose("pool", 0, 3)); c.correction = true; c.sing = 2;
  c.neigh = static_cast<CoMMANeighbourhoodT>(c.goal % 2); c.iter = c.goal < 4 ? 2 : 1;
  if (c.goal == 4) c.ar = CoMMAAspectRatioT::DIAMETER_OVER_RADIUS;
  twoWays(m, c, Res());
}
static void layers() {
  const bool flat = chooseb("flat");
  Box b(flat ? 6 : 3, flat ? 6 : 3, flat ? 1 : 3);
  for (int k = 0; k < b.nz; ++k) for (int i = 0; i < b.nx; ++i) b.layer(i, k, choose(k == b.nz / 2 && i == 1 ? "height" : "other_heights", 0, b.ny));
  areas(b.m);
  Conf c; cards(c, 2); c.aniso = c.build = true; c.odd = chooseb("odd"); c.force = chooseb("force"); c.thresh = 4;
  c.pool = poolOf(choose("pool", 0, 3)); c.correction = chooseb("correction");
  const int ml = choose("limit", 0, 5);
  if (ml) c.maxline = ml + 1;
  c.coupling = static_cast<CoMMACellCouplingT>(choose("coupling", 0, 1));
  twoWays(b.m, c, Res());
}
// defaults are the documented values
static void defaults() {
  Mesh m; topoGrid(m, 3, 2);
  Geo g; g.prio = 1; g.bnd = 2; g.w = 2; g.vol = 2; g.ctr = 2; fill(m, g);
  for (auto &w : m.area) w = w * 2;
  m.compliant = {0, 1, 2, 3, 4, 5};
  Conf c; cards(c, choose("cards", 0, 4));
  c.pool = poolOf(choose("pool", 0, 1)); c.correction = chooseb("correction"); c.aniso = chooseb("anisotropic"); c.build = true; c.odd = true; c.thresh = 4.;
  c.ar = CoMMAAspectRatioT::DIAMETER_OVER_RADIUS;
  Res a, b, d;
  agglo(m, c, a);
  comma::agglomerate_one_level<UL, double, int>(m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.compliant, m.nbnd, c.build, c.aniso, c.odd, c.thresh,
    c.pool, b.f2c, b.idx, b.lines, c.correction, m.dim, c.goal, c.min, c.max);
  sym_assert(sameRes(a, b), "C11 defaults of the flat interface");
  G ga(m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.nbnd, m.dim);
  A aa(c.goal, c.min, c.max, c.correction, c.pool);
  N na(c.aniso, m.compliant);
  comma::agglomerate_one_level<UL, double, int>(ga, aa, na, d.f2c, d.idx, d.lines);
  sym_assert(sameRes(a, d), "C11 defaults of the structured interface");
  sym_cover("defaults");
  observe(a);
}
// leading arguments given, the others left to their defaults
static N leading(int k, const Mesh &m, const Conf &c, std::optional<UL> ml) {
  switch (k) {
    case 0: return N(c.aniso, m.compliant);
    case 1: return N(c.aniso, m.compliant, c.build);
    case 2: return N(c.aniso, m.compliant, c.build, c.odd);
    case 3: return N(c.aniso, m.compliant, c.build, c.odd, c.thresh);
    case 4: return N(c.aniso, m.compliant, c.build, c.odd, c.thresh, ml);
    default: return N(c.aniso, m.compliant, c.build, c.odd, c.thresh, ml, c.coupling);
  }
}
static void anisoDefaults() {
  sym_mode(1);
  // a path of three cells with weights of any ratio, and a bent one
  Mesh m; const bool bent = chooseb("bent"); topoGrid(m, bent ? 2 : 3, 2);
  m.n = m.n - (bent ? 1 : 0);
  Geo g; g.prio = 0; g.bnd = 0; g.ctr = 2; fill(m, g);
  double h[2] = {sym_f64("along", 0, 1, 20), sym_f64("along", 1, 1, 20)};
  const double v = sym_f64("across", 0, 1, 5);
  for (int i = 0; i < m.n; ++i)
    for (int j = 0; j < m.n; ++j)
      if (m.adj[i][j]) {
        const int w = bent ? 2 : 3;
        m.w[i][j] = bent ? (i + j == 1 ? h[0] : h[1]) : (i / w == j / w) ? (i / w == 0 ? h[std::min(i, j)] : 1) : v;
      }
  areas(m);
  for (int i = 0; i < m.n; ++i) m.ctr[i] = {double(i % (bent ? 2 : 3)), 1.0 * (i / (bent ? 2 : 3))};
  for (int i = 0; i < m.n; ++i) m.compliant.push_back(i);
  Conf c; cards(c, 0); c.aniso = true; c.build = true; c.odd = true; c.thresh = 4.; c.force = true; c.coupling = CoMMACellCouplingT::MAX_WEIGHT;
  c.ar = CoMMAAspectRatioT::DIAMETER_OVER_RADIUS;
  const int k = choose("given", 0, 5);
  std::optional<UL> ml;
  if (k > 1) c.odd = chooseb("odd");
  if (k > 2 && chooseb("low")) c.thresh = 2.;
  if (k > 3 && chooseb("limited")) { ml = 2; c.maxline = 2; }
  if (k > 4 && chooseb("distance")) c.coupling = CoMMACellCouplingT::MIN_DISTANCE;
  Res a, d;
  agglo(m, c, a);
  G ga(m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.nbnd, m.dim);
  A aa(c.goal, c.min, c.max, c.correction, c.pool);
  N na = leading(k, m, c, ml);
  comma::agglomerate_one_level<UL, double, int>(ga, aa, na, d.f2c, d.idx, d.lines);
  sym_assert(sameRes(a, d), "C11 defaults of the structured interface");
  Res b;
#define FLAT m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.compliant, m.nbnd, c.build, c.aniso, c.odd, c.thresh, c.pool, b.f2c, b.idx, b.lines, c.correction, m.dim, c.goal, c.min, c.max
  if (k < 4) comma::agglomerate_one_level<UL, double, int>(FLAT);
  else if (k == 4) comma::agglomerate_one_level<UL, double, int>(FLAT, c.ar, c.sing, ml);
  else comma::agglomerate_one_level<UL, double, int>(FLAT, c.ar, c.sing, ml, c.coupling);
#undef FLAT
  sym_assert(sameRes(a, b), "C11 defaults of the flat interface");
  if (!a.lines.empty()) sym_cover("default line");
  observe(a);
}
// leading isotropic arguments given, the others left to their defaults
static A leadingIso(int k, const Conf &c) {
  switch (k) {
    case 0: return A(c.goal, c.min, c.max, c.correction, c.pool);
    case 1: return A(c.goal, c.min, c.max, c.correction, c.pool, c.ar);
    case 2: return A(c.goal, c.min, c.max, c.correction, c.pool, c.ar, c.sing);
    default: return A(c.goal, c.min, c.max, c.correction, c.pool, c.ar, c.sing, c.iter);
  }
}
static void flatIso(int k, const Mesh &m, const Conf &c, Res &r) {
#define FLAT m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.compliant, m.nbnd, c.build, c.aniso, c.odd, c.thresh, c.pool, r.f2c, r.idx, r.lines, c.correction, m.dim, c.goal, c.min, c.max
  switch (k) {
    case 0: comma::agglomerate_one_level<UL, double, int>(FLAT); break;
    case 1: comma::agglomerate_one_level<UL, double, int>(FLAT, c.ar); break;
    case 2: comma::agglomerate_one_level<UL, double, int>(FLAT, c.ar, c.sing); break;
    default: comma::agglomerate_one_level<UL, double, int>(FLAT, c.ar, c.sing, std::nullopt, CoMMACellCouplingT::MAX_WEIGHT, true, c.iter);
  }
#undef FLAT
}
static void isoDefaults() {
  Mesh m; largeMesh(m);
  Conf c; largeCards(c, T() ? 7 : 4); c.pool = poolOf(choose("pool", 0, 3)); c.correction = true;
  c.ar = CoMMAAspectRatioT::DIAMETER_OVER_RADIUS; c.sing = 1; c.iter = 1; c.neigh = CoMMANeighbourhoodT::EXTENDED;
  const int k = choose("given", 0, 3);
  if (k > 0) c.ar = CoMMAAspectRatioT::DIAMETER;
  if (k > 1) c.sing = 2;
  if (k > 2) c.iter = 2;
  Res a, b, d;
  agglo(m, c, a);
  flatIso(k, m, c, b);
  sym_assert(sameRes(a, b), "C11 defaults of the flat interface");
  comma::agglomerate_one_level<UL, double, int>(G(m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.nbnd, m.dim), leadingIso(k, c), N(c.aniso, m.compliant), d.f2c, d.idx, d.lines);
  sym_assert(sameRes(a, d), "C11 defaults of the structured interface");
  observe(a);
}
// a call that one interface refuses is refused by the other
template<typename F> static int kindOf(F f) {
  try { f(); } catch (const std::invalid_argument &) { return 1; } catch (...) { return 2; }
  return 0;
}
static void refusals() {
  Mesh m; topoGrid(m, 3, 1);
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  for (auto &p : m.ctr) p.resize(3, 0.0);
  Conf c;
  m.dim = sym_i32("dimension", 0, -10, 10);
  c.goal = sym_i32("goal", 0, -10, 10); c.min = sym_i32("min", 0, -10, 10); c.max = sym_i32("max", 0, -10, 10);
  c.iter = sym_i32("iterations", 0, -10, 10); c.sing = sym_i32("singular", 0, -10, 10);
  c.correction = chooseb("correction");
  Res a, b;
  const int ka = kindOf([&] { agglo(m, c, a); }), kb = kindOf([&] { structured(m, c, b); });
  sym_assert(ka == kb, "C11 both interfaces accept the same calls");
  if (ka) sym_cover("refused by both");
  sym_assert(sameRes(a, b), "C11 both interfaces agree");
}
#ifndef REDUCED
// the steps driven one by one; cardinalities of zero stand for those of the dimension
static void steps(const Mesh &m, const Conf &c, int zeros, const Res &in, Res &r) {
  namespace k = comma;
  std::shared_ptr<k::Seeds_Pool<UL, double, int>> pool;
  const bool one = c.pool == CoMMASeedsPoolT::BOUNDARY_PRIORITY_ONE_POINT_INIT || c.pool == CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY_ONE_POINT_INIT;
  if (c.pool == CoMMASeedsPoolT::BOUNDARY_PRIORITY || c.pool == CoMMASeedsPoolT::BOUNDARY_PRIORITY_ONE_POINT_INIT)
    pool = std::make_shared<k::Seeds_Pool_Boundary_Priority<UL, double, int>>(m.nbnd, m.prio, one);
  else pool = std::make_shared<k::Seeds_Pool_Neighbourhood_Priority<UL, double, int>>(m.nbnd, m.prio, one);
  auto g = std::make_shared<k::Dual_Graph<UL, double, int>>(m.n, m.row, m.col, m.area, m.vol, m.ctr, m.nbnd, m.dim, m.compliant);
  auto cc = std::make_shared<k::Coarse_Cell_Container<UL, double, int>>(g, c.sing);
  if (c.aniso) {
    std::optional<UL> ml;
    if (c.maxline) ml = *c.maxline;
    k::Agglomerator_Anisotropic<UL, double, int> a(g, cc, pool, m.dim, c.thresh, in.idx, in.lines, m.prio, c.build, c.odd, ml, c.coupling, c.force);
    a.agglomerate_one_level(2, 2, 2, m.prio, false);
    a.export_anisotropic_lines(1, r.idx, r.lines);
  } else pool->initialize();
  const int lo = zeros & 1 ? 0 : c.min, aim = zeros & 2 ? 0 : c.goal, hi = zeros & 4 ? 0 : c.max;
  if (c.iter > 1) k::Agglomerator_Iterative<UL, double, int>(g, cc, pool, m.dim, c.ar, c.neigh, c.iter).agglomerate_one_level(aim, lo, hi, m.prio, c.correction);
  else k::Agglomerator_Biconnected<UL, double, int>(g, cc, pool, m.dim, c.ar, c.neigh, c.iter).agglomerate_one_level(aim, lo, hi, m.prio, c.correction);
  for (auto &x : cc->_fc_2_cc) r.f2c.push_back(x.value());
}
static void byHand(Mesh &m, const Conf &c, const Res &in, int zeros) {
  Res a = in, b;
  agglo(m, c, a);
  steps(m, c, zeros, in, b);
  sym_assert(sameRes(a, b), zeros ? "C11 default cardinalities" : "C11 the steps one by one agree with the call");
  sym_cover("step by step");
  observe(a);
}
static void handZero() {
  Mesh m;
  if (chooseb("complete")) {
    m.dim = choose("dimension", 2, 3); m.n = 12;
    for (int i = 0; i < m.n; ++i) for (int j = 0; j < i; ++j) edge(m, i, j);
    Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  } else largeMesh(m);
  Conf c; c.min = m.dim == 2 ? 3 : 6; c.goal = m.dim == 2 ? 4 : 8; c.max = m.dim == 2 ? 5 : 10;
  c.pool = poolOf(choose("pool", 0, 3)); c.correction = chooseb("correction");
  byHand(m, c, Res(), choose("zeros", 0, 7));
}
static void handOptions() {
  Mesh m; topoGrid(m, 3, 2); m.dim = choose("dimension", 2, 3);
  Geo g; g.prio = 2; g.bnd = 2; g.w = 2; g.vol = 2; g.ctr = 2; fill(m, g);
  Conf c; cards(c, choose("cards", 0, T() ? 4 : 2));
  c.sing = 1; c.correction = chooseb("correction"); c.pool = poolOf(choose("pool", 0, 3)); c.ar = static_cast<CoMMAAspectRatioT>(choose("aspect_ratio", 0, 9));
  c.iter = choose("iterations", 1, 2); c.neigh = static_cast<CoMMANeighbourhoodT>(choose("neighbourhood", 0, 1));
  byHand(m, c, Res(), 0);
}
static void handLines() {
  Mesh m; topoGrid(m, 4, 2);
  Geo g; g.prio = 1; g.bnd = 0; fill(m, g);
  for (int i = 0; i < m.n; ++i) for (int j = 0; j < m.n; ++j) if (m.adj[i][j]) m.w[i][j] = (i / 4 == j / 4) ? (i / 4 ? 6 : 3) : 1;
  areas(m);
  for (int i = 0; i < m.n; ++i) m.ctr[i] = {double(i % 4), 4.0 * (i / 4)};
  for (int i = 1; i < m.n; ++i) m.prio[i] = i;
  m.compliant = VI{0, 1, 2, 3, 4, 5, 6, 7};
  Conf c; cards(c, 2); c.aniso = true; c.build = chooseb("build"); c.odd = chooseb("odd"); c.force = chooseb("force");
  static const double th[] = {-1, 0.25, 3, 4};
  c.thresh = th[choose("threshold", 0, 3)];
  const int ml = choose("limit", 0, 4);
  if (ml) c.maxline = ml;
  c.coupling = static_cast<CoMMACellCouplingT>(choose("coupling", 0, 1)); c.pool = poolOf(choose("pool", 0, 3));
  Res in;
  if (!c.build) { in.idx = {0, 3, 5}; in.lines = {0, 1, 2, 6, 7}; }
  byHand(m, c, in, 0);
}
#define HAND {"default cardinalities", 0, handZero}, {"step by step", 0, handOptions}, {"step by step, lines", 0, handLines},
#else
#define HAND
#endif
CASES(HAND {"defaults, some dozens of cells", 0, isoDefaults}, {"refused calls", 0, refusals}, {"some dozens of cells", 0, large}, {"layers of cells", 0, layers}, {"anisotropic defaults", 0, anisoDefaults}, {"isotropic options", 0, options}, {"anisotropic options", 0, anisoOptions}, {"symbolic mesh", 0, symbolic}, {"defaults", 0, defaults})
#endif

#if PROP == 12
static void capped(Mesh m, const Conf &c, const Res &in) {
  Res a = in, b = in;
  agglo(m, c, a);
  bool more = false;
  for (auto &x : m.nbnd) if (x > m.dim) { x = m.dim; more = true; }
  if (more) sym_cover("count above the dimension");
  agglo(m, c, b);
  sym_assert(a.f2c == b.f2c, "C12 same mapping");
  sym_assert(sameRes(a, b), "C12 same lines");
  observe(a);
}
static void iso(Mesh &m) {
  m.dim = choose("dimension", 2, 3);
  Geo g; g.prio = 0; g.bhi = m.dim + 2; if (!T()) g.bhi = m.dim + 1; g.ctr = 0; fill(m, g);
  Conf c; cards(c, T() || m.n < 4 ? choose("cards", 0, 1) : 0); c.pool = poolOf(choose("pool", 0, 3)); c.correction = T() && chooseb("correction");
  c.ar = T() && chooseb("perimeter") ? CoMMAAspectRatioT::EXTERNAL_WEIGHTS : CoMMAAspectRatioT::ALGEBRAIC_PERIMETER_OVER_MEASURE;
  capped(m, c, Res());
}
static void b3() { Mesh m; topoAll(m, 3); iso(m); }
static void b4() { Mesh m; if (T()) topoAll(m, 4); else topoClass(m, 4, true); iso(m); }
static void b5() { Mesh m; topoClass(m, 5); iso(m); }
static void lined() {
  Mesh m; topoGrid(m, 4, 1);
  Geo g; g.prio = 1; g.phi = 3; g.plo = -3; g.bhi = 6; fill(m, g);
  Conf c; cards(c, 0); c.aniso = true; c.odd = chooseb("odd");
  Res r; r.idx = {0, 3}; r.lines = {0, 1, 2};
  capped(m, c, r);
}
static void large() {
  Mesh m; largeMesh(m, SQUARES, PIECES);
  Conf c; largeCards(c, T() ? 7 : 2); c.pool = poolOf(choose("pool", 0, 3)); c.correction = c.goal == 4; c.sing = 2;
  for (int i = 0; i < m.n; ++i) m.nbnd[i] = (m.nbnd[i] + i % 5 * (i % 3)) % 7;
  m.nbnd[m.n / 3] = sym_i32("count", 0, 0, 1000000);
  capped(m, c, Res());
}
static void layers() {
  const bool flat = chooseb("flat");
  Box b(flat ? 6 : 3, flat ? 6 : 3, flat ? 1 : 3);
  for (int k = 0; k < b.nz; ++k) for (int i = 0; i < b.nx; ++i) b.layer(i, k, choose(k == b.nz / 2 && i == 1 ? "height" : "other_heights", 0, b.ny));
  areas(b.m);
  for (int i = 0; i < b.m.n; ++i) if (b.m.nbnd[i]) b.m.nbnd[i] += i % 4;
  b.m.nbnd[b.m.n / 3] = sym_i32("count", 0, 0, 1000000);
  Conf c; cards(c, 2); c.aniso = c.build = true; c.odd = chooseb("odd"); c.pool = poolOf(choose("pool", 0, 3)); c.thresh = 4;
  capped(b.m, c, Res());
}
static void big() {
  Mesh m; topoClass(m, 3, true);
  m.dim = 2;
  Geo g; g.bhi = 1000000; g.prio = 0; fill(m, g);
  Conf c; cards(c, 0);
  capped(m, c, Res());
}
CASES({"some dozens of cells", 0, large}, {"layers of cells", 0, layers}, {"3 cells, every graph", 0, b3}, {"4 cells", 0, b4}, {"a line", 0, lined}, {"large counts", 0, big}, {"5 cells", 1, b5})
#endif

#if PROP == 24
static void twice(Mesh m, const Conf &c, const Res &in) {
  VD q(m.n);
  // small fractions and large values as well
  static const double scale[] = {1., 0x1p-20, 0x1p40};
  const double sc = scale[T() || m.n < 5 ? choose("scale", 0, 2) : 1];
  for (int i = 0; i < m.n; ++i) q[i] = sc * sym_f64("other_priority", i, -1000, 1000);
  Res a = in, b = in;
  agglo(m, c, a);
  for (int i = 0; i < m.n; ++i)
    for (int j = 0; j < m.n; ++j) sym_assume((m.prio[i] < m.prio[j]) == (q[i] < q[j]));
  m.prio = q;
  agglo(m, c, b);
  sym_assert(sameRes(a, b), "C24 only the order of the priorities matters");
  sym_cover("same order");
  observe(a);
}
static void iso(Mesh &m, int cmax) {
  Geo g; g.bnd = T() || m.n < 5; g.bhi = 1; fill(m, g);
  Conf c; cards(c, choose("cards", 0, cmax)); c.pool = poolOf(choose("pool", 0, 3)); c.correction = T() && chooseb("correction");
  twice(m, c, Res());
}
static void p3() { Mesh m; topoAll(m, 3); iso(m, 1); }
static void p4() { Mesh m; topoClass(m, 4, true); iso(m, T() ? 2 : 0); }
static void p5() { Mesh m; topoClass(m, 5, true); iso(m, T() ? 1 : 0); }
// values far from zero, or close to each other
static void far_() {
  Mesh m; topoClass(m, T() ? 5 : 4, true);
  Geo g; g.prio = 1; g.plo = 0; g.phi = T() ? 3 : 2; g.bnd = 0; fill(m, g);
  m.nbnd[0] = choose("boundary", 0, 1);
  Conf c; cards(c, 0); c.pool = poolOf(choose("pool", 0, 3));
  Res a, b;
  agglo(m, c, a);
  const bool shift = chooseb("shift");
  for (double &x : m.prio) x = shift ? x + 0x1p40 : x * 0x1p-20;
  agglo(m, c, b);
  sym_assert(sameRes(a, b), "C24 only the order of the priorities matters");
  observe(a);
}
// the same order by other values
static void other(Mesh &m, const Conf &c) {
  Res a, b;
  agglo(m, c, a);
  const int k = choose("values", 0, 3);
  // the concrete priorities are whole numbers below 64, the symbolic one as well
  for (double &x : m.prio) x = k == 0 ? x + 0x1p40 : k == 1 ? x * 0x1p-20 : k == 2 ? x - 0x1p20 : x * 0x1p20 - 0x1p22;
  agglo(m, c, b);
  sym_assert(sameRes(a, b), "C24 only the order of the priorities matters");
  observe(a);
}
static void large() {
  Mesh m; largeMesh(m);
  Conf c; largeCards(c, T() ? 7 : 1); c.pool = poolOf(choose("pool", 0, 3)); c.correction = true; c.sing = 2;
  other(m, c);
}
static void layers() {
  const bool flat = chooseb("flat");
  Box b(flat ? 6 : 3, flat ? 6 : 3, flat ? 1 : 3);
  for (int k = 0; k < b.nz; ++k) for (int i = 0; i < b.nx; ++i) b.layer(i, k, choose(k == b.nz / 2 && i == 1 ? "height" : "other_heights", 0, b.ny));
  areas(b.m);
  b.m.prio[b.m.n / 2] = sym_f64("priority", 0, 0, 30);
  Conf c; cards(c, 2); c.aniso = c.build = true; c.odd = chooseb("odd"); c.pool = poolOf(choose("pool", 0, 3)); c.thresh = 4;
  other(b.m, c);
}
static void built() {
  Mesh m; topoGrid(m, 3, 1);
  Geo g; g.bnd = 1; g.bhi = 1; fill(m, g);
  m.compliant = {0, 1, 2};
  Conf c; cards(c, 0); c.aniso = c.build = true; c.thresh = -1; c.odd = chooseb("odd");
  twice(m, c, Res());
}
static void given() {
  Mesh m; topoGrid(m, 4, 1);
  Geo g; g.bnd = 1; g.bhi = 1; fill(m, g);
  Conf c; cards(c, 0); c.aniso = true; c.odd = chooseb("odd");
  Res r; r.idx = {0, 3}; r.lines = {2, 1, 0};
  twice(m, c, r);
}
CASES({"far from zero or close", 0, far_}, {"some dozens of cells", 0, large}, {"layers of cells", 0, layers}, {"3 cells, every graph", 0, p3}, {"4 cells", 0, p4}, {"built line", 0, built}, {"given line", 0, given}, {"5 cells", 0, p5})
#endif
