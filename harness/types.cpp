// C38: the number types the caller chooses change nothing.
#define CELLS 36
#include "box.h"
#include "linesin.h"
static bool T() { return sym_tier() != 0; }
using AR = CoMMAAspectRatioT;
#if VARIANT == 0
using I = int; using W = double; using N = unsigned;
#elif VARIANT == 1
using I = unsigned char; using W = double; using N = signed char;
#else
using I = long long; using W = float; using N = short;
#endif
template<class B, class A> static std::vector<B> as(const std::vector<A> &v) {
  std::vector<B> r;
  for (const A &x : v) r.push_back((B)x);
  return r;
}
template<class A> static VI back(const std::vector<A> &v) { return as<UL>(v); }
static void judge(const Mesh &m, const Conf &c, const Res &in = {}) {
  Res a = in;
  agglo(m, c, a);
  auto row = as<I>(m.row), col = as<I>(m.col), compliant = as<I>(m.compliant);
  auto area = as<W>(m.area), vol = as<W>(m.vol), prio = as<W>(m.prio);
  std::vector<std::vector<W>> ctr;
  for (auto &p : m.ctr) ctr.push_back(as<W>(p));
  auto nbnd = as<N>(m.nbnd);
  auto idx = as<I>(in.idx), lines = as<I>(in.lines);
  std::vector<I> f2c;
  static std::optional<I> limit;
  limit.reset();
  if (c.maxline) limit = (I)*c.maxline;
  comma::agglomerate_one_level<I, W, N>(row, col, area, vol, ctr, prio, compliant, nbnd, c.build, c.aniso, c.odd, (W)c.thresh, c.pool, f2c, idx, lines,
                                        c.correction, (N)m.dim, (N)c.goal, (N)c.min, (N)c.max, c.ar, (N)c.sing, limit, c.coupling, c.force, (N)c.iter, c.neigh);
  sym_assert(back(f2c) == a.f2c, "C38 the same coarse cells");
  sym_assert(back(idx) == a.idx && back(lines) == a.lines, "C38 the same lines");
  if (!a.lines.empty()) sym_cover("with lines");
  VI ri, rj; VD wa, va, pa; std::vector<VD> ca; std::vector<int> na;
  comma::build_coarse_graph<UL, double, int>(a.f2c, m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.nbnd, ri, rj, wa, va, ca, pa, na);
  std::vector<I> si, sj; std::vector<W> wb, vb, pb; std::vector<std::vector<W>> cb; std::vector<N> nb;
  comma::build_coarse_graph<I, W, N>(as<I>(a.f2c), row, col, area, vol, ctr, prio, nbnd, si, sj, wb, vb, cb, pb, nb);
  sym_assert(back(si) == ri && back(sj) == rj, "C38 the same coarse graph");
  bool eq = wa.size() == wb.size() && va.size() == vb.size() && pa.size() == pb.size() && na.size() == nb.size();
  sym_assert(eq, "C38 as many values in the coarse graph");
  if (!eq) return;
  for (size_t k = 0; k < wa.size(); ++k) eq = eq & ((double)wb[k] == wa[k]);
  for (size_t k = 0; k < va.size(); ++k) eq = eq & ((double)vb[k] == va[k]) & ((double)pb[k] == pa[k]) & ((int)nb[k] == na[k]);
  sym_assert(eq, "C38 the same values in the coarse graph");
  std::vector<int> da; std::vector<short> db;
  comma::compute_neighbourhood_based_wall_distance<UL, int>(m.row, m.col, VI{0}, da);
  comma::compute_neighbourhood_based_wall_distance<I, short>(row, col, std::vector<I>{0}, db);
  sym_assert(as<int>(db) == da, "C38 the same distances from the wall");
  VI fa; std::vector<I> fb;
  comma::filter_cells_by_n_edges<UL, int>(m.row, m.nbnd, std::unordered_set<int>{3, 4}, fa);
  comma::filter_cells_by_n_edges<I, N>(row, nbnd, std::unordered_set<N>{3, 4}, fb);
  sym_assert(back(fb) == fa, "C38 the same cells kept");
  observe(a);
}
static void small_(Mesh &m) {
  Geo g; g.prio = VARIANT == 2 ? 2 : 1; g.bnd = 2; fill(m, g);
  if (m.n < 4) for (int i = 0; i < m.n; ++i) m.nbnd[i] = (int)sym_concrete(sym_i32("boundary", i, 0, 1));
  Conf c; c.min = choose("min", 2, T() ? 3 : 2); c.goal = c.max = choose("max", 3, T() ? 4 : 3);
  c.pool = poolOf(choose("pool", 0, T() ? 3 : 1)); c.correction = true; c.neigh = neighOf(T() ? choose("front", 0, 1) : c.pool == poolOf(1));
  judge(m, c);
}
static void s3() { Mesh m; topoAll(m, 3); small_(m); }
static void s4() { Mesh m; topoClass(m, 4, true); small_(m); }
static void given() {
  Mesh m; topoGrid(m, 3, 2);
  Geo g; g.prio = 2; g.bnd = 2; fill(m, g);
  Conf c; c.min = 2; c.goal = c.max = 3; c.aniso = true; c.odd = chooseb("odd"); c.correction = true;
  if (chooseb("limited")) c.maxline = 3;
  Res r; LinesIn li;
  giveLines(m, r, li, 2, 4, true);
  judge(m, c, r);
}
static void large() {
  Mesh m; const int k = largeMesh(m);
  if (VARIANT == 2) { Geo g; g.prio = 2; g.bnd = 2; fill(m, g); }
  (void)k;
  Conf c; largeCards(c, T() ? 7 : 2); c.pool = poolOf(choose("pool", 0, 3)); c.correction = true; c.sing = 2; c.neigh = neighOf(choose("front", 0, 1));
  // values that a shorter real type holds exactly
  static const AR t[] = {AR::EXTERNAL_WEIGHTS, AR::DIAMETER, AR::ONE_OVER_MEASURE, AR::DIAMETER_OVER_RADIUS, AR::MAX_OVER_MIN_BARY_DIST, AR::PERIMETER_OVER_RADIUS};
  c.ar = t[VARIANT == 2 ? choose("ratio", 0, 1) : choose("ratio", 0, T() ? 5 : 3)]; c.iter = T() ? choose("iter", 1, 2) : 1 + (c.goal == 4);
  judge(m, c);
}
static void layers() {
  Box b(5, 5, 1);
  for (int i = 0; i < 5; ++i) b.layer(i, 0, i == 1 || i == 4 ? choose(i == 1 ? "height1" : "height4", 1, 5) : i == 2 ? 3 : 5);
  areas(b.m);
  Conf c; largeCards(c, 1); c.pool = poolOf(choose("pool", 0, 1)); c.odd = chooseb("odd"); c.aniso = c.build = true; c.force = chooseb("straight");
  c.coupling = chooseb("distance") ? CoMMACellCouplingT::MIN_DISTANCE : CoMMACellCouplingT::MAX_WEIGHT;
  if (chooseb("limited")) c.maxline = 3;
  judge(b.m, c);
}
CASES({"3 cells, every graph", 0, s3}, {"4 cells", 0, s4}, {"given lines", 0, given}, {"some dozens of cells", 0, large}, {"layers of cells", 0, layers})
