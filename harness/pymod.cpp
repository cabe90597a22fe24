// C25: the Python module, its binding code compiled against a stand-in for pybind11.
#include REPO_SRC
#define CELLS 36
#include "box.h"
namespace py = pybind11;
static bool T() { return sym_tier() != 0; }
static py::module_ &mod() {
  static py::module_ *m = [] { auto *p = new py::module_; pystub_init_CoMMA(*p); return p; }();
  return *m;
}
using Out3 = std::tuple<VI, VI, VI>;
using CG = std::tuple<VI, VI, VD, VD, std::vector<VD>, VD, std::vector<int>>;
template<class R> static bool callPy(const char *fn, const std::vector<py::object> &pos, const py::kwargs &kw, R &r) {
  auto it = mod().functions.find(fn);
  if (it == mod().functions.end()) return false;
  try {
    std::any a = it->second(pos, kw);
    auto *p = std::any_cast<R>(&a);
    if (!p) return false;
    r = *p;
    return true;
  } catch (const py::type_error &) { return false; }
}
static long en(const char *e, const char *v) {
  auto i = mod().enums.find(e);
  if (i == mod().enums.end()) return -1;
  auto j = i->second.find(v);
  return j == i->second.end() ? -1 : j->second;
}
static const char *poolName[] = {"BOUNDARY", "NEIGHBOURHOOD", "BOUNDARY_POINT_INIT", "NEIGHBOURHOOD_POINT_INIT"};
static const char *arName[] = {"DIAMETER_OVER_RADIUS", "DIAMETER_OVER_MIN_EDGE", "DIAMETER", "ONE_OVER_MEASURE", "ONE_OVER_INTERNAL_WEIGHTS",
  "PERIMETER_OVER_RADIUS", "EXTERNAL_WEIGHTS", "MAX_BARY_DIST_OVER_RADIUS", "MAX_OVER_MIN_BARY_DIST", "ALGEBRAIC_PERIMETER_OVER_MEASURE"};
static const CoMMAAspectRatioT ars[] = {CoMMAAspectRatioT::DIAMETER_OVER_RADIUS, CoMMAAspectRatioT::DIAMETER_OVER_MIN_EDGE, CoMMAAspectRatioT::DIAMETER,
  CoMMAAspectRatioT::ONE_OVER_MEASURE, CoMMAAspectRatioT::ONE_OVER_INTERNAL_WEIGHTS, CoMMAAspectRatioT::PERIMETER_OVER_RADIUS,
  CoMMAAspectRatioT::EXTERNAL_WEIGHTS, CoMMAAspectRatioT::MAX_BARY_DIST_OVER_RADIUS, CoMMAAspectRatioT::MAX_OVER_MIN_BARY_DIST,
  CoMMAAspectRatioT::ALGEBRAIC_PERIMETER_OVER_MEASURE};
static const char *coupName[] = {"MAX_WEIGHT", "MIN_DISTANCE"};
static const CoMMACellCouplingT coups[] = {CoMMACellCouplingT::MAX_WEIGHT, CoMMACellCouplingT::MIN_DISTANCE};
static const char *neighName[] = {"EXTENDED", "PURE_FRONT"};
static const CoMMANeighbourhoodT neighs[] = {CoMMANeighbourhoodT::EXTENDED, CoMMANeighbourhoodT::PURE_FRONT};

static const char *argName[] = {"adjMatrix_row_ptr", "adjMatrix_col_ind", "adjMatrix_areaValues", "volumes", "centers", "priority_weights",
  "anisotropicCompliantCells", "n_bnd_faces", "build_anisotropic_lines", "is_anisotropic", "odd_line_length", "threshold_anisotropy",
  "seed_ordering_type", "agglomerationLines_Idx", "agglomerationLines", "correction", "dimension", "goal_card", "min_card", "max_card",
  "aspect_ratio", "singular_card_thresh", "max_cells_in_line", "aniso_cell_coupling", "force_line_direction", "fc_choice_iter",
  "type_of_isotropic_agglomeration"};
constexpr int NREQ = 20, NARG = 27;
struct Opt { int pool = 0, ar = 0, coup = 0, neigh = 0; };
// the call from Python by position, by keyword and mixed against the one from C++
static void both(const Mesh &m, Conf c, const Opt &o, const Res &in, int nargs, int cut = -1, int left = 0) {
  c.pool = poolOf(o.pool); c.ar = ars[o.ar]; c.coupling = coups[o.coup]; c.neigh = neighs[o.neigh];
  Res a = in;
  agglo(m, c, a);
  py::object lim;
  if (c.maxline) lim = py::object((long)*c.maxline);
  const std::vector<py::object> v = {m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.compliant, m.nbnd, c.build, c.aniso, c.odd, c.thresh,
    en("SeedsPool", poolName[o.pool]), in.idx, in.lines, c.correction, m.dim, c.goal, c.min, c.max,
    en("AR", arName[o.ar]), c.sing, lim, en("CellCoupling", coupName[o.coup]), c.force, c.iter, en("Neighbourhood", neighName[o.neigh])};
  if (cut < 0) cut = choose("positional", 0, 2);
  std::vector<py::object> pos;
  py::kwargs kw;
  for (int k = 0; k < nargs; ++k)
    if (k >= NREQ && left >> (k - NREQ) & 1) sym_cover("left out");
    else if (cut == 0 || (cut == 2 && k < 13)) pos.push_back(v[k]);
    else kw[argName[k]] = v[k];
  if (cut) sym_cover("by keyword"); else sym_cover("by position");
  Out3 r;
  const bool ok = callPy("agglomerate_one_level", pos, kw, r);
  sym_assert(ok, "C25 the function takes the documented arguments");
  if (!ok) return;
  sym_assert(std::get<0>(r) == a.f2c, "C25 same mapping");
  sym_assert(std::get<1>(r) == a.idx && std::get<2>(r) == a.lines, "C25 same lines");
  observe(a);
}
static void cards(Conf &c, int k) {
  static const int t[][3] = {{2, 2, 2}, {2, 2, 3}, {2, 3, 4}, {3, 3, 3}, {3, 3, 4}};
  c.min = t[k][0]; c.goal = t[k][1]; c.max = t[k][2];
}
static void irregular(Mesh &m) {
  topoGrid(m, 3, 2);
  Geo g; g.prio = 2; g.bnd = 2; g.w = 2; g.vol = 2; g.ctr = 2; fill(m, g);
}
static void options() {
  Mesh m; m.dim = choose("dimension", 2, 3); irregular(m);
  Conf c; cards(c, choose("cards", 0, 4));
  Opt o; o.pool = choose("pool", 0, 3); o.ar = choose("aspect_ratio", 0, 9); o.neigh = choose("neighbourhood", 0, 1);
  c.correction = chooseb("correction"); c.sing = choose("singular", 1, 2); c.iter = choose("iterations", 1, 2);
  both(m, c, o, Res(), NARG);
}
static void anisoOptions() {
  Mesh m; topoGrid(m, 4, 2);
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  for (int i = 0; i < m.n; ++i) for (int j = 0; j < m.n; ++j) if (m.adj[i][j]) m.w[i][j] = (i / 4 == j / 4) ? (i / 4 ? 6 : 3) : 1;
  areas(m);
  for (int i = 0; i < m.n; ++i) m.ctr[i] = {double(i % 4), 4.0 * (i / 4)};
  m.compliant = chooseb("all") ? VI{0, 1, 2, 3, 4, 5, 6, 7} : VI{0, 1, 2, 4, 5};
  Conf c; cards(c, 2); c.aniso = chooseb("anisotropic"); c.build = chooseb("build"); c.odd = chooseb("odd"); c.force = chooseb("force");
  static const double th[] = {-1, 0.25, 3, 4};
  c.thresh = th[choose("threshold", 0, 3)];
  const int ml = choose("limit", 0, 4);
  if (ml) c.maxline = ml;
  Opt o; o.coup = choose("coupling", 0, 1);
  Res in;
  if (!c.build) { in.idx = {0, 3, 5}; in.lines = {0, 1, 2, 6, 7}; }
  both(m, c, o, in, NARG);
}
// the last arguments left out one after the other
static void defaults() {
  Mesh m; irregular(m);
  for (auto &w : m.area) w = w * 2;
  if (chooseb("anisotropic")) m.compliant = {0, 1, 2, 3, 4, 5};
  Conf c; cards(c, choose("cards", 0, 4)); c.aniso = c.build = !m.compliant.empty();
  c.correction = chooseb("correction");
  Opt o; o.pool = choose("pool", 0, 3);
  const int n = choose("given", NREQ, NARG);
  if (n > 20) o.ar = 6;
  if (n > 21) c.sing = 2;
  if (n > 22) c.maxline = 3;
  if (n > 23) o.coup = 1;
  if (n > 24) c.force = false;
  if (n > 25) c.iter = 2;
  if (n > 26) o.neigh = 1;
  if (n < NARG) sym_cover("defaults");
  both(m, c, o, Res(), n);
}
// any of the optional arguments left out, the others given another value than the default
static void leftOut(const Mesh &m, Conf c, const Opt &base, int left, const int *used) {
  Opt o = base;
  for (int k = 0; k < NARG - NREQ; ++k) if (!used[k]) left |= 1 << k;
  if (!(left & 1)) o.ar = 6;
  if (!(left & 2)) c.sing = 2;
  if (!(left & 4)) c.maxline = 3;
  if (!(left & 8)) o.coup = 1;
  if (!(left & 16)) c.force = false;
  if (!(left & 32)) c.iter = 2;
  if (!(left & 64)) o.neigh = 1;
  both(m, c, o, Res(), NARG, 1, left);
}
static void leftIso() {
  static const int used[] = {1, 1, 0, 0, 0, 1, 1};
  Mesh m; largeMesh(m);
  Conf c; largeCards(c, T() ? 7 : 3); c.correction = true; c.sing = 1;
  Opt o; o.pool = choose("pool", 0, 3);
  leftOut(m, c, o, choose("first", 0, 3) | choose("second", 0, 3) << 5, used);
}
static void leftLines() {
  static const int used[] = {0, 0, 1, 1, 1, 0, 0};
  // strong faces along a path with bends, cells closer in the other direction
  Mesh m; topoGrid(m, 5, 4);
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  for (int i = 0; i < m.n; ++i) for (int j = 0; j < m.n; ++j) if (m.adj[i][j]) m.w[i][j] = std::abs(i - j) == 5 ? 3 : 1;
  const int path[] = {0, 5, 6, 7, 12, 17, 18, 19};
  for (int k = 0; k + 1 < 8; ++k) m.w[path[k]][path[k + 1]] = m.w[path[k + 1]][path[k]] = 9;
  areas(m);
  for (int i = 0; i < m.n; ++i) { m.ctr[i] = {double(i % 5), 2.0 * (i / 5)}; m.compliant.push_back(i); }
  for (int i = 0; i < m.n; ++i) m.prio[i] = (i * 7) % 20;
  m.prio[choose("start", 0, m.n - 1)] = 40;
  Conf c; cards(c, 2); c.aniso = c.build = true; c.odd = chooseb("odd"); c.thresh = chooseb("all") ? -1 : 2;
  Opt o; o.pool = 0;
  leftOut(m, c, o, choose("left", 0, 7) << 2, used);
}
static void symbolic() {
  Mesh m; topoClass(m, T() ? 5 : 4, true);
  Geo g; g.w = 0; g.bhi = 1; fill(m, g);
  Conf c; cards(c, choose("cards", 0, 1)); c.correction = chooseb("correction");
  Opt o; o.pool = choose("pool", 0, 3); o.ar = 6;
  both(m, c, o, Res(), NARG, 1);
}
static void large() {
  Mesh m; largeMesh(m);
  Conf c; largeCards(c, T() ? 7 : 1); c.correction = true; c.sing = 2;
  Opt o; o.pool = choose("pool", 0, 3); o.ar = c.goal == 4 ? 0 : 6; o.neigh = c.goal % 2;
  both(m, c, o, Res(), NARG, 2);
}
// the enumerators stand for the kinds of the same name
static void enums() {
  for (int k = 0; k < 4; ++k) sym_assert(en("SeedsPool", poolName[k]) == (long)poolOf(k), "C25 seed orderings");
  for (int k = 0; k < 10; ++k) sym_assert(en("AR", arName[k]) == (long)ars[k], "C25 aspect ratios");
  for (int k = 0; k < 2; ++k) sym_assert(en("CellCoupling", coupName[k]) == (long)coups[k], "C25 couplings");
  for (int k = 0; k < 2; ++k) sym_assert(en("Neighbourhood", neighName[k]) == (long)neighs[k], "C25 neighbourhoods");
}
static void wall() {
  Mesh m; topoAll(m, 4);
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  VI w;
  for (int i = 0; i < m.n; ++i) if (chooseb(i == 0 ? "wall0" : i == 1 ? "wall1" : i == 2 ? "wall2" : "wall3")) w.push_back(i);
  std::vector<long> a, b;
  comma::compute_neighbourhood_based_wall_distance<UL, long>(m.row, m.col, w, a);
  const bool ok = chooseb("keyword") ? callPy("compute_neighbourhood_based_wall_distance", {}, {{"neigh_idxs", m.row}, {"neighs", m.col}, {"wall", w}}, b)
                                     : callPy("compute_neighbourhood_based_wall_distance", {m.row, m.col, w}, {}, b);
  sym_assert(ok, "C25 the wall distance takes the documented arguments");
  sym_assert(a == b, "C25 same distances");
}
static void filter() {
  Mesh m; topoAll(m, 3);
  Geo g; g.prio = 0; g.bhi = 2; fill(m, g);
  for (auto &x : m.nbnd) x = (int)sym_concrete(x);
  std::unordered_set<int> al;
  const int k = choose("allowed", 1, 15);
  for (int b = 0; b < 4; ++b) if (k >> b & 1) al.insert(b + 1);
  VI a, b;
  comma::filter_cells_by_n_edges<UL, int>(m.row, m.nbnd, al, a);
  const bool ok = chooseb("keyword") ? callPy("filter_cells_by_n_edges", {}, {{"indices", m.row}, {"n_bnd_face", m.nbnd}, {"allowed", al}}, b)
                                     : callPy("filter_cells_by_n_edges", {m.row, m.nbnd, al}, {}, b);
  sym_assert(ok, "C25 the filter takes the documented arguments");
  sym_assert(a == b, "C25 same cells kept");
}
static void coarse() {
  Mesh m; topoAll(m, T() ? 4 : 3);
  Geo g; g.w = 1; g.vol = 1; g.ctr = 2; g.bhi = 2; fill(m, g);
  VI f;
  UL mx = 0;
  for (int i = 0; i < m.n; ++i) { f.push_back((UL)sym_concrete(sym_i32("coarse", i, 0, (int)(i ? mx + 1 : 0)))); mx = std::max(mx, f.back()); }
  CG a, b;
  comma::build_coarse_graph<UL, double, int>(f, m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.nbnd, std::get<0>(a), std::get<1>(a), std::get<2>(a),
    std::get<3>(a), std::get<4>(a), std::get<5>(a), std::get<6>(a));
  const bool ok = chooseb("keyword")
    ? callPy("build_coarse_graph", {}, {{"f2c", f}, {"f_adj_idx", m.row}, {"f_adj", m.col}, {"f_weights", m.area}, {"f_volumes", m.vol}, {"f_centers", m.ctr},
                                        {"f_priority", m.prio}, {"f_n_bnd", m.nbnd}}, b)
    : callPy("build_coarse_graph", {f, m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.nbnd}, {}, b);
  sym_assert(ok, "C25 the coarse graph takes the documented arguments");
  if (!ok) return;
  sym_assert(std::get<0>(a) == std::get<0>(b) && std::get<1>(a) == std::get<1>(b), "C25 same coarse graph");
  sym_assert(std::get<6>(a) == std::get<6>(b), "C25 same coarse boundary faces");
  // the values computed twice by the same operations are the same expressions
  sym_assert(std::get<5>(a) == std::get<5>(b), "C25 same coarse priorities");
  sym_assert(std::get<2>(a) == std::get<2>(b), "C25 same coarse weights");
  sym_assert(std::get<3>(a) == std::get<3>(b), "C25 same coarse volumes");
}
CASES({"isotropic options", 0, options}, {"anisotropic options", 0, anisoOptions}, {"defaults", 0, defaults}, {"left out, some dozens of cells", 0, leftIso}, {"left out, lines", 0, leftLines}, {"symbolic mesh", 0, symbolic}, {"some dozens of cells", 0, large},
      {"enumerators", 0, enums}, {"wall distance", 0, wall}, {"filter", 0, filter}, {"coarse graph", 0, coarse})
