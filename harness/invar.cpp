// The same mesh described in another way: C34 order of the faces, C35 numbering of the cells, C36 origin, axes and units.
#define CELLS 36
#include "box.h"
#include "linesin.h"
#ifndef PROP
#define PROP 34
#endif
static bool T() { return sym_tier() != 0; }
using AR = CoMMAAspectRatioT;
static bool same(const Res &a, const Res &b) { return a.f2c == b.f2c && a.idx == b.idx && a.lines == b.lines; }
static void distinct(Mesh &m, int mul) {
  // even values, so that a symbolic odd one differs from all of them
  for (int i = 0; i < m.n; ++i) m.prio[i] = 2 * ((i * mul + 3) % 37);
}
static AR measure(int lo, int hi) {
  static const AR t[] = {AR::DIAMETER_OVER_RADIUS, AR::EXTERNAL_WEIGHTS, AR::DIAMETER_OVER_MIN_EDGE, AR::ONE_OVER_MEASURE, AR::ONE_OVER_INTERNAL_WEIGHTS,
                         AR::PERIMETER_OVER_RADIUS, AR::ALGEBRAIC_PERIMETER_OVER_MEASURE, AR::DIAMETER, AR::MAX_BARY_DIST_OVER_RADIUS, AR::MAX_OVER_MIN_BARY_DIST};
  return t[choose("ratio", lo, hi)];
}
// layers of cells, no two faces of a layer with the same area
static Mesh layered() {
  const bool flat = chooseb("flat");
  Box b(flat ? 6 : 3, flat ? 6 : 3, flat ? 1 : 3);
  for (int k = 0; k < b.nz; ++k)
    for (int i = 0; i < b.nx; ++i) {
      const int h = choose(k == b.nz / 2 && i == 1 ? "height" : "other_heights", 0, b.ny);
      for (int j = 0; j + 1 < h; ++j) b.m.w[b.id(i, j, k)][b.id(i, j + 1, k)] = b.m.w[b.id(i, j + 1, k)][b.id(i, j, k)] = 128 + j;
    }
  rows(b.m);
  distinct(b.m, 5);
  if (chooseb("free")) b.m.prio[b.m.n / 2] = 2 * sym_f64("priority", 0, 0, 37) + 1;
  return b.m;
}

#if PROP == 34
// another order of the faces of each cell
static Mesh other(const Mesh &m, int kind) {
  Mesh q = m;
  for (int i = 0; i < m.n; ++i) {
    auto c = q.col.begin() + m.row[i], ce = q.col.begin() + m.row[i + 1];
    auto a = q.area.begin() + m.row[i], ae = q.area.begin() + m.row[i + 1];
    const int d = (int)(ce - c);
    if (d < 2) continue;
    if (kind == 0) { std::reverse(c, ce); std::reverse(a, ae); }
    else if (kind == 1) { std::rotate(c, c + 1, ce); std::rotate(a, a + 1, ae); }
    else if (kind == 2) { std::rotate(c, c + i % d, ce); std::rotate(a, a + i % d, ae); }
    else {
      // any place of any cell may come first
      const int k = (int)sym_concrete(sym_i32("first_face", i, 0, d - 1));
      std::swap(c[0], c[k]); std::swap(a[0], a[k]);
    }
  }
  return q;
}
static void judge(const Mesh &m, const Conf &c, int kind) {
  const Mesh q = other(m, kind);
  Res a, b;
  agglo(m, c, a);
  agglo(q, c, b);
  if (q.col != m.col) sym_cover("listed in another order");
  sym_assert(a.idx == b.idx, "C34 the same lines");
  sym_assert(a.lines == b.lines, "C34 the same lines");
  sym_assert(a.f2c.size() == b.f2c.size(), "C34 as many cells");
  // after lines, the cells next to them are taken in the order listed
  for (int i = 0; i < m.n; ++i)
    sym_assert(a.lines.empty() ? a.f2c[i] == b.f2c[i] : (a.f2c[i] < a.lines.size() || b.f2c[i] < a.lines.size()) ? a.f2c[i] == b.f2c[i] : true, "C34 the same coarse cells");
  VI ri, rj, si, sj; VD wa, wb, va, vb, pa, pb; std::vector<VD> ca, cb; std::vector<int> na, nb;
  comma::build_coarse_graph<UL, double, int>(a.f2c, m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.nbnd, ri, rj, wa, va, ca, pa, na);
  comma::build_coarse_graph<UL, double, int>(a.f2c, q.row, q.col, q.area, q.vol, q.ctr, q.prio, q.nbnd, si, sj, wb, vb, cb, pb, nb);
  bool ok = ri == si && rj.size() == sj.size() && wa.size() == wb.size() && wa.size() == rj.size() && va.size() == vb.size() && pa.size() == pb.size() && ca == cb && na == nb;
  sym_assert(ok, "C34 the same coarse graph");
  bool eq = true;
  for (size_t k = 0; k + 1 < ri.size(); ++k)
    for (UL x = ri[k]; x < ri[k + 1]; ++x) {
      bool f = false;
      for (UL y = ri[k]; y < ri[k + 1]; ++y) f = f | ((rj[x] == sj[y]) & (wa[x] == wb[y]));
      eq = eq & f;
    }
  for (size_t k = 0; k < va.size(); ++k) eq = eq & (va[k] == vb[k]) & (pa[k] == pb[k]);
  sym_assert(eq, "C34 the same coarse graph");
  std::vector<int> da, db;
  const VI wall{0};
  comma::compute_neighbourhood_based_wall_distance<UL, int>(m.row, m.col, wall, da);
  comma::compute_neighbourhood_based_wall_distance<UL, int>(q.row, q.col, wall, db);
  sym_assert(da == db, "C34 the same distances from the wall");
  observe(a);
}
static void small_(Mesh &m, int w) {
  Geo g; g.w = w; g.hi = 50; g.prio = T() || m.n < 5 ? 1 : 2; g.bnd = T(); g.bhi = 1; fill(m, g);
  Conf c; c.min = choose("min", 2, T() ? 3 : 2); c.goal = c.max = choose("max", 3, T() ? 4 : 3);
  c.pool = poolOf(choose("pool", 0, T() ? 3 : 1)); c.correction = true; c.neigh = neighOf(T() ? choose("front", 0, 1) : c.pool == poolOf(1)); c.ar = AR::EXTERNAL_WEIGHTS;
  judge(m, c, T() || m.n < 5 ? 3 : choose("order", 0, 2));
}
static void s4() { Mesh m; topoClass(m, 4, true); small_(m, 0); }
static void s5() { Mesh m; topoClass(m, 5, true); small_(m, 2); }
static void weights() {
  Mesh m; topoGrid(m, 3, 2);
  Geo g; g.w = 1; g.hi = 50; g.prio = 2; g.bnd = 0; fill(m, g);
  Conf c; c.min = c.goal = c.max = 3; c.ar = AR::EXTERNAL_WEIGHTS;
  judge(m, c, choose("order", 0, 2));
}
static void large() {
  Mesh m; largeMesh(m);
  Conf c; largeCards(c, T() ? 7 : 2); c.pool = poolOf(choose("pool", 0, 3)); c.correction = true; c.sing = 2; c.neigh = neighOf(choose("front", 0, 1));
  c.ar = measure(0, T() ? 7 : 1); c.iter = T() ? choose("iter", 1, 2) : 1 + (c.goal == 4);
  // boundary faces are estimated by a quotient, whose rounding depends on the order
  if (c.ar == AR::EXTERNAL_WEIGHTS || c.ar == AR::PERIMETER_OVER_RADIUS || c.ar == AR::ALGEBRAIC_PERIMETER_OVER_MEASURE) for (auto &x : m.nbnd) x = x > 0 && m.n % 2;
  judge(m, c, T() ? choose("order", 0, 2) : choose("order", 0, 1) * 2);
}
static void layers() {
  Mesh m = layered();
  Conf c; c.min = 2; c.goal = 3; c.max = 4; c.aniso = c.build = true; c.odd = T() ? chooseb("odd") : true; c.pool = poolOf(choose("pool", 0, T())); c.thresh = chooseb("all") ? -1 : 4;
  c.force = chooseb("straight"); c.coupling = chooseb("distance") ? CoMMACellCouplingT::MIN_DISTANCE : CoMMACellCouplingT::MAX_WEIGHT;
  judge(m, c, T() ? choose("order", 0, 2) : choose("order", 0, 1) * 2);
}
CASES({"4 cells", 0, s4}, {"5 cells", 0, s5}, {"any weights", 0, weights}, {"some dozens of cells", 0, large}, {"layers of cells", 0, layers})
#endif

#if PROP == 35
static std::vector<int> permutation(int n, int kind) {
  std::vector<int> p(n);
  int a = 0, b = 0;
  if (kind == 2) { a = choose("exchanged", 0, n - 2); b = choose("with", 1, n - 1); sym_assume(a < b); }
  for (int i = 0; i < n; ++i) {
    if (kind == 0) p[i] = n - 1 - i;
    else if (kind == 1) p[i] = (i + n / 2) % n;
    else if (kind == 2) p[i] = i == a ? b : i == b ? a : i;
    else p[i] = i % 2 ? i / 2 : (n - 1) - i / 2;
  }
  return p;
}
// old cell i becomes p[i]; its faces keep their order
static Mesh renumbered(const Mesh &m, const std::vector<int> &p) {
  Mesh q = m;
  std::vector<int> old(m.n);
  for (int i = 0; i < m.n; ++i) old[p[i]] = i;
  q.row.assign(1, 0); q.col.clear(); q.area.clear(); q.compliant.clear();
  for (int i = 0; i < m.n; ++i) {
    const int o = old[i];
    for (UL e = m.row[o]; e < m.row[o + 1]; ++e) { q.col.push_back(p[m.col[e]]); q.area.push_back(m.area[e]); }
    q.row.push_back(q.col.size());
    q.vol[i] = m.vol[o]; q.prio[i] = m.prio[o]; q.ctr[i] = m.ctr[o]; q.nbnd[i] = m.nbnd[o];
  }
  for (UL x : m.compliant) q.compliant.push_back(p[x]);
  return q;
}
static void judge(const Mesh &m, const Conf &c, const Res &in, int kind) {
  const auto p = permutation(m.n, kind);
  const Mesh q = renumbered(m, p);
  Res a = in, b = in;
  for (UL &x : b.lines) x = p[x];
  agglo(m, c, a);
  agglo(q, c, b);
  sym_assert(a.f2c.size() == b.f2c.size(), "C35 as many cells");
  for (int i = 0; i < m.n; ++i) sym_assert(a.f2c[i] == b.f2c[p[i]], "C35 the same coarse cells");
  sym_assert(a.idx == b.idx, "C35 the same lines");
  sym_assert(a.lines == b.lines, "C35 the same lines");
  sym_cover("renumbered");
  if (!a.lines.empty()) sym_cover("with lines");
  observe(a);
}
static void small_(Mesh &m, int kinds) {
  Geo g; g.bnd = m.n < 5 ? 1 : 0; g.bhi = 1; fill(m, g);
  for (int i = 0; i < m.n; ++i) for (int j = 0; j < i; ++j) sym_assume(m.prio[i] != m.prio[j]);
  Conf c; c.min = choose("min", 2, 3); c.goal = c.max = choose("max", 3, 4); c.min = std::min(c.min, c.goal);
  c.pool = poolOf(choose("pool", 0, T() ? 3 : 1)); c.correction = true; c.ar = AR::EXTERNAL_WEIGHTS;
  judge(m, c, Res(), choose("numbering", 0, kinds));
}
static void s4() { Mesh m; topoClass(m, 4, true); small_(m, T() ? 3 : 0); }
static void s5() { Mesh m; topoClass(m, 5, true); small_(m, 0); }
static void large() {
  Mesh m; const int k = largeMesh(m);
  distinct(m, 5);
  if (chooseb("free")) m.prio[m.n / 3] = 2 * sym_f64("priority_of_one", 0, 0, 37) + 1;
  Conf c; largeCards(c, T() ? 7 : 2); c.pool = poolOf(choose("pool", 0, 3)); c.correction = true; c.sing = 2; c.neigh = neighOf(choose("front", 0, 1));
  c.ar = measure(0, T() ? 7 : 1); c.iter = choose("iter", 1, 2);
  if (k > TRIANGLES) for (auto &x : m.nbnd) x = x > 0;
  judge(m, c, Res(), T() ? choose("numbering", 0, 3) : choose("numbering", 0, 1) * 3);
}
static void exchange() {
  Mesh m; { Box b(4, 4, 1); m = b.m; }
  distinct(m, 5);
  m.prio[5] = 2 * sym_f64("priority", 0, 0, 37) + 1;
  Conf c; c.min = 2; c.goal = 3; c.max = 4; c.pool = poolOf(choose("pool", 0, 3)); c.correction = true; c.ar = AR::DIAMETER_OVER_RADIUS;
  judge(m, c, Res(), 2);
}
static void layers() {
  Mesh m = layered();
  Conf c; c.min = 2; c.goal = 3; c.max = 4; c.aniso = c.build = true; c.odd = chooseb("odd"); c.pool = poolOf(choose("pool", 0, 1)); c.thresh = 4;
  c.force = chooseb("straight"); c.correction = true;
  judge(m, c, Res(), T() ? choose("numbering", 0, 3) : choose("numbering", 0, 1) * 3);
}
static void given() {
  Mesh m; { Box b(4, 3, 1); m = b.m; }
  distinct(m, 5);
  Conf c; c.min = c.goal = c.max = 2; c.aniso = true; c.odd = chooseb("odd"); c.correction = true;
  const int l = choose("limit", 0, 4); if (l) c.maxline = l;
  Res r; LinesIn li; giveLines(m, r, li, 1, T() ? 5 : 4, true);
  judge(m, c, r, choose("numbering", 0, 1) * 3);
}
CASES({"4 cells", 0, s4}, {"5 cells", 0, s5}, {"two cells exchanged", 0, exchange}, {"some dozens of cells", 0, large}, {"layers of cells", 0, layers}, {"given line", 0, given})
#endif

#if PROP == 36
struct Units { double area = 1, vol = 1, len = 1; };
static Units units(int &axes) {
  static const double t[][3] = {{1, 1, 1}, {0x1p20, 1, 1}, {1, 0x1p-12, 1}, {1, 1, 0x1p10}, {0x1p-40, 0x1p-36, 0x1p-30}, {0x1p30, 0x1p40, 0x1p20}};
  const int k = choose("units", 0, 5);
  axes = T() ? choose("axes", 0, 2) : (k + 1) % 3;
  return {t[k][0], t[k][1], t[k][2]};
}
static Mesh redrawn(const Mesh &m, const Units &u, int axes, const double *shift) {
  Mesh q = m;
  for (double &x : q.area) x = u.area * x;
  for (double &x : q.vol) x = u.vol * x;
  for (auto &p : q.ctr) {
    for (double &x : p) x = u.len * x;
    if (axes == 1) std::rotate(p.begin(), p.begin() + 1, p.end());
    if (axes == 2) p[0] = -p[0];
    if (shift) for (size_t d = 0; d < p.size(); ++d) p[d] = p[d] + shift[d];
  }
  return q;
}
static void judge(const Mesh &m, const Conf &c, const Mesh &q) {
  Res a, b;
  agglo(m, c, a);
  agglo(q, c, b);
  sym_assert(same(a, b), "C36 the same result");
  sym_cover("described in another way");
  if (!a.lines.empty()) sym_cover("with lines");
  observe(a);
}
// any areas or volumes
static void measures() {
  sym_mode(1);
  Mesh m; topoGrid(m, 3, 2);
  const bool v = chooseb("volumes");
  Geo g; g.w = v ? 0 : 1; g.vol = v; g.hi = 50; g.prio = 2; g.bnd = 0; fill(m, g);
  Conf c; c.min = c.goal = c.max = 3; c.ar = v ? AR::ONE_OVER_MEASURE : AR::EXTERNAL_WEIGHTS;
  int axes;
  const Units u = units(axes);
  judge(m, c, redrawn(m, u, axes, nullptr));
}
// any origin
static void origin() {
  sym_mode(1);
  Mesh m; largeMesh(m);
  double s[3];
  for (int d = 0; d < 3; ++d) s[d] = sym_f64("shift", d, -1000000, 1000000);
  Conf c; largeCards(c, T() ? 4 : 1); c.pool = poolOf(choose("pool", 0, 1)); c.correction = true;
  static const AR t[] = {AR::DIAMETER_OVER_RADIUS, AR::DIAMETER_OVER_MIN_EDGE, AR::DIAMETER};
  c.ar = t[choose("ratio", 0, 2)];
  judge(m, c, redrawn(m, Units(), 0, s));
}
static void large() {
  Mesh m; largeMesh(m);
  Conf c; largeCards(c, T() ? 7 : 2); c.pool = poolOf(choose("pool", 0, T() ? 3 : 1)); c.correction = true; c.sing = 2; c.neigh = neighOf(choose("front", 0, 1));
  c.ar = measure(0, 9); c.iter = T() ? choose("iter", 1, 2) : 1;
  int axes;
  const Units u = units(axes);
  // a barycentre is a quotient: its rounding depends on the axes
  judge(m, c, redrawn(m, u, c.ar >= AR::MAX_BARY_DIST_OVER_RADIUS ? 0 : axes, nullptr));
}
static void layers() {
  Mesh m = layered();
  Conf c; c.min = 2; c.goal = 3; c.max = 4; c.aniso = c.build = true; c.odd = T() ? chooseb("odd") : true; c.pool = poolOf(choose("pool", 0, T())); c.thresh = 4;
  c.force = chooseb("straight"); c.coupling = chooseb("distance") ? CoMMACellCouplingT::MIN_DISTANCE : CoMMACellCouplingT::MAX_WEIGHT;
  int axes;
  const Units u = units(axes);
  judge(m, c, redrawn(m, u, axes, nullptr));
}
static void linesOrigin() {
  sym_mode(1);
  Mesh m = layered();
  double s[3];
  for (int d = 0; d < 3; ++d) s[d] = sym_f64("shift", d, -1000000, 1000000);
  Conf c; c.min = 2; c.goal = 3; c.max = 4; c.aniso = c.build = true; c.thresh = 4; c.force = chooseb("straight");
  c.coupling = chooseb("distance") ? CoMMACellCouplingT::MIN_DISTANCE : CoMMACellCouplingT::MAX_WEIGHT;
  judge(m, c, redrawn(m, Units(), 0, s));
}
CASES({"any areas or volumes", 0, measures}, {"any origin", 0, origin}, {"any origin, layers", 0, linesOrigin}, {"some dozens of cells", 0, large}, {"layers of cells", 0, layers})
#endif
