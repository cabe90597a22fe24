// Free functions and graph helpers: C16 orders, C17 wall distance, C18 filter, C19 coarse graph, C22 subgraph,
// C23 compactness, C26 directions and distances.
#ifndef PROP
#define PROP 16
#endif
#if PROP == 19 || PROP == 23
#define CELLS 36
#include "box.h"
#endif
#include "common.h"
static bool T() { return sym_tier() != 0; }
static bool close(double a, double b) {
  double d = a - b;
  return d < 0x1p-20 && d > -0x1p-20;
}

#if PROP == 16
using P = std::pair<UL, double>;
static P pairOf(int k) { return {(UL)sym_i64("index", k, 0, 1000000), sym_f64("value", k, -1000, 1000)}; }
template<class F>
static void strict(F f, const P &a, const P &b, const P &c, const char *irr, const char *asym, const char *tr) {
  sym_assert(!f(a, a), irr);
  sym_assert(!(f(a, b) && f(b, a)), asym);
  if (f(a, b) && f(b, c)) sym_assert(f(a, c), tr);
}
static void orders() {
  P a = pairOf(0), b = pairOf(1), c = pairOf(2);
  comma::CustomPairLessFunctor<P> less;
  comma::CustomPairGreaterFunctor<P> greater;
#ifndef REDUCED
  comma::PairSecondBasedLessFunctor<P> second;
#else
  auto second = [](const P &x, const P &y) { return x.second < y.second; };
#endif
  strict(less, a, b, c, "C16 less irreflexive", "C16 less asymmetric", "C16 less transitive");
  strict(greater, a, b, c, "C16 greater irreflexive", "C16 greater asymmetric", "C16 greater transitive");
  strict(second, a, b, c, "C16 second irreflexive", "C16 second asymmetric", "C16 second transitive");
  const bool same = a.first == b.first && a.second == b.second;
  sym_assert(same || less(a, b) || less(b, a), "C16 less total");
  sym_assert(same || greater(a, b) || greater(b, a), "C16 greater total");
  sym_assert(less(a, b) == greater(b, a), "C16 converse");
  if (a.second > b.second) {
    sym_cover("different priorities");
    sym_assert(greater(a, b) && less(b, a), "C16 higher priority first");
    sym_assert(second(b, a) && !second(a, b), "C16 order by the second value");
  } else if (a.second == b.second && a.first < b.first) {
    sym_cover("equal priorities");
    sym_assert(greater(a, b) && less(b, a), "C16 ties by the lower index");
    sym_assert(!second(a, b) && !second(b, a), "C16 only the second value counts");
  }
}
static void equalOnly() {
  // incomparability is transitive as well (what a container needs)
  P a = pairOf(0), b = pairOf(1), c = pairOf(2);
#ifndef REDUCED
  comma::PairSecondBasedLessFunctor<P> s;
  auto inc = [&](const P &x, const P &y) { return !s(x, y) && !s(y, x); };
  if (inc(a, b) && inc(b, c)) sym_assert(inc(a, c), "C16 incomparability transitive");
#endif
  comma::PairFindFirstBasedFunctor<P> f(a.first);
  sym_assert(f(b) == (a.first == b.first), "C16 search by the first value");
}
static void container() {
  // order of a set of (cell, priority) pairs
  const int n = T() ? 5 : 4;
  std::set<P, comma::CustomPairGreaterFunctor<P>> s;
  for (int i = 0; i < n; ++i) s.emplace((UL)i, sym_f64("value", i, -1000, 1000));
  sym_assert((int)s.size() == n, "C16 nothing is lost in a set");
  const P *prev = nullptr;
  for (auto &p : s) {
    if (prev) sym_assert(prev->second > p.second || (prev->second == p.second && prev->first < p.first), "C16 set order");
    prev = &p;
  }
#ifndef REDUCED
  auto v = comma::vector_of_first_elements(s);
  size_t k = 0;
  sym_assert(v.size() == s.size(), "C16 first elements: size");
  for (auto &p : s) sym_assert(v[k++] == p.first, "C16 first elements");
  for (auto x : v) sym_observe(x);
#endif
  std::unordered_map<UL, double> mp(s.begin(), s.end());
  auto keys = comma::d_keys_to_set(mp);
  sym_assert(keys.size() == s.size(), "C16 keys: size");
  for (int i = 0; i < n; ++i) sym_assert(keys.count(i) == 1, "C16 keys");
}
CASES({"any three pairs", 0, orders}, {"equal elements", 0, equalOnly}, {"ordered container", 0, container})
#endif

#if PROP == 17
static void wallOf(Mesh &m) {
  fill(m, Geo{0, 0, 0, 0, 0});
  VI wall;
  bool in[MAXN] = {};
  for (int i = 0; i < m.n; ++i)
    if (sym_bool("wall", i)) { in[i] = true; wall.push_back(i); }
  if (!wall.empty() && chooseb("repeated")) wall.push_back(wall[0]);
  if (chooseb("reverse_wall")) std::reverse(wall.begin(), wall.end());
  std::vector<int> d(choose("previous_size", 0, 1) * 3, 7);
  comma::compute_neighbourhood_based_wall_distance<UL, int>(m.row, m.col, wall, d);
  sym_assert((int)d.size() == m.n, "C17 one distance per cell");
  int e[MAXN];
  for (int i = 0; i < m.n; ++i) e[i] = in[i] ? 0 : -1;
  for (int s = 0; s < m.n; ++s)
    for (int i = 0; i < m.n; ++i)
      if (e[i] < 0)
        for (int j = 0; j < m.n; ++j)
          if (m.adj[i][j] && e[j] == s) { e[i] = s + 1; break; }
  for (int i = 0; i < m.n; ++i) {
    sym_assert(e[i] < 0 ? d[i] < 0 : d[i] == e[i], "C17 distance to the wall");
    if (e[i] > 1) sym_cover("distance above one");
    if (e[i] < 0 && !wall.empty()) sym_cover("unreachable cell");
    sym_observe(d[i]);
  }
}
static void w4() { Mesh m; topoAll(m, 4); wallOf(m); }
static void w5() { Mesh m; if (T()) topoAll(m, 5); else { topoClass(m, 5, chooseb("connected")); if (chooseb("reversed")) relabelReverse(m); } wallOf(m); }
static void w6() { Mesh m; topoClass(m, 6, T() ? chooseb("connected") : true); if (T() && chooseb("reversed")) relabelReverse(m); wallOf(m); }
static void w9() { Mesh m; topoGrid(m, 3, T() ? 3 : 2); wallOf(m); }
static void chain() {
  // numbering of a chain is free
  Mesh m; m.n = T() ? 7 : 6;
  std::vector<int> p;
  bool used[MAXN] = {};
  for (int i = 0; i < m.n; ++i) {
    int c = (int)sym_concrete(sym_i32("next", i, 0, m.n - 1));
    sym_assume(!used[c]);
    used[c] = true;
    if (i) edge(m, p.back(), c);
    p.push_back(c);
  }
  fill(m, Geo{0, 0, 0, 0, 0});
  VI wall{0};
  std::vector<int> d;
  comma::compute_neighbourhood_based_wall_distance<UL, int>(m.row, m.col, wall, d);
  int at = 0;
  for (int i = 0; i < m.n; ++i) if (p[i] == 0) at = i;
  for (int i = 0; i < m.n; ++i) sym_assert(d[p[i]] == std::abs(i - at), "C17 distance along a chain");
}
// hundreds of cells, one or two of them on the wall
static void far_() {
  const int n = 300, kind = choose("shape", 0, 3);
  std::vector<std::vector<int>> nb(n);
  auto link = [&](int a, int b) { nb[a].push_back(b); nb[b].push_back(a); };
  for (int i = 1; i < n; ++i) {
    if (kind == 0) link(i - 1, i);
    else if (kind == 1) { if (i % 20) link(i - 1, i); if (i >= 20) link(i - 20, i); }
    else if (kind == 2) link(i == 150 ? 1 : 0, i);
    else if (i != 200) link((i - 1) / 2 >= 200 ? i - 1 : i > 200 ? i - 1 : (i - 1) / 2, i);
  }
  VI row{0}, col;
  for (auto &l : nb) { std::sort(l.begin(), l.end()); if (row.size() % 2 == 0) std::reverse(l.begin(), l.end()); for (int j : l) col.push_back(j); row.push_back(col.size()); }
  VI wall{(UL)choose("wall", 0, n - 1)};
  if (chooseb("second")) wall.push_back(n - 1);
  std::vector<int> d, e(n, -1), q;
  comma::compute_neighbourhood_based_wall_distance<UL, int>(row, col, wall, d);
  for (UL w : wall) if (e[w] < 0) { e[w] = 0; q.push_back((int)w); }
  for (size_t k = 0; k < q.size(); ++k) for (int j : nb[q[k]]) if (e[j] < 0) { e[j] = e[q[k]] + 1; q.push_back(j); }
  bool ok = (int)d.size() == n;
  for (int i = 0; ok && i < n; ++i) ok = e[i] < 0 ? d[i] < 0 : d[i] == e[i];
  sym_assert(ok, "C17 distance to the wall");
}
CASES({"hundreds of cells", 0, far_}, {"4 cells, every graph and wall", 0, w4}, {"5 cells, every wall", 0, w5}, {"6 cells, every wall", 0, w6}, {"grid, every wall", 0, w9},
      {"chain, every numbering", 0, chain})
#endif

#if PROP == 18
static void filterOf(int n, int lo, int hi, int maxb) {
  VI row{0};
  std::vector<int> bnd;
  for (int i = 0; i < n; ++i) {
    row.push_back(row.back() + (UL)sym_concrete(sym_i64("neighbours", i, 0, maxb)));
    bnd.push_back((int)sym_concrete(sym_i32("boundary", i, 0, maxb)));
  }
  std::unordered_set<int> allowed;
  bool ok[20] = {};
  for (int v = lo; v <= hi; ++v)
    if (sym_bool("allowed", v - lo)) { allowed.insert(v); if (v > 0) ok[v] = true; }
  VI out(choose("previous_size", 0, 1) * 2, 1);
  comma::filter_cells_by_n_edges<UL, int>(row, bnd, allowed, out);
  size_t k = 0;
  for (int i = 0; i < n; ++i) {
    const int f = (int)(row[i + 1] - row[i]) + bnd[i];
    bool want = false;
    for (int v = 1; v <= hi; ++v) if (ok[v] && f == v) want = true;
    if (want) {
      sym_cover("kept cell");
      const bool there = k < out.size() && out[k] == (UL)i;
      sym_assert(there, "C18 an allowed cell is kept, in order");
      if (!there) return;
      ++k;
    }
  }
  sym_assert(k == out.size(), "C18 nothing else is kept");
  for (UL v : out) sym_observe(v);
}
static void f2() { filterOf(2, 0, 4, T() ? 3 : 2); }
static void f3() { filterOf(3, 1, T() ? 4 : 3, T() ? 2 : 1); }
static void f1() { filterOf(1, -2, T() ? 9 : 7, T() ? 5 : 4); }
// many cells, many edges
static void many() {
  const int n = 40;
  VI row{0};
  std::vector<int> bnd;
  for (int i = 0; i < n; ++i) { row.push_back(row.back() + (i == 30 ? 300 : i * i % 23)); bnd.push_back(i == 31 ? 70000 : i % 5 ? i % 3 : 20); }
  const int a = choose("cell", 0, n - 1), b = choose("other", 0, 7) * 5, g = choose("gap", 0, 2) - 1;
  const int va = (int)(row[a + 1] - row[a]) + bnd[a] + g, vb = (int)(row[b + 1] - row[b]) + bnd[b];
  std::unordered_set<int> allowed{va, vb};
  VI out, ref;
  comma::filter_cells_by_n_edges<UL, int>(row, bnd, allowed, out);
  for (int i = 0; i < n; ++i) { const int f = (int)(row[i + 1] - row[i]) + bnd[i]; if (f > 0 && (f == va || f == vb)) ref.push_back(i); }
  sym_assert(out == ref, "C18 exactly the allowed cells");
}
CASES({"many cells", 0, many}, {"1 cell", 0, f1}, {"2 cells, any counts", 0, f2}, {"3 cells", 0, f3})
#endif

#if PROP == 19
struct Coarse { VI idx, adj; VD w, vol, prio; std::vector<VD> ctr; std::vector<int> bnd; };
// what = 0: weights, priorities and boundary counts; 1: centres; 2: volumes and centres
static void coarseOf(Mesh &m, const VI &f2c, int ncc, int what, double unit = 1) {
  Coarse c;
  if (chooseb("used_outputs")) {
    c.idx = {3, 1}; c.adj = {5}; c.w = {1, 2}; c.vol = {9}; c.prio = {8, 8, 8}; c.ctr = {{1, 1}}; c.bnd = {4};
  }
  comma::build_coarse_graph<UL, double, int>(f2c, m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.nbnd, c.idx, c.adj, c.w,
                                             c.vol, c.ctr, c.prio, c.bnd);
  sym_assert((int)c.idx.size() == ncc + 1 && (int)c.vol.size() == ncc && (int)c.prio.size() == ncc && (int)c.bnd.size() == ncc
               && (int)c.ctr.size() == ncc && c.adj.size() == c.w.size() && c.idx.back() == c.adj.size() && c.idx[0] == 0,
             "C19 sizes");
  auto g = groups(f2c, ncc);
  for (int k = 0; k < ncc; ++k) {
    double vol = 0, mom[3] = {0, 0, 0};
    int b = 0;
    for (int f : g[k]) {
      vol += m.vol[f];
      for (size_t d = 0; d < m.ctr[f].size(); ++d) mom[d] += m.vol[f] * m.ctr[f][d];
      b = std::max(b, m.nbnd[f]);
    }
    sym_assert(close(c.vol[k], vol), "C19 volume is the sum");
    sym_assert(c.bnd[k] == b, "C19 boundary count is the maximum");
    bool reached = false;
    for (int f : g[k]) {
      sym_assert(c.prio[k] >= m.prio[f], "C19 priority is the maximum");
      if (c.prio[k] == m.prio[f]) reached = true;
    }
    sym_assert(reached, "C19 priority is that of a fine cell");
    sym_assert(c.ctr[k].size() == m.ctr[0].size(), "C19 dimension of the centre");
    if (what) {
      for (size_t d = 0; d < m.ctr[0].size(); ++d) {
        const double e = c.ctr[k][d] * vol - mom[d];
        sym_assert(e < unit * 0x1p-10 && e > -unit * 0x1p-10, "C19 centre is the weighted mean");
      }
    }
    UL at = c.idx[k];
    for (int q = 0; q < ncc; ++q) {
      double w = 0;
      bool touch = false;
      if (q != k)
        for (int x : g[k]) for (int y : g[q]) if (m.adj[x][y]) { touch = true; w += m.w[x][y]; }
      if (!touch) continue;
      sym_cover("coarse face");
      const bool there = at < c.idx[k + 1] && at < c.adj.size() && c.adj[at] == (UL)q;
      sym_assert(there, "C19 adjacency, sorted");
      if (!there) return;
      sym_assert(close(c.w[at], w), "C19 face weight is the sum");
      ++at;
    }
    sym_assert(at == c.idx[k + 1], "C19 nothing else is adjacent");
  }
  for (UL v : c.adj) sym_observe(v);
  for (double v : c.w) sym_observe_f(v);
  for (double v : c.vol) sym_observe_f(v);
}
// any partition: cell i goes to a known coarse cell or to a new one; labels reversed on request
static int anyPartition(const Mesh &m, VI &f2c) {
  int k = 0;
  for (int i = 0; i < m.n; ++i) {
    const int c = (int)sym_concrete(sym_i32("coarse_cell", i, 0, k));
    f2c.push_back(c);
    if (c == k) ++k;
  }
  if (k > 1 && chooseb("reverse_labels")) for (auto &c : f2c) c = k - 1 - c;
  return k;
}
static void run(Mesh &m, int what) {
  Geo g;
  if (what == 0) { g.w = 1; g.vol = 1; g.prio = 1; g.bnd = 1; g.bhi = 3; }
  else if (what == 1) { g.vol = 1; g.ctr = 1; g.prio = 2; g.bnd = 2; }
  else { g.vol = 1; g.ctr = 2; g.prio = 2; g.bnd = 2; }
  fill(m, g);
  VI f; const int k = anyPartition(m, f);
  coarseOf(m, f, k, what);
}
static void c3() { Mesh m; topoAll(m, 3); run(m, 0); }
static void c4() { Mesh m; topoAll(m, 4); run(m, 0); }
static void c4c() { sym_mode(1); Mesh m; m.dim = choose("dimension", 2, 3); setMask(m, 4, 0x3f); run(m, 1); }
static void c3v() { sym_mode(1); Mesh m; setMask(m, 3, 7); run(m, 2); }
static void c5() { Mesh m; topoClass(m, 5, true); run(m, 0); }
static void grid() {
  Mesh m; topoGrid(m, 3, 2);
  Geo g; g.w = 1; g.vol = 1; g.prio = 2; g.bnd = 2; fill(m, g);
  VI f; const int k = anyPartition(m, f);
  coarseOf(m, f, k, 0);
}
// some dozens of cells in blocks, or what an agglomeration made of them
static void large() {
  Mesh m; largeMesh(m);
  const int b = m.n / 3, e = m.n - 2;
  int nb = 0;
  while (!m.adj[e][nb]) ++nb;
  m.w[e][nb] = m.w[nb][e] = sym_f64("weight", 0, 1, 1000);
  const bool centres = chooseb("centres");
  double unit = 1;
  if (!centres) m.vol[b] = sym_f64("volume", b, 1, 1000);
  else {
    // volumes are not of the order of one in every mesh
    static const double u[] = {1, 0x1p-50, 0x1p50};
    unit = u[choose("unit", 0, 2)];
    for (double &v : m.vol) v *= unit;
  }
  m.nbnd[b] = sym_i32("boundary", b, 0, 1000);
  areas(m);
  VI f; int k = 0;
  const int part = choose("partition", 0, 5);
  if (part == 4) {
    Conf c; c.min = c.goal = 4; c.max = 6; c.neigh = CoMMANeighbourhoodT::PURE_FRONT;
    Res r; agglo(m, c, r); f = r.f2c;
    sym_assert(isPartition(m, f, k), "partition");
  } else if (part == 5) {
    // a large one among single cells
    for (int i = 0; i < m.n; ++i) f.push_back(i < m.n / 2 ? 0 : i - m.n / 2 + 1);
    k = m.n - m.n / 2 + 1;
  } else {
    static const int size[] = {1, 4, 9, 36};
    for (int i = 0; i < m.n; ++i) f.push_back(part == 2 ? (i * 5 % m.n) / size[part] : i / size[part]);
    for (UL v : f) k = std::max(k, (int)v + 1);
    if (part == 2) { std::vector<bool> u(k, false); for (UL v : f) u[v] = true; if (std::count(u.begin(), u.end(), false)) return; }
  }
  coarseOf(m, f, k, centres, unit);
}
CASES({"some dozens of cells", 0, large}, {"3 cells, every graph and partition", 0, c3}, {"4 cells, every partition", 0, c4}, {"4 cells, centres", 0, c4c}, {"3 cells, volumes and centres", 0, c3v},
      {"3x2 grid, every partition", 0, grid}, {"5 cells, every partition", 0, c5})
#endif

#if PROP == 22
using SG = comma::Subgraph<UL, double, int>;
// the graph is compared by its meaning: named nodes, volumes, symmetric weighted edges
struct Named { std::vector<UL> node; VD vol; double w[64][64]; bool a[64][64] = {}; };
#ifndef REDUCED
static void same(SG &s, const std::vector<UL> &nodes, const bool (&a)[8][8], const double (&w)[8][8], const double *vol) {
  // nodes: local order expected not imposed, names are global
  const size_t n = nodes.size();
  const bool sz = s._mapping_l_to_g.size() == n && s._m_CRS_Row_Ptr.size() == n + 1 && s._volumes.size() == n
                  && s._m_CRS_Col_Ind.size() == s._m_CRS_Values.size() && s._m_CRS_Row_Ptr[0] == 0
                  && s._m_CRS_Row_Ptr[n] == s._m_CRS_Col_Ind.size();
  sym_assert(sz, "C22 consistent sizes");
  if (!sz) return;
  for (size_t i = 0; i < n; ++i) {
    const UL gi = s._mapping_l_to_g[i];
    sym_assert(std::find(nodes.begin(), nodes.end(), gi) != nodes.end(), "C22 expected nodes");
    if (gi >= 8) return;
    sym_assert(s._volumes[i] == vol[gi], "C22 volume of a node");
    bool seen[8] = {};
    const bool mono = s._m_CRS_Row_Ptr[i] <= s._m_CRS_Row_Ptr[i + 1] && s._m_CRS_Row_Ptr[i + 1] <= s._m_CRS_Col_Ind.size();
    sym_assert(mono, "C22 row pointers increase");
    if (!mono) return;
    for (UL e = s._m_CRS_Row_Ptr[i]; e < s._m_CRS_Row_Ptr[i + 1]; ++e) {
      const bool in = s._m_CRS_Col_Ind[e] < n;
      sym_assert(in, "C22 neighbours exist");
      if (!in) return;
      const UL gj = s._mapping_l_to_g[s._m_CRS_Col_Ind[e]];
      sym_assert(gj < 8 && a[gi][gj] && !seen[gj], "C22 only expected edges, once");
      if (gj >= 8) return;
      seen[gj] = true;
      sym_assert(s._m_CRS_Values[e] == w[gi][gj], "C22 weight of an edge");
    }
    for (UL gj : nodes) sym_assert(seen[gj] == a[gi][gj], "C22 every expected edge");
  }
}
#else
static void same(SG &s, const std::vector<UL> &nodes, const bool (&a)[8][8], const double (&w)[8][8], const double *vol) {
  const size_t n = nodes.size();
  const bool sz = s._mapping_l_to_g.size() == n && s._volumes.size() == n;
  sym_assert(sz, "C22 consistent sizes");
  if (!sz) return;
  size_t e = 0;
  for (size_t i = 0; i < n; ++i) {
    const UL gi = s._mapping_l_to_g[i];
    sym_assert(std::find(nodes.begin(), nodes.end(), gi) != nodes.end(), "C22 expected nodes");
    if (gi >= 8) return;
    sym_assert(s._volumes[i] == vol[gi], "C22 volume of a node");
    bool seen[8] = {};
    for (UL j : s.get_neighbours(i)) {
      const bool in = j < n && e < s._m_CRS_Values.size();
      sym_assert(in, "C22 neighbours exist");
      if (!in) return;
      const UL gj = s._mapping_l_to_g[j];
      sym_assert(gj < 8 && a[gi][gj] && !seen[gj], "C22 only expected edges, once");
      if (gj >= 8) return;
      seen[gj] = true;
      sym_assert(s._m_CRS_Values[e++] == w[gi][gj], "C22 weight of an edge");
    }
    for (UL gj : nodes) sym_assert(seen[gj] == a[gi][gj], "C22 every expected edge");
  }
}
#endif
static void edits(int n0, int steps) {
  bool a[8][8] = {};
  double w[8][8] = {}, vol[8];
  Mesh m;
  topoAll(m, n0);
  std::vector<UL> nodes;
  int shift = 1;  // global names 1..n0, 0 is free
  VI row{0}, col, map;
  VD val, vols;
  for (int i = 0; i < n0; ++i) {
    map.push_back(i + shift); nodes.push_back(i + shift);
    vol[i + shift] = sym_f64("volume", i, 1, 100);
    vols.push_back(vol[i + shift]);
    for (int j = 0; j < n0; ++j)
      if (m.adj[i][j]) {
        const double x = i < j ? sym_f64("weight", pairIdx(8, i, j), 1, 100) : w[j + shift][i + shift];
        w[i + shift][j + shift] = x;
        a[i + shift][j + shift] = true;
        col.push_back(j); val.push_back(x);
      }
    row.push_back(col.size());
  }
  SG s(n0, row, col, val, vols, map, true);
#ifndef REDUCED
  if (n0 > 1) {
    int deg = n0;
    for (int i = 0; i < n0; ++i) deg = std::min(deg, (int)(row[i + 1] - row[i]));
    sym_assert(s._compactness == deg, "C22 initial compactness");
  }
#endif
  int fresh = n0 + 1;
  for (int st = 0; st < steps; ++st) {
    const bool ins = nodes.size() < 2 || sym_concrete(sym_i32("insert", st, 0, 1));
    if (ins) {
      // some present nodes and possibly an absent one are neighbours, in either order
      const UL g = fresh++;
      std::vector<UL> ng;
      VD wt;
      for (UL x : nodes)
        if (sym_bool("neighbour", st * 8 + (int)x)) ng.push_back(x);
      if (sym_concrete(sym_i32("absent", st, 0, 1))) {
        if (sym_concrete(sym_i32("absent_first", st, 0, 1))) ng.insert(ng.begin(), 0);
        else ng.push_back(0);
      }
      if (ng.size() > 1 && sym_concrete(sym_i32("reverse", st, 0, 1))) std::reverse(ng.begin(), ng.end());
      vol[g] = sym_f64("new_volume", st, 1, 100);
      for (UL x : ng) {
        const double v = sym_f64("new_weight", st * 8 + (int)x, 1, 100);
        wt.push_back(v);
        if (x) { a[g][x] = a[x][g] = true; w[g][x] = w[x][g] = v; }
      }
      s.insert_node(ng, g, vol[g], wt);
      nodes.push_back(g);
      sym_cover("node added");
    } else {
      const int k = (int)sym_concrete(sym_i32("removed", st, 0, (int)nodes.size() - 1));
      const UL g = nodes[k];
      s.remove_node(g);
      nodes.erase(nodes.begin() + k);
      for (int x = 0; x < 8; ++x) a[g][x] = a[x][g] = false;
      sym_cover("node removed");
    }
    same(s, nodes, a, w, vol);
    // derived values
    int deg = (int)nodes.size();
    bool reach[8] = {};
    reach[nodes[0]] = true;
    for (size_t r = 0; r < nodes.size(); ++r)
      for (UL x : nodes) for (UL y : nodes) if (reach[x] && a[x][y]) reach[y] = true;
    bool con = true;
    for (UL x : nodes) {
      int k = 0;
      for (UL y : nodes) k += a[x][y];
      deg = std::min(deg, k);
      con = con && reach[x];
    }
    sym_assert(s._cardinality == (int)nodes.size() && s._number_of_cells == nodes.size(), "C22 number of nodes");
#ifndef REDUCED
    sym_assert(s._compactness == deg, "C22 compactness");
#endif
    sym_assert(s.check_connectivity() == con, "C22 connectivity");
    if (!con) sym_cover("disconnected subgraph");
  }
}
static void e2() { edits(2, T() ? 3 : 2); }
static void e3() { edits(3, T() ? 2 : 2); }
static void e4() { edits(4, T() ? 2 : 1); }
#ifndef REDUCED
// the subgraph of a coarse cell follows the cells put in
static void cell(Mesh &m) {
  using CS = comma::Coarse_Cell_Subgraph<UL, double, int>;
  using D = comma::Dual_Graph<UL, double, int>;
  Geo g; g.w = 1; g.vol = 1; g.prio = 0; g.bnd = 0; fill(m, g);
  auto d = std::make_shared<D>(m.n, m.row, m.col, m.area, m.vol, m.ctr, m.nbnd, m.dim, VI{});
  std::unordered_set<UL> first, then;
  for (int i = 0; i < m.n; ++i) {
    const int k = (int)sym_concrete(sym_i32("when", i, 0, 2));
    if (k == 1) first.insert(i);
    if (k == 2) then.insert(i);
  }
  if (first.empty()) return;
  CS c(d, 0, first, d->compute_min_fc_compactness_inside_a_cc(first));
  auto check = [&](const std::unordered_set<UL> &in) {
    bool a[8][8] = {};
    double w[8][8] = {};
    std::vector<UL> nodes;
    for (int i = 0; i < m.n; ++i) {
      if (!in.count(i)) continue;
      nodes.push_back(i);
      for (int j = 0; j < m.n; ++j) if (in.count(j) && m.adj[i][j]) { a[i][j] = true; w[i][j] = m.w[i][j]; }
    }
    same(*c._cc_graph, nodes, a, w, m.vol.data());
    c.update_connectivity();
    std::vector<int> v(nodes.begin(), nodes.end());
    sym_assert(c._is_connected == connectedSet(m, v), "C22 connectivity of a coarse cell");
  };
  check(first);
  if (then.empty()) return;
  auto all = first;
  all.insert(then.begin(), then.end());
  const int k = d->compute_min_fc_compactness_inside_a_cc(all);
  if (then.size() == 1) c.insert_cell(*then.begin(), k);
  else if (chooseb("one_by_one")) for (UL i : then) c.insert_cell(i, std::nullopt);
  else c.insert_cells(then, chooseb("given") ? std::optional<int>(k) : std::nullopt);
  check(all);
  sym_cover("cells put in");
}
static void i3() { Mesh m; topoAll(m, 3); cell(m); }
static void i4() { Mesh m; topoClass(m, 4, T() ? chooseb("connected") : true); cell(m); }
#define CELL_CASES {"coarse cell among 3", 0, i3}, {"coarse cell among 4", 0, i4},
#else
#define CELL_CASES
#endif
CASES(CELL_CASES {"2 nodes, several edits", 0, e2}, {"3 nodes, two edits", 0, e3}, {"4 nodes", 0, e4})
#endif

#if PROP == 23
using DG = comma::Dual_Graph<UL, double, int>;
static void compactOf(Mesh &m, int only = 0) {
  if (!only) fill(m, Geo{0, 0, 0, 0, 0});
  DG g(m.n, m.row, m.col, m.area, m.vol, m.ctr, m.nbnd, m.dim, {});
  std::unordered_set<UL> s;
  bool in[MAXN] = {};
  for (int i = 0; i < m.n; ++i)
    if (!only || i % only == 1 ? (bool)sym_bool("member", i) : i % only != 2) { s.insert(i); in[i] = true; }
  auto d = g.compute_fc_compactness_inside_a_cc(s);
  const int c = g.compute_min_fc_compactness_inside_a_cc(s);
  int best = 1000;
  sym_assert(d.size() == s.size(), "C23 one value per cell");
  for (int i = 0; i < m.n; ++i) {
    if (!in[i]) continue;
    int k = 0;
    for (int j = 0; j < m.n; ++j) k += m.adj[i][j] && in[j];
    sym_assert(d.count(i) == 1 && d.at(i) == k, "C23 inner degree");
    best = std::min(best, k);
  }
  if (s.size() <= 1) best = 0;
  sym_assert(c == best, "C23 smallest inner degree");
  if (best > 1) sym_cover("compact set");
  sym_observe(c);
}
static void k4() { Mesh m; topoAll(m, 4); compactOf(m); }
static void k5() { Mesh m; topoClass(m, 5, chooseb("connected")); if (chooseb("reversed")) relabelReverse(m); compactOf(m); }
static void k5a() { Mesh m; topoAll(m, 5); compactOf(m); }
static void k6() { Mesh m; topoClass(m, 6, T() ? chooseb("connected") : true); compactOf(m); }
static void large() { Mesh m; largeMesh(m); compactOf(m, choose("step", 5, 6)); }
CASES({"some dozens of cells", 0, large}, {"4 cells, every graph and set", 0, k4}, {"5 cells, every set", 0, k5}, {"6 cells, every set", 0, k6}, {"5 cells, every graph and set", 1, k5a})
#endif

#if PROP == 26
static VD point(const char *n, int d, int r, double u = 1) {
  VD v;
  for (int i = 0; i < d; ++i) v.push_back(u * sym_f64(n, i, -r, r));
  return v;
}
// lengths are not of the order of one in every mesh
static double unit() {
  static const double t[] = {1, 0x1p-30, 0x1p30};
  return t[choose("unit", 0, 2)];
}
static void distance() {
  sym_mode(1);
  const int d = choose("dimension", 2, 3);
  const double u = unit();
  VD a = point("a", d, 1000, u), b = point("b", d, 1000, u);
  const double x = comma::squared_euclidean_distance(a, b), y = comma::squared_euclidean_distance(b, a);
  double e = 0;
  bool same = true;
  for (int i = 0; i < d; ++i) { e += (a[i] - b[i]) * (a[i] - b[i]); if (a[i] != b[i]) same = false; }
  sym_assert(x == y, "C26 distance is symmetric");
  sym_assert(x >= 0, "C26 distance is not negative");
  sym_assert(close(x / u / u, e / u / u), "C26 distance is the sum of squares");
  if (same) { sym_cover("equal points"); sym_assert(x == 0, "C26 distance of equal points"); }
  else sym_assert(x > 0, "C26 distance of different points");
}
static void dot() {
  sym_mode(1);
  const int d = choose("dimension", 2, 3);
  VD a = point("a", d, 1000), b = point("b", d, 1000);
  const double x = comma::dot_product(a, b), y = comma::dot_product(b, a);
  double e = 0;
  for (int i = 0; i < d; ++i) e += a[i] * b[i];
  sym_assert(x == y, "C26 dot product is symmetric");
  sym_assert(close(x, e), "C26 dot product is the sum of products");
}
// one coordinate differs by a multiple of a fixed direction: everything stays linear
static void direction(int d) {
  sym_mode(1);
  static const int dirs[][4] = {{1, 0, 0, 1}, {0, -1, 0, 1}, {3, 4, 0, 5}, {-5, 12, 0, 13}, {0, 0, 1, 1}, {1, 2, 2, 3}, {2, -3, 6, 7}, {-4, 4, 7, 9}};
  const int k = choose("direction", 0, d == 2 ? 3 : 7);
  const double u = unit(), t = u * sym_f64("length", 0, 1, 1000);
  VD a = point("a", d, 1000, u), b = a, dir(d, 5.0);
  for (int i = 0; i < d; ++i) b[i] = a[i] + t * dirs[k][i];
  const double norm = comma::get_direction(a, b, dir);
  sym_assert(close(norm / u, t * dirs[k][3] / u), "C26 length of the direction");
  for (int i = 0; i < d; ++i) {
    const double e = dir[i] * dirs[k][3] - dirs[k][i];
    sym_assert(e < 0x1p-20 && e > -0x1p-20, "C26 unit direction from the first to the second");
  }
  sym_cover("direction");
}
static void dir2() { direction(2); }
static void dir3() { direction(3); }
static void anydir() {
  sym_mode(1);
  const double u = unit();
  VD a = {0, 0}, b = point("b", 2, 100, u), dir(2, 5.0);
  sym_assume(b[0] != 0 || b[1] != 0);
  const double norm = comma::get_direction(a, b, dir);
  sym_assert(norm > 0, "C26 positive length");
  sym_assert(close(norm * norm / u / u, (b[0] * b[0] + b[1] * b[1]) / u / u), "C26 squared length");
  for (int i = 0; i < 2; ++i) {
    if (b[i] > 0) sym_assert(dir[i] > 0, "C26 sign of the direction");
    if (b[i] < 0) sym_assert(dir[i] < 0, "C26 sign of the direction");
    if (b[i] == 0) sym_assert(dir[i] == 0, "C26 sign of the direction");
  }
}
static void deviate() {
  // cosine in steps of 2^-20
  sym_mode(1);
  const double c = sym_f64("cosine", 0, -1048576, 1048576) / 1048576.;
  const bool r = comma::dot_deviate(c);
  const double ac = c < 0 ? -c : c;
  sym_assert(r == (ac < 0.9396926207859084), "C26 deviation is |cos| below cos(20 degrees)");
  sym_cover(r ? "deviates" : "does not deviate");
}
static void powers() {
  sym_mode(1);
  const double x = sym_f64("x", 0, -1000, 1000);
  sym_assert(comma::_sq(x) == x * x, "C26 square");
  sym_assert(comma::_cb(x) == x * x * x, "C26 cube");
#ifndef REDUCED
  sym_assert((comma::int_power<0>(x) == 1) & (comma::int_power<1>(x) == x) & (comma::int_power<2>(x) == x * x) & (comma::int_power<3>(x) == x * x * x), "C26 small powers");
  sym_assert((comma::int_power<4>(x) == x * x * x * x) & (comma::int_power<5>(x) == x * x * x * x * x), "C26 powers");
  sym_assert((comma::int_power<6>(x) == x * x * x * x * x * x) & (comma::int_power<7>(x) == x * x * x * x * x * x * x), "C26 powers");
#endif
}
CASES({"distance", 0, distance}, {"dot product", 0, dot}, {"direction 2D", 0, dir2}, {"direction 3D", 0, dir3}, {"any 2D direction", 0, anydir},
      {"deviation", 0, deviate}, {"powers", 0, powers})
#endif
