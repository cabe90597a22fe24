// C40: what the graph, the fronts and the record of coarse cells answer about single cells.
#include "common.h"
static bool T() { return sym_tier() != 0; }
using D = comma::Dual_Graph<UL, double, int>;
using PF = comma::Neighbourhood_Pure_Front<UL, double, int>;

static void judge(const Mesh &m) {
  D d(m.n, m.row, m.col, m.area, m.vol, m.ctr, m.nbnd, m.dim, VI{});
  sym_assert((int)d.get_nb_cells() == m.n, "C40 number of cells");
  for (int i = 0; i < m.n; ++i) {
    VI near(m.col.begin() + m.row[i], m.col.begin() + m.row[i + 1]);
    VD w(m.area.begin() + m.row[i], m.area.begin() + m.row[i + 1]);
    const int k = (int)near.size();
    d.BFS(i);
    sym_assert((int)d.get_nb_of_neighbours(i) == k, "C40 number of neighbours");
    sym_assert(d.get_neighbours(i) == near, "C40 neighbours");
    sym_assert(VI(d.neighbours_cbegin(i), d.neighbours_cend(i)) == near, "C40 neighbours one by one");
    const auto a = d.get_weights(i);
    const VD b(d.weights_cbegin(i), d.weights_cend(i));
    sym_assert(a.size() == w.size() && b.size() == w.size(), "C40 one weight per neighbour");
    bool same = true;
    double sum = 0;
    for (int e = 0; e < k && (int)a.size() == k && (int)b.size() == k; ++e) {
      same = same & (a[e] == w[e]) & (b[e] == w[e]);
      sum += w[e];
    }
    sym_assert(same, "C40 weights in the order of the neighbours");
    sym_assert(d.get_n_boundary_faces(i) == m.nbnd[i], "C40 number of boundary faces");
    sym_assert(d.get_total_n_faces(i) == m.nbnd[i] + k, "C40 total number of faces");
    sym_assert(d.is_on_boundary(i) == (m.nbnd[i] > 0), "C40 on the boundary");
    if (k) {
      const double outer = d.estimated_boundary_weight(i), all = d.estimated_total_weight(i);
      sym_assert(outer * k == m.nbnd[i] * sum, "C40 a boundary face counts as the mean of the others");
      sym_assert((all - sum) * k == m.nbnd[i] * sum, "C40 total weight");
      sym_cover("weights");
    }
  }
  sym_observe((long)d.get_nb_cells());
}
static void all3() {
  sym_mode(1);
  Mesh m; topoAll(m, 3); m.dim = choose("dimension", 2, 3);
  Geo g; g.w = 1; g.prio = 0; g.bnd = 0; fill(m, g);
  for (int i = 0; i < m.n; ++i) m.nbnd[i] = (int)sym_concrete(sym_i32("boundary", i, 0, m.dim));
  judge(m);
}
static void classes() {
  sym_mode(1);
  Mesh m; topoClass(m, T() ? 6 : 5, chooseb("connected"));
  Geo g; g.w = 1; g.prio = 0; g.bnd = 0; fill(m, g);
  for (int i = 0; i < m.n; ++i) m.nbnd[i] = (i * 2 + 1) % 3;
  judge(m);
}
// direction between the centres of two cells
static void direction() {
  sym_mode(1);
  Mesh m; m.dim = choose("dimension", 2, 3); topoClass(m, 3, true);
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  const int a = choose("from", 0, 2), b = choose("to", 0, 2), axis = choose("axis", 0, m.dim - 1);
  sym_assume(a != b);
  for (auto &p : m.ctr) for (auto &x : p) x = 5;
  m.ctr[a][axis] = sym_f64("place", 0, -100, 100);
  m.ctr[b][axis] = sym_f64("place", 1, -100, 100);
  const double step = m.ctr[b][axis] - m.ctr[a][axis];
  if (step == 0) return;
  D d(m.n, m.row, m.col, m.area, m.vol, m.ctr, m.nbnd, m.dim, VI{});
  VD dir(m.dim);
  const double len = d.get_center_direction(a, b, dir);
  const bool up = step > 0;
  bool ok = up ? len == step : len == -step;
  for (int x = 0; x < m.dim; ++x) ok = ok & (dir[x] == (x == axis ? (up ? 1. : -1.) : 0.));
  sym_assert(ok, "C40 direction from a cell to another one");
  sym_cover("direction");
}
// the fronts left behind by the cells taken
static void fronts(Mesh &m, int steps) {
  Geo g; g.prio = 1; g.bnd = 0; fill(m, g);
  std::unordered_set<UL> allowed;
  for (int i = 0; i < m.n; ++i) if (i == 0 || sym_concrete(sym_i32("allowed", i, 0, 1))) allowed.insert(i);
  PF f(allowed, m.prio, m.dim);
  std::vector<int> taken;
  std::vector<bool> in(m.n, false);
  for (int s = 0; s < steps; ++s) {
    const int c = (int)sym_concrete(sym_i32("taken", s, 0, m.n - 1));
    sym_assume(!in[c] && allowed.count(c));
    in[c] = true; taken.push_back(c);
    f.update(c, VI(m.col.begin() + m.row[c], m.col.begin() + m.row[c + 1]));
    for (int l = 0; l <= s; ++l) {
      const auto &q = f.get_neighbours_by_level(l);
      const int of = taken[s - l];
      std::vector<bool> seen(m.n, false);
      bool ok = true, sorted = true;
      size_t want = 0;
      UL last = 0; bool first = true;
      for (auto &[i, w] : q) {
        if (i >= (UL)m.n) { ok = false; break; }
        ok = ok & !seen[i] & m.adj[of][i] & !in[i] & (allowed.count(i) > 0) & (w == m.prio[i]);
        if (!first) sorted = sorted & ((m.prio[last] > m.prio[i]) | ((m.prio[last] == m.prio[i]) & (last < i)));
        seen[i] = true; last = i; first = false;
      }
      for (int i = 0; i < m.n; ++i) want += m.adj[of][i] && !in[i] && allowed.count(i);
      sym_assert(ok && want == q.size(), "C40 a front holds what is left around the cell it comes from");
      sym_assert(sorted, "C40 a front is sorted");
    }
    sym_cover("fronts");
  }
  sym_observe((long)f.get_candidates().size());
}
static void front4() { Mesh m; topoClass(m, 4, true); m.dim = choose("dimension", 2, 3); fronts(m, 4); }
static void front5() { Mesh m; topoClass(m, 5, true); fronts(m, T() ? 4 : 2); }
// coarse cells around a cell, and faces shared with them
static void around() {
  Mesh m; topoClass(m, T() ? 6 : 5, true);
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  auto d = std::make_shared<D>(m.n, m.row, m.col, m.area, m.vol, m.ctr, m.nbnd, m.dim, VI{});
  comma::Coarse_Cell_Container<UL, double, int> c(d, 1);
  std::vector<std::unordered_set<UL>> g0(3);
  std::vector<int> of(m.n);
  for (int i = 0; i < m.n; ++i) g0[of[i] = (int)sym_concrete(sym_i32("group", i, 0, 2))].insert(i);
  for (auto &s : g0) { sym_assume(!s.empty()); c.create_cc(s, 1); }
  for (int i = 0; i < m.n; ++i)
    for (int k = 0; k < 3; ++k) {
      std::set<UL> want;
      int faces = 0;
      for (int j = 0; j < m.n; ++j)
        if (m.adj[i][j]) { if (of[j] != k) want.insert(of[j]); else ++faces; }
      sym_assert(c.get_neighs_cc(i, k) == want, "C40 coarse cells around a cell");
      sym_assert(c.get_shared_faces(i, c._ccs.at(k)) == faces, "C40 faces shared with a coarse cell");
    }
  sym_cover("coarse cells around");
  sym_observe((long)c.get_nb_of_cc());
}
CASES({"any graph of 3 cells", 0, all3}, {"graph classes", 0, classes}, {"direction", 0, direction}, {"fronts, 4 cells", 0, front4}, {"fronts, 5 cells", 0, front5}, {"around", 0, around})
