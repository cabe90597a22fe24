// C37: the record of the coarse cells, whatever the history of creations, releases and corrections.
#include "common.h"
static bool T() { return sym_tier() != 0; }
using D = comma::Dual_Graph<UL, double, int>;
using CC = comma::Coarse_Cell_Container<UL, double, int>;

struct Expected {
  std::vector<std::vector<int>> made, waiting;
  std::vector<bool> iso;
};
static int inner(const Mesh &m, const std::vector<int> &v) {
  if (v.size() < 2) return 0;
  int best = MAXN;
  for (int i : v) {
    int k = 0;
    for (int j : v) k += m.adj[i][j];
    best = std::min(best, k);
  }
  return best;
}
// the record describes the groups that the cells themselves point to
static void consistent(const Mesh &m, const CC &c, int given) {
  std::vector<std::vector<int>> g(c.get_nb_of_cc());
  int done = 0;
  for (int i = 0; i < m.n; ++i) {
    done += c._is_fc_agglomerated[i];
    if (!c._fc_2_cc[i].has_value()) continue;
    const UL k = c._fc_2_cc[i].value();
    sym_assert(k < g.size(), "C37 numbers are below the number of coarse cells");
    if (k >= g.size()) return;
    g[k].push_back(i);
  }
  sym_assert(done == given && (int)c.get_number_of_fc_agglomerated() == given, "C37 number of agglomerated cells");
  sym_assert(c._ccs.size() == g.size(), "C37 one record per coarse cell");
  for (UL k = 0; k < g.size(); ++k) {
    sym_assert(!g[k].empty(), "C37 every number is used");
    auto it = c._ccs.find(k);
    sym_assert(it != c._ccs.end(), "C37 every coarse cell is recorded under its number");
    if (it == c._ccs.end()) continue;
    const auto &r = *it->second;
    sym_assert(r._idx == k, "C37 the record knows its number");
    sym_assert(r._cardinality == (int)g[k].size(), "C37 recorded cardinality");
    bool same = r._s_fc.size() == g[k].size();
    for (int i : g[k]) same = same && r._s_fc.count(i);
    sym_assert(same, "C37 recorded cells");
    sym_assert(r._compactness == inner(m, g[k]), "C37 recorded compactness");
  }
}
static void history(Mesh &m, int steps, bool kinds, int th) {
  Geo g; g.prio = 0; g.bnd = 0; fill(m, g);
  auto d = std::make_shared<D>(m.n, m.row, m.col, m.area, m.vol, m.ctr, m.nbnd, m.dim, VI{});
  CC c(d, th);
  std::vector<std::vector<int>> group(steps);
  for (int i = 0; i < m.n; ++i) group[(int)sym_concrete(sym_i32("step", i, 0, steps - 1))].push_back(i);
  Expected e;
  int given = 0;
  auto made = [&](const std::vector<int> &v, bool iso) { e.made.push_back(v); e.iso.push_back(iso); };
  auto check = [&] {
    consistent(m, c, given);
    sym_assert(c.get_nb_of_cc() == e.made.size(), "C37 number of coarse cells");
    for (UL k = 0; k < e.made.size(); ++k) {
      for (int i : e.made[k]) sym_assert(c._fc_2_cc[i] == std::optional<UL>(k), "C37 numbers follow the order of creation");
      if (c._ccs.count(k)) sym_assert(c._ccs.at(k)->_is_isotropic == e.iso[k], "C37 recorded kind");
    }
    for (auto &v : e.waiting)
      for (int i : v) sym_assert(!c._fc_2_cc[i].has_value() && c._is_fc_agglomerated[i], "C37 a delayed coarse cell has no number yet but its cells are taken");
  };
  for (int s = 0; s < steps; ++s) {
    if (group[s].empty()) continue;
    // 0 now, 1 delayed, 2 anisotropic
    const int kind = kinds ? (int)sym_concrete(sym_i32("kind", s, 0, 2)) : 0;
    std::unordered_set<UL> in(group[s].begin(), group[s].end());
    const UL k = c.create_cc(in, inner(m, group[s]), kind == 2, kind == 1);
    given += (int)group[s].size();
    if (kind == 1) { e.waiting.push_back(group[s]); sym_cover("delayed"); }
    else { sym_assert(k == e.made.size(), "C37 number returned at the creation"); made(group[s], kind == 0); }
    check();
  }
  c.cc_create_all_delayed_cc();
  for (auto &v : e.waiting) made(v, true);
  e.waiting.clear();
  check();
  const UL before = c.get_nb_of_cc();
  for (int turn = 0; turn < 2; ++turn) {
    auto was = c._fc_2_cc;
    c.correct(m.n);
    consistent(m, c, m.n);
    if (turn) sym_assert(c._fc_2_cc == was, "C37 a second correction changes nothing");
    // anisotropic coarse cells keep their cells and kind
    for (UL k = 0; k < e.made.size(); ++k) {
      if (e.iso[k]) continue;
      const UL t = c._fc_2_cc[e.made[k][0]].value();
      if (c._ccs.count(t)) sym_assert(!c._ccs.at(t)->_is_isotropic && c._ccs.at(t)->_cardinality == (int)e.made[k].size(), "C37 an anisotropic coarse cell stays as it is");
    }
  }
  if (c.get_nb_of_cc() < before) sym_cover("fewer coarse cells after the correction");
  for (int i = 0; i < m.n; ++i) sym_observe((long)c._fc_2_cc[i].value());
}
static void n3() { Mesh m; topoAll(m, 3); history(m, 3, true, choose("singular", 1, 2)); }
static void n4() { Mesh m; topoClass(m, 4, chooseb("connected")); history(m, 3, true, choose("singular", 1, 2)); }
static void n5() { Mesh m; topoClass(m, 5); history(m, T() ? 4 : 3, T(), choose("singular", 1, 2)); }
static void chain() { Mesh m; topoGrid(m, 6, 1); history(m, T() ? 4 : 3, false, choose("singular", 1, 3)); }
CASES({"3 cells, every graph", 0, n3}, {"4 cells", 0, n4}, {"5 cells", 0, n5}, {"chain of 6 cells", 0, chain})
