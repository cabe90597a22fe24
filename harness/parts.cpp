// The pieces of the growth of a coarse cell: C13 distances around a seed, C14 candidates, C15 features and aspect
// ratios, C20 pool of seeds.
#ifndef PROP
#define PROP 13
#endif
#if PROP == 13 || PROP == 14 || PROP == 15 || PROP == 20
#define CELLS 36
#include "box.h"
#endif
#include "common.h"
static bool T() { return sym_tier() != 0; }
using DG = comma::Dual_Graph<UL, double, int>;
static std::shared_ptr<DG> dual(const Mesh &m) {
  return std::make_shared<DG>((UL)m.n, m.row, m.col, m.area, m.vol, m.ctr, m.nbnd, m.dim, m.compliant);
}
static bool conn(const Mesh &m) {
  std::vector<int> all;
  for (int i = 0; i < m.n; ++i) all.push_back(i);
  return connectedSet(m, all);
}

#if PROP == 13
static void around(Mesh &m, bool manySeeds, bool large = false) {
  if (!large) fill(m, Geo{0, 0, 0, 0, 0});
  std::unordered_set<UL> seeds;
  std::vector<bool> agg(m.n, false);
  bool in[MAXN] = {};
  for (int i = 0; i < m.n; ++i) {
    if (large) {
      if (i % 11 == 5 && sym_bool("agglomerated", i)) agg[i] = true;
      if (i == m.n / 2 || (manySeeds && i % 13 == 1)) { seeds.insert(i); in[i] = true; }
    } else if (manySeeds ? (bool)sym_bool("seed", i) : i == 0) { seeds.insert(i); in[i] = true; agg[i] = sym_bool("taken_seed", T() ? i : 0) ? true : false; }
    else if (sym_bool("agglomerated", i)) agg[i] = true;
    else agg[i] = false;
  }
  if (seeds.empty()) return;
  const int order = (int)sym_concrete(sym_i32("order", 0, 1, large ? 9 : T() ? 4 : 3)), card = (int)sym_concrete(sym_i32("max", 0, 2, large ? 9 : m.n + 1)) * (large ? 4 : 1);
  auto g = dual(m);
  int o = order;
  std::unordered_map<UL, int> d;
  g->compute_neighbourhood_of_cc(seeds, o, d, card, agg);
  // reference
  int e[MAXN];
  int total = 0, k = 0;
  for (int i = 0; i < m.n; ++i) { e[i] = in[i] ? 0 : -1; total += in[i]; }
  while (k < order || total < card) {
    int added = 0;
    for (int i = 0; i < m.n; ++i)
      if (e[i] < 0 && !agg[i])
        for (int j = 0; j < m.n; ++j)
          if (m.adj[i][j] && e[j] == k) { e[i] = k + 1; ++added; break; }
    if (!added) break;
    total += added;
    ++k;
  }
  if (k > order) sym_cover("extended beyond the order");
  int cnt = 0;
  for (int i = 0; i < m.n; ++i) {
    const bool want = e[i] > 0;
    cnt += want;
    sym_assert(d.count(i) == (want ? 1u : 0u), "C13 exactly the reachable cells");
    if (want && d.count(i)) sym_assert(d[i] == e[i], "C13 distance from the cells of the coarse cell");
    if (e[i] > 1) sym_cover("distance above one");
    sym_observe(d.count(i) ? d[i] : 99);
  }
  sym_assert((int)d.size() == cnt, "C13 nothing else");
  auto ns = g->get_neighbourhood_of_cc(seeds, agg);
  int nn = 0;
  for (int i = 0; i < m.n; ++i) {
    bool t = false;
    for (int j = 0; j < m.n; ++j) t |= m.adj[i][j] && in[j];
    t = t && !in[i] && !agg[i];
    nn += t;
    sym_assert(ns.count(i) == (t ? 1u : 0u), "C13 cells touching the coarse cell");
  }
  sym_assert((int)ns.size() == nn, "C13 nothing else touches");
}
static void a4() { Mesh m; topoAll(m, 4); around(m, true); }
static void a5() { Mesh m; topoClass(m, 5, false); if (chooseb("reversed")) relabelReverse(m); around(m, T()); }
static void a6() { Mesh m; topoGrid(m, 3, 2); around(m, true); }
static void a7() { Mesh m; m.n = T() ? 8 : 7; for (int i = 0; i + 1 < m.n; ++i) edge(m, i, i + 1); around(m, false); }
static void a6c() { Mesh m; topoClass(m, 6, true); around(m, false); }
static void large() { Mesh m; largeMesh(m); around(m, chooseb("many"), true); }
CASES({"some dozens of cells", 0, large}, {"4 cells, any set of seeds", 0, a4}, {"5 cells", 0, a5}, {"grid, any set of seeds", 0, a6}, {"chain", 0, a7}, {"6 cells", 1, a6c})
#endif

#if PROP == 14
using NB = comma::Neighbourhood<UL, double, int>;
using List = std::vector<int>;
static void check(const Mesh &m, const NB &nb, const bool *member, const bool *allowed, bool ext, List &ref, std::vector<int> &added, int last, int step) {
  added.push_back(last);
  const auto &c = nb.get_candidates();
  // what may be proposed
  List touch;
  for (int i = 0; i < m.n; ++i) {
    if (member[i] || !allowed[i]) continue;
    for (int j = 0; j < m.n; ++j)
      if (m.adj[i][j] && member[j]) { touch.push_back(i); break; }
  }
  // the free neighbours of the last cell, in order
  auto ordered = [&](List l) {
    std::vector<int> r;
    for (size_t k = l.size(); k; --k) {
      size_t b = 0;
      for (size_t i = 1; i < l.size(); ++i)
        if (m.prio[l[i]] > m.prio[l[b]]) b = i;  // lists are by index: ties keep the lowest
      r.push_back(l[b]);
      l.erase(l.begin() + b);
    }
    return r;
  };
  auto has = [](const List &l, int x) { return std::find(l.begin(), l.end(), x) != l.end(); };
  ref.erase(std::remove(ref.begin(), ref.end(), last), ref.end());
  List fresh, front;
  for (int i : touch)
    if (m.adj[last][i]) { front.push_back(i); if (!has(ref, i)) fresh.push_back(i); }
  fresh = ordered(fresh);
  ref.insert(ref.end(), fresh.begin(), fresh.end());
  if (ext) {
    sym_assert(c.size() == ref.size(), "C14 every admissible touching cell is proposed");
    for (size_t i = 0; i < c.size() && i < ref.size(); ++i)
      sym_assert((int)c[i] == ref[i], "C14 proposals by step, then priority, then index");
    if (fresh.size() > 1) sym_cover("two cells discovered at once");
    if (ref.size() > fresh.size()) sym_cover("old proposals kept");
  } else {
    bool seen[MAXN] = {};
    for (size_t i = 0; i < c.size(); ++i) {
      const int x = (int)c[i];
      sym_assert(x < m.n && has(touch, x), "C14 front: only admissible touching cells");
      if (x < m.n) { sym_assert(!seen[x], "C14 front: no repetition"); seen[x] = true; }
      if (i) {
        const int p = (int)c[i - 1];
        sym_assert(m.prio[p] > m.prio[x] || (m.prio[p] == m.prio[x] && p < x), "C14 front: by priority, then index");
      }
    }
    sym_assert(touch.empty() == c.empty(), "C14 front: something is proposed if possible");
    if (step < m.dim) sym_assert(c.size() == touch.size(), "C14 front: everything at the beginning");
    else if (!front.empty()) { sym_assert(c.size() == front.size(), "C14 front: the neighbours of the last cell");
      for (UL x : c) sym_assert(has(front, (int)x), "C14 front: only the neighbours of the last cell"); sym_cover("front after the beginning"); }
    else if (!touch.empty()) {
      // the oldest cell with free neighbours, the second latest, the second oldest, ...
      List back;
      for (int lo = 1, hi = step; back.empty() && (lo <= step || hi >= 0);) {
        for (int i : touch) if (hi >= 0 && m.adj[added[step - hi]][i]) back.push_back(i);
        --hi;
        if (back.empty()) for (int i : touch) if (lo <= step && m.adj[added[step - lo]][i]) back.push_back(i);
        ++lo;
      }
      sym_assert(c.size() == back.size(), "C14 front: back to older neighbours");
      for (UL x : c) sym_assert(has(back, (int)x), "C14 front: back to the oldest neighbours first");
      sym_cover("front gone back");
    }
  }
}
static void grow(Mesh &m, int prioKind, bool allAllowed, bool big = false) {
  Geo g{0, 0, prioKind, 0, 0};
  if (!big) fill(m, g);
  bool allowed[MAXN], member[MAXN] = {};
  std::unordered_set<UL> s;
  int last = big ? choose("start", 0, 2) * (m.n - 1) / 2 : 0;
  for (int i = 0; i < m.n; ++i) {
    if (i == last) allowed[i] = false;
    else if (allAllowed) allowed[i] = true;
    else if (sym_bool("allowed", i)) allowed[i] = true;
    else allowed[i] = false;
    if (allowed[i]) s.insert(i);
  }
  const bool ext = chooseb("extended");
  const comma::NeighbourhoodExtendedCreator<UL, double, int> ce{};
  const comma::NeighbourhoodPureFrontCreator<UL, double, int> cf{};
  std::shared_ptr<NB> nb = ext ? ce.create(s, m.prio, m.dim) : cf.create(s, m.prio, m.dim);
  auto dg = dual(m);
  List ref;
  std::vector<int> added;
  const int rule = big ? choose("rule", 0, 3) : 0;
  for (int step = 0;; ++step) {
    member[last] = true;
    if (step % 2 && chooseb("copy")) {
      // growing a copy leaves the original alone, and the copy goes on like it
      const auto before = nb->get_candidates();
      std::shared_ptr<NB> cp = ext ? ce.clone(nb) : cf.clone(nb);
      cp->update(last, dg->get_neighbours(last));
      sym_assert(nb->get_candidates() == before, "C14 a copy is independent");
      nb = cp;
    } else {
      nb->update(last, dg->get_neighbours(last));
    }
    check(m, *nb, member, allowed, ext, ref, added, last, step);
    const auto &c = nb->get_candidates();
    for (UL x : c) sym_observe(x);
    if (c.empty()) break;
    // larger meshes: a free choice at two of the steps, a rule otherwise
    const int k = !big || step == 2 || step == 7 ? (int)sym_concrete(sym_i32("pick", step, 0, (int)c.size() - 1))
                       : rule == 0 ? 0 : rule == 1 ? (int)c.size() - 1 : rule == 2 ? step % (int)c.size() : (int)c.size() / 2;
    last = (int)c[k];
  }
}
static void g4() { Mesh m; topoClass(m, 4, true); m.dim = choose("dimension", 2, 3); grow(m, 1, false); }
static void g5() { Mesh m; topoClass(m, 5, true); if (chooseb("reversed")) relabelReverse(m); grow(m, T() ? 1 : 2, !T()); }
static void g5d() { Mesh m; topoAll(m, 4); grow(m, 2, false); }
static void g6() { Mesh m; topoGrid(m, 3, 2); if (chooseb("reversed")) relabelReverse(m); grow(m, 2, true); }
static void tree() { Mesh m; m.n = 6; for (int i = 1; i < 6; ++i) edge(m, i, (int)sym_concrete(sym_i32("parent", i, 0, i - 1))); grow(m, 0, true); }
static void g7() { Mesh m; m.n = 6; for (int i = 1; i < 6; ++i) { edge(m, 0, i); if (i > 1) edge(m, i - 1, i); } grow(m, 2, true); }
static void large() { Mesh m; largeMesh(m); grow(m, 0, true, true); }
CASES({"some dozens of cells", 0, large}, {"4 cells, any priorities and admissible cells", 0, g4}, {"5 cells", 0, g5}, {"4 cells, every graph", 0, g5d}, {"grid", 0, g6}, {"fan", 0, g7}, {"trees of 6 cells", 0, tree})
#endif

#if PROP == 15
using CF = comma::CellFeatures<UL, double, int>;
using AR = comma::ARComputer<UL, double, int>;
enum { DOR2, DOR3, DOME, DIAM, OOM, OOIW, POR2, POR3, EW, MBR2, MBR3, MOM, APM, NAR };
static std::shared_ptr<AR> computer(int k, std::shared_ptr<DG> g) {
  switch (k) {
    case DOR2: return std::make_shared<comma::ARDiamOverRadius<UL, double, int, 2>>(g);
    case DOR3: return std::make_shared<comma::ARDiamOverRadius<UL, double, int, 3>>(g);
    case DOME: return std::make_shared<comma::ARDiamOverMinEdge<UL, double, int>>(g);
    case DIAM: return std::make_shared<comma::ARDiameter<UL, double, int>>(g);
    case OOM: return std::make_shared<comma::AROverMeasure<UL, double, int>>(g);
    case OOIW: return std::make_shared<comma::AROverInternalWeights<UL, double, int>>(g);
    case POR2: return std::make_shared<comma::ARExternalWeightOverRadius<UL, double, int, 2>>(g);
    case POR3: return std::make_shared<comma::ARExternalWeightOverRadius<UL, double, int, 3>>(g);
    case EW: return std::make_shared<comma::ARExternalWeights<UL, double, int>>(g);
    case MBR2: return std::make_shared<comma::ARMaxBaryDistanceOverRadius<UL, double, int, 2>>(g);
    case MBR3: return std::make_shared<comma::ARMaxBaryDistanceOverRadius<UL, double, int, 3>>(g);
    case MOM: return std::make_shared<comma::ARMaxOverMinBaryDistance<UL, double, int>>(g, 0x1p-6);
    default: return std::make_shared<comma::ARExternalWeightOverRadius<UL, double, int, 1>>(g);
  }
}
// (no short cuts: one formula rather than several paths)
static bool same(double a, double b) { return (a - b <= 0x1p-10) & (b - a <= 0x1p-10); }
// a == num / den
static bool ratio(double a, double num, double den) { return same(a * den, num); }
static double dist2(const Mesh &m, int i, int j) {
  double s = 0;
  for (size_t d = 0; d < m.ctr[i].size(); ++d) s += (m.ctr[i][d] - m.ctr[j][d]) * (m.ctr[i][d] - m.ctr[j][d]);
  return s;
}
// Order in which the cells are added: any
static std::vector<int> anyOrder(int n, int len) {
  std::vector<int> o;
  bool used[MAXN] = {};
  for (int i = 0; i < len; ++i) {
    int c = (int)sym_concrete(sym_i32("next", i, 0, n - 1));
    sym_assume(!used[c]);
    used[c] = true;
    o.push_back(c);
  }
  return o;
}
// quantities that come from sums over cells and faces
static void sums(Mesh &m, int k, int len, const std::vector<int> *given = nullptr) {
  sym_mode(1);
  auto g = dual(m);
  auto ar = computer(k, g);
  const auto o = given ? *given : anyOrder(m.n, len);
  CF f(o[0], g);
  std::unordered_set<UL> cc{(UL)o[0]};
  double est[MAXN];
  for (int i = 0; i < m.n; ++i) {
    double s = 0;
    int deg = 0;
    for (int j = 0; j < m.n; ++j)
      if (m.adj[i][j]) { s += m.w[i][j]; ++deg; }
    est[i] = m.nbnd[i] == 0 || !deg ? s : s + m.nbnd[i] * s / deg;
  }
  if (m.nbnd[o[0]] == 0 || !m.adj[o[0]][o[0]]) sym_assert(same(f._measure, m.vol[o[0]]), "C15 measure of one cell");
  for (int t = 1; t < len; ++t) {
    CF nf;
    int shared = -1;
    double a = -1;
    ar->compute_and_update_features((UL)o[t], f, cc, shared, a, nf);
    cc.insert(o[t]);
    double vol = 0, in = 0, ex = 0;
    int faces = 0, sh = 0;
    for (int i = 0; i <= t; ++i) {
      vol += m.vol[o[i]];
      ex += est[o[i]];
      for (int j = 0; j < i; ++j)
        if (m.adj[o[i]][o[j]]) { in += m.w[o[i]][o[j]]; ++faces; sh += i == t; }
    }
    ex -= 2 * in;
    sym_assert(shared == sh, "C15 shared faces");
    sym_assert(nf._n_internal_faces == faces, "C15 internal faces");
    sym_assert(same(nf._measure, vol), "C15 measure");
    const bool weights = k == OOIW || k == POR2 || k == POR3 || k == EW || k == APM;
    if (weights) {
      sym_assert(same(nf._internal_weights, in), "C15 internal weights");
      sym_assert(same(nf._external_weights, ex), "C15 external weights");
    }
    switch (k) {
      case OOM: sym_assert(ratio(a, 1, vol), "C15 one over the measure"); break;
      case OOIW: if (faces) sym_assert(ratio(a, 1, in), "C15 one over the internal weights"); break;
      case EW: sym_assert(same(a, ex), "C15 external weights as aspect ratio"); break;
      case POR2: sym_assert(ratio(a, ex * ex, vol), "C15 perimeter over radius, plane"); break;
      case POR3: sym_assert(ratio(a, ex * ex * ex, vol * vol), "C15 perimeter over radius, space"); break;
      case APM: sym_assert(ratio(a, ex, vol), "C15 perimeter over measure"); break;
    }
    if (sh > 1) sym_cover("several shared faces");
    sym_observe_f(a);
    f = nf;
  }
}
static int sumKind() { static const int t[] = {OOM, OOIW, EW, POR2, POR3, APM}; return t[choose("ratio", 0, 5)]; }
static void fillSums(Mesh &m, bool bnd) {
  fill(m, Geo{1, 1, 0, 0, 0, 50});
  if (bnd) for (int i = 0; i < m.n; ++i) m.nbnd[i] = (int)sym_concrete(sym_i32("boundary", i, 0, T() ? 3 : 2));
  else for (int i = 0; i < m.n; ++i) m.nbnd[i] = i % 3;
}
static void s3() { Mesh m; topoClass(m, 3, true); fillSums(m, true); sums(m, sumKind(), 3); }
static void s4() { Mesh m; topoClass(m, 4, true); fillSums(m, false); sums(m, sumKind(), T() ? 4 : 3); }
static void s6() { Mesh m; topoGrid(m, 3, 2); fillSums(m, false); sums(m, sumKind(), T() ? 4 : 3); }
// diameters and shortest distances
static void geo(Mesh &m, int k, int len, const std::vector<int> *given = nullptr) {
  sym_mode(1);
  auto g = dual(m);
  auto ar = computer(k, g);
  const auto o = given ? *given : anyOrder(m.n, len);
  CF f(o[0], g);
  std::unordered_set<UL> cc{(UL)o[0]};
  for (int t = 1; t < len; ++t) {
    CF nf;
    int shared = -1;
    double a = -1;
    ar->compute_and_update_features((UL)o[t], f, cc, shared, a, nf);
    cc.insert(o[t]);
    double vol = 0;
    for (int i = 0; i <= t; ++i) vol += m.vol[o[i]];
    bool dOk = false, eOk = false;
    for (int i = 0; i <= t; ++i)
      for (int j = 0; j < i; ++j) {
        const double d = dist2(m, o[i], o[j]);
        sym_assert(nf._sq_diam >= d - 0x1p-10, "C15 no distance exceeds the diameter");
        sym_assert(nf._sq_min_edge <= d + 0x1p-10, "C15 no distance is below the shortest");
        dOk = dOk | same(nf._sq_diam, d);
        eOk = eOk | same(nf._sq_min_edge, d);
      }
    sym_assert(dOk, "C15 the diameter is a distance");
    sym_assert(eOk, "C15 the shortest distance is a distance");
    const double D = nf._sq_diam, E = nf._sq_min_edge;
    switch (k) {
      case DOR2: sym_assert(ratio(a, D, vol), "C15 diameter over radius, plane"); break;
      case DOR3: sym_assert(ratio(a, D * D * D, vol * vol), "C15 diameter over radius, space"); break;
      case DOME: sym_assert(t == 1 ? same(a, D) : ratio(a, D, E), "C15 diameter over shortest distance"); break;
      case DIAM: sym_assert(same(a, D), "C15 diameter"); break;
    }
    sym_observe_f(a);
    f = nf;
  }
}
static int geoKind() { static const int t[] = {DOR2, DOR3, DOME, DIAM}; return t[choose("ratio", 0, 3)]; }
static void fillGeo(Mesh &m, int hi) {
  fill(m, Geo{0, 1, 0, 0, 0, 50});
  for (int i = 0; i < m.n; ++i)
    for (int d = 0; d < m.dim; ++d) m.ctr[i][d] = i == 0 ? 1.0 : sym_f64("centre", i * 3 + d, -hi, hi);
  for (int i = 0; i < m.n; ++i)
    for (int j = 0; j < i; ++j) sym_assume(m.ctr[i][0] != m.ctr[j][0]);  // distinct centres
}
static void d3() { Mesh m; m.n = 3; edge(m, 0, 1); edge(m, 1, 2); m.dim = T() ? choose("dimension", 2, 3) : 2; fillGeo(m, T() ? 8 : 3); geo(m, geoKind(), 3); }
static void d4() { Mesh m; topoGrid(m, 2, 2); m.dim = 2; fillGeo(m, 3); geo(m, geoKind(), 4); }
// barycentre
static void bary(Mesh &m, int k, int len, const std::vector<int> *given = nullptr) {
  sym_mode(1);
  auto g = dual(m);
  auto ar = computer(k, g);
  const auto o = given ? *given : anyOrder(m.n, len);
  CF f(o[0], g);
  std::unordered_set<UL> cc{(UL)o[0]};
  for (int t = 1; t < len; ++t) {
    CF nf;
    int shared = -1;
    double a = -1;
    ar->compute_and_update_features((UL)o[t], f, cc, shared, a, nf);
    cc.insert(o[t]);
    double vol = 0;
    for (int i = 0; i <= t; ++i) vol += m.vol[o[i]];
    double sc[3] = {};
    for (size_t d = 0; d < m.ctr[0].size(); ++d) {
      for (int i = 0; i <= t; ++i) sc[d] += m.vol[o[i]] * m.ctr[o[i]][d];
      sym_assert(same(nf._sum_centers[d], sc[d]), "C15 weighted sum of the centres");
    }
    // squared distances to the barycentre
    double q[MAXN];
    bool ext[MAXN];
    for (int i = 0; i <= t; ++i) {
      q[i] = 0;
      for (size_t d = 0; d < m.ctr[0].size(); ++d) {
        const double x = sc[d] / vol - m.ctr[o[i]][d];
        q[i] += x * x;
      }
      int fx = m.nbnd[o[i]];
      for (int j = 0; j < m.n; ++j)
        if (m.adj[o[i]][j]) { bool inside = false; for (int l = 0; l <= t; ++l) inside |= o[l] == j; fx += !inside; }
      if (k == MOM) sym_assert(nf._external_facets.at(o[i]) == fx, "C15 external faces of each cell");
      ext[i] = fx > 0;
    }
    if (k == MOM) {
      // ratio of distances of cells that are not enclosed nor at the barycentre
      bool in[MAXN], any = false, hit = false;
      for (int i = 0; i <= t; ++i) { in[i] = ext[i] && q[i] > 0x1p-12; any |= in[i]; if (!ext[i]) sym_cover("enclosed cell"); }
      for (int round = 0; round < 2 && !hit; ++round)  // first: the same expression, which needs no solver
        for (int i = 0; i <= t; ++i)
          for (int j = 0; j <= t; ++j) {
            if (!in[i] || !in[j]) continue;
            const double r = std::sqrt(q[i]) / std::sqrt(q[j]);
            if (round == 0 && (sym_is_symbolic_f(a - r) || !same(a, r))) continue;
            bool top = same(a, r);
            for (int l = 0; l <= t; ++l) if (in[l]) top = top & (q[i] >= q[l] - 0x1p-10) & (q[j] <= q[l] + 0x1p-10);
            hit = hit | top;
          }
      sym_assert(hit || !any, "C15 largest over smallest distance from the barycentre");
      sym_observe_f(a);
      f = nf;
      continue;
    }
    bool hit = false;
    for (int i = 0; i <= t; ++i) {
      bool top = k == MBR2 ? same(a * vol, q[i]) : same(a * vol * vol, q[i] * q[i] * q[i]);
      for (int j = 0; j <= t; ++j) top = top & (q[i] >= q[j] - 0x1p-10);
      hit = hit | top;
    }
    if (k == MBR2) sym_assert(hit, "C15 largest distance from the barycentre over radius, plane");
    if (k == MBR3) sym_assert(hit, "C15 largest distance from the barycentre over radius, space");
    sym_observe_f(a);
    f = nf;
  }
}
static int baryKind() { return choose("space", 0, 1) ? MBR3 : MBR2; }
static void b2() { Mesh m; m.n = 2; edge(m, 0, 1); m.dim = 2; fill(m, Geo{0, 1, 0, 0, 0, 8});
  static const double c[2][2] = {{0, 1}, {3, 2}};
  for (int i = 0; i < 2; ++i) for (int d = 0; d < 2; ++d) m.ctr[i][d] = c[i][d];
  bary(m, baryKind(), 2); }
static void b3() { Mesh m; m.n = 3; edge(m, 0, 1); edge(m, 1, 2); m.dim = 2; fill(m, Geo{0, 1, 0, 0, 0, 8});
  static const double c[3][2] = {{0, 1}, {3, 2}, {4, 5}};
  for (int i = 0; i < 3; ++i) for (int d = 0; d < 2; ++d) m.ctr[i][d] = c[i][d];
  bary(m, baryKind(), 3); }
static void b4() { Mesh m; m.n = 4; for (int i = 1; i < 4; ++i) edge(m, 0, i); edge(m, 1, 2); m.dim = 2; fill(m, Geo{0, 0, 0, 0, 0, 8});
  const int one = choose("any_volume", 0, 3);
  for (int i = 0; i < 4; ++i) m.vol[i] = i == one ? sym_f64("volume", i, 1, 8) : 1 + i % 3;
  static const double c[4][2] = {{0, 1}, {3, 2}, {4, 5}, {-1, -2}};
  for (int i = 0; i < 4; ++i) for (int d = 0; d < 2; ++d) m.ctr[i][d] = c[i][d];
  m.nbnd = {0, 1, 0, 0};
  bary(m, MOM, T() ? 4 : 3); }
// a larger coarse cell, grown from any cell of a large mesh by one of three rules
static void large() {
  Mesh m; const int kind = choose("mesh", SQUARES, COMPLETE);
  if (kind == SQUARES) { Box b(6, 6, 1); m = b.m; }
  else if (kind == CUBES) { Box b(3, 3, 3); m = b.m; }
  else if (kind == TRIANGLES) triangulate(m);
  else if (kind == WHEEL) { m.n = 13; for (int i = 1; i < 13; ++i) { edge(m, 0, i); edge(m, i, i % 12 + 1); } }
  else if (kind == TREE) { m.n = 31; for (int i = 1; i < 31; ++i) edge(m, i, (i - 1) / 2); }
  else { m.n = 9; for (int i = 0; i < 9; ++i) for (int j = 0; j < i; ++j) edge(m, i, j); }
  if (kind > CUBES) { Geo g; g.prio = 0; g.bnd = 2; fill(m, g); }
  for (int i = 0; i < m.n; ++i) {
    m.vol[i] = 1 + (i * 5) % 7;
    if (kind > TRIANGLES) m.ctr[i].resize(3);
    for (size_t d = 0; d < m.ctr[i].size(); ++d) m.ctr[i][d] = d == 0 ? 2 * (i % 6) + i % 3 : d == 1 ? 3 * (i / 6 % 6) + i % 2 : (i * i) % 5;
    for (int j = 0; j < i; ++j) if (m.adj[i][j]) m.w[i][j] = m.w[j][i] = 1 + (i + 2 * j) % 5;
  }
  const int start = choose("start", 0, m.n - 1), rule = choose("rule", 0, 2), len = std::min(m.n, T() ? 16 : 10);
  std::vector<int> o{start};
  while ((int)o.size() < len) {
    int best = -1;
    for (int i = 0; i < m.n; ++i) {
      bool in = false, touch = false;
      for (int x : o) { in |= x == i; touch |= m.adj[x][i]; }
      if (in || !touch) continue;
      if (best < 0 || rule == 1 || (rule == 2 && o.size() % 3)) best = i;
    }
    if (best < 0) break;
    o.push_back(best);
  }
  if (T() || start % 4 == 0) m.vol[o[1]] = sym_f64("volume", 0, 1, 8);
  static const int t[] = {OOM, OOIW, EW, POR2, POR3, APM, DOR2, DOR3, DOME, DIAM};
  const int k = choose("ratio", 0, 12);
  if (k < 6) { m.nbnd[o[0]] = m.nbnd[o[1]] = 0; m.w[o[0]][o[1]] = m.w[o[1]][o[0]] = sym_f64("weight", 0, 1, 8); areas(m); sums(m, t[k], (int)o.size(), &o); }
  else if (k < 10) { areas(m); geo(m, t[k], (int)o.size(), &o); }
  else { m.vol[o[1]] = 3; areas(m); bary(m, k == 10 ? MBR2 : k == 11 ? MBR3 : MOM, (int)o.size(), &o); }
}
CASES({"larger coarse cells", 0, large}, {"sums 3 cells", 0, s3}, {"sums 4 cells", 0, s4}, {"sums grid", 0, s6}, {"distances 3 cells", 0, d3}, {"distances 4 cells", 1, d4},
      {"barycentre 2 cells", 0, b2}, {"barycentre 3 cells", 0, b3}, {"smallest distance from the barycentre", 0, b4})
#endif

#if PROP == 20
#include "model.h"
using Pool = comma::Seeds_Pool<UL, double, int>;
static std::shared_ptr<Pool> pool(int k, const Mesh &m) {
  const bool one = k >= 2;
  if (k % 2 == 0) return std::make_shared<comma::Seeds_Pool_Boundary_Priority<UL, double, int>>(m.nbnd, m.prio, one);
  return std::make_shared<comma::Seeds_Pool_Neighbourhood_Priority<UL, double, int>>(m.nbnd, m.prio, one);
}
// better seed: more boundary faces, higher priority, lower index
static bool better(const Mesh &m, int a, int b) {
  if (m.nbnd[a] != m.nbnd[b]) return m.nbnd[a] > m.nbnd[b];
  if (m.prio[a] != m.prio[b]) return m.prio[a] > m.prio[b];
  return a < b;
}
static void news(const Mesh &m, Pool &p, SeedsModel &ref, std::deque<UL> q) {
  if (chooseb("ordered")) {
    p.order_new_seeds_and_update(std::unordered_set<UL>(q.begin(), q.end()));
    ref.addOrdered(q);
  } else {
    if (chooseb("backwards")) std::reverse(q.begin(), q.end());
    p.update(q);
    ref.add(q);
  }
}
static void history(int n, int prioKind, int bhi, bool updates, bool removeOthers) {
  Mesh m; m.n = n; m.dim = 3;
  fill(m, Geo{0, 0, prioKind, 0, 0});
  for (int i = 0; i < n; ++i) m.nbnd[i] = sym_i32("boundary", i, 0, bhi);
  const int k = choose("pool", 0, 3);
  auto p = pool(k, m);
  SeedsModel ref{m, k % 2 == 0, k >= 2};
  sym_assert(p->is_empty(), "C20 a new pool is empty");
  std::vector<bool> agg(n, false);
  sym_assert(p->need_initialization(agg), "C20 a new pool asks for its initialisation");
  p->initialize();
  ref.init();
  sym_assert(!p->is_empty(), "C20 something to start from");
  bool touched = false;
  int given = 0, left = n;
  for (int round = 0; round <= n; ++round) {
    const auto s = p->choose_new_seed(agg);
    sym_assert(s.has_value() == (left > 0), "C20 a seed exactly as long as cells are left");
    if (!s.has_value() || left == 0) break;
    const int x = (int)*s;
    sym_assert(x < n && !agg[x], "C20 a seed is a cell left");
    if (x >= n || agg[x]) return;
    for (int i = 0; i < n; ++i) {
      if (agg[i] || i == x) continue;
      if (k % 2 == 0) sym_assert(m.nbnd[i] <= m.nbnd[x], "C20 boundary: most boundary faces of those left");
      if (!touched) sym_assert(better(m, x, i), "C20 without news: boundary, priority, index");
    }
    sym_assert(x == ref.next(agg), "C20 the seed that is due");
    sym_observe(x);
    ++given;
    agg[x] = true; --left;
    if (removeOthers)
      for (int i = 0; i < n; ++i)
        if (!agg[i] && sym_bool("also_taken", round * MAXN + i)) { agg[i] = true; --left; }
    if (updates && left) {
      std::deque<UL> q;
      for (int i = 0; i < n; ++i)
        if (!agg[i] && sym_bool("new_seed", round * MAXN + i)) q.push_back(i);
      if (!q.empty()) {
        touched = true;
        news(m, *p, ref, q);
        sym_cover("update");
      }
    }
  }
  if (given == n) sym_cover("every cell was a seed");
}
static void h3() { history(3, 1, 3, false, true); }
static void h3u() { history(3, T() ? 1 : 2, 3, true, true); }
static void h2u() { history(2, 1, 3, true, true); }
static void h4() { history(4, 1, T() ? 3 : 1, false, false); }
static void h4u() { history(4, 2, T() ? 3 : 2, true, false); }
static void h5() { history(5, 2, 3, false, T()); }
// seeds fed before the initialisation, as after an anisotropic pass
static void fed() {
  const int n = T() ? 4 : 3;
  Mesh m; m.n = n; m.dim = 3;
  fill(m, Geo{0, 0, 2, 0, 0});
  for (int i = 0; i < n; ++i) m.nbnd[i] = sym_i32("boundary", i, 0, 3);
  const int k = choose("pool", 0, 3);
  auto p = pool(k, m);
  SeedsModel ref{m, k % 2 == 0, k >= 2};
  std::vector<bool> agg(n, false);
  int left = 0;
  for (int i = 0; i < n; ++i) { if (sym_bool("agglomerated", i)) agg[i] = true; else { agg[i] = false; ++left; } }
  std::deque<UL> q;
  for (int i = 0; i < n; ++i)
    if (!agg[i] && sym_bool("new_seed", i)) q.push_back(i);
#ifndef REDUCED
  if (!q.empty() && chooseb("level")) { p->set_top_queue(m.nbnd[q[0]]); ref.top = m.nbnd[q[0]]; }
#endif
  news(m, *p, ref, q);
  bool need = ref.empty() || ref.top < 0;
  int hi = -1;
  for (int i = 0; i < n; ++i) if (!agg[i]) hi = std::max(hi, m.nbnd[i]);
  if (!need && k % 2 == 0 && hi > ref.top) { need = true; ref.top = hi; }
  const bool ask = p->need_initialization(agg);
  sym_assert(ask == need, "C20 the initialisation is asked for when needed");
  if (ask) { p->initialize(); ref.init(); }
  for (int round = 0; round <= n; ++round) {
    const auto s = p->choose_new_seed(agg);
    sym_assert(s.has_value() == (left > 0), "C20 a seed exactly as long as cells are left");
    if (!s.has_value() || left == 0) break;
    const int x = (int)*s;
    sym_assert(x < n && !agg[x], "C20 a seed is a cell left");
    if (x >= n || agg[x]) return;
    for (int i = 0; i < n; ++i)
      if (!agg[i] && k % 2 == 0) sym_assert(m.nbnd[i] <= m.nbnd[x], "C20 boundary: most boundary faces of those left");
    sym_assert(x == ref.next(agg), "C20 the seed that is due");
    sym_observe(x);
    agg[x] = true; --left;
  }
  if (!q.empty()) sym_cover("fed before");
}
// some dozens of cells: each seed takes some others with it and announces some
static void longer() {
  const int n = 30;
  Mesh m; m.n = n; m.dim = 3;
  fill(m, Geo{0, 0, 2, 2, 0});
  if (chooseb("flat")) for (double &x : m.prio) x = 1;
  for (int i : {3, 17}) m.nbnd[i] = sym_i32("boundary", i, 0, 3);
  m.prio[11] = sym_f64("priority", 11, 0, 30);
  const int k = choose("pool", 0, 3), taken = choose("taken", 0, 3), told = choose("told", 0, 4), step = choose("step", 0, T() ? 2 : 1);
  auto p = pool(k, m);
  SeedsModel ref{m, k % 2 == 0, k >= 2};
  std::vector<bool> agg(n, false);
  p->initialize();
  ref.init();
  int left = n;
  static const int stride[] = {1, 7, 11};
  for (int round = 0; round <= n; ++round) {
    const auto s = p->choose_new_seed(agg);
    sym_assert(s.has_value() == (left > 0), "C20 a seed exactly as long as cells are left");
    if (!s.has_value() || left == 0) break;
    const int x = (int)*s;
    sym_assert(x < n && !agg[x], "C20 a seed is a cell left");
    if (x >= n || agg[x]) return;
    sym_assert(x == ref.next(agg), "C20 the seed that is due");
    sym_observe(x);
    agg[x] = true; --left;
    int c = x;
    for (int t = 0; t < taken; ++t) { c = (c + stride[step]) % n; if (!agg[c]) { agg[c] = true; --left; } }
    std::deque<UL> q;
    for (int t = 0; t < told; ++t) { c = (c + stride[step]) % n; if (!agg[c]) q.push_back(c); }
    if (q.empty()) continue;
    if (round % 2) { p->update(q); ref.add(q); }
    else { p->order_new_seeds_and_update(std::unordered_set<UL>(q.begin(), q.end())); std::sort(q.begin(), q.end()); ref.addOrdered(q); }
  }
}
CASES({"some dozens of cells", 0, longer}, {"3 cells, some taken with each seed", 0, h3}, {"3 cells, news after each seed", 0, h3u}, {"2 cells, news after each seed", 0, h2u},
      {"4 cells", 0, h4}, {"4 cells, news after each seed", 0, h4u}, {"5 cells", 0, h5}, {"fed before the initialisation", 0, fed})
#endif
