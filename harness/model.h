// Reference model of the agglomeration, written from the documented rules: growth of a coarse cell and order of the seeds.
#ifndef MODEL_H
#define MODEL_H
#include <deque>
#include "common.h"
using AR = CoMMAAspectRatioT;
struct Set { bool in[MAXN] = {}; int size = 0; };
// sum of the faces of a cell, those of the boundary estimated from the others
inline double around(const Mesh &m, int i) {
  double s = 0;
  int deg = 0;
  for (int j = 0; j < m.n; ++j) if (m.adj[i][j]) { s += m.w[i][j]; ++deg; }
  return m.nbnd[i] == 0 ? s : s + std::min(m.nbnd[i], m.dim) * s / deg;
}
// value to minimise
inline double measure(const Mesh &m, CoMMAAspectRatioT k, const Set &s) {
  double vol = 0, in = 0, ex = 0, D = -1, E = -1;
  for (int i = 0; i < m.n; ++i) {
    if (!s.in[i]) continue;
    vol += m.vol[i];
    ex += around(m, i);
    for (int j = 0; j < i; ++j) {
      if (!s.in[j]) continue;
      if (m.adj[i][j]) in += m.w[i][j];
      if (k == AR::DIAMETER || k == AR::DIAMETER_OVER_RADIUS || k == AR::DIAMETER_OVER_MIN_EDGE) {
        double d = 0;
        for (size_t x = 0; x < m.ctr[i].size(); ++x) d += (m.ctr[i][x] - m.ctr[j][x]) * (m.ctr[i][x] - m.ctr[j][x]);
        if (D < 0 || d > D) D = d;
        if (E < 0 || d < E) E = d;
      }
    }
  }
  ex -= 2 * in;
  switch (k) {
    case AR::DIAMETER: return D;
    case AR::DIAMETER_OVER_RADIUS: return m.dim == 2 ? D / vol : D * D * D / (vol * vol);
    case AR::DIAMETER_OVER_MIN_EDGE: return s.size == 2 ? D : D / E;
    case AR::ONE_OVER_MEASURE: return 1 / vol;
    case AR::ONE_OVER_INTERNAL_WEIGHTS: return 1 / in;
    case AR::EXTERNAL_WEIGHTS: return ex;
    case AR::PERIMETER_OVER_RADIUS: return m.dim == 2 ? ex * ex / vol : ex * ex * ex / (vol * vol);
    default: return ex / vol;
  }
}
inline bool ratio(CoMMAAspectRatioT k) {
  return k != AR::DIAMETER && k != AR::ONE_OVER_MEASURE && k != AR::ONE_OVER_INTERNAL_WEIGHTS && k != AR::EXTERNAL_WEIGHTS;
}
// One coarse cell in the making: what is in, who can be added
struct Front {
  Set s;
  std::vector<int> cand;
  std::vector<std::vector<int>> hist;  // pure front, latest first
};
// higher priority first, then lower index
inline void byPriority(const Mesh &m, std::vector<int> &v) {
  for (size_t a = 0; a < v.size(); ++a)
    for (size_t b = a + 1; b < v.size(); ++b)
      if (m.prio[v[b]] > m.prio[v[a]] || (m.prio[v[b]] == m.prio[v[a]] && v[b] < v[a])) std::swap(v[a], v[b]);
}
inline bool holds(const std::vector<int> &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
inline void enter(const Mesh &m, const Conf &c, const int *d, Front &f, int x) {
  f.s.in[x] = true; ++f.s.size;
  std::vector<int> fresh;
  if (c.neigh == CoMMANeighbourhoodT::EXTENDED) {
    if (holds(f.cand, x)) f.cand.erase(std::find(f.cand.begin(), f.cand.end(), x));
    for (int i = 0; i < m.n; ++i) if (m.adj[x][i] && d[i] > 0 && !f.s.in[i] && !holds(f.cand, i)) fresh.push_back(i);
    byPriority(m, fresh);
    f.cand.insert(f.cand.end(), fresh.begin(), fresh.end());
    return;
  }
  for (auto &h : f.hist) if (holds(h, x)) h.erase(std::find(h.begin(), h.end(), x));
  for (int i = 0; i < m.n; ++i) if (m.adj[x][i] && d[i] > 0 && !f.s.in[i]) fresh.push_back(i);
  f.hist.insert(f.hist.begin(), fresh);
  f.cand.clear();
  if ((int)f.hist.size() <= m.dim) {
    for (auto &h : f.hist) for (int i : h) if (!holds(f.cand, i)) f.cand.push_back(i);
  } else {
    // latest, oldest, second latest, second oldest, ...
    int lo = 0, hi = (int)f.hist.size() - 1;
    while (lo <= hi && f.cand.empty()) {
      f.cand = f.hist[lo++];
      if (f.cand.empty()) f.cand = f.hist[hi--];
    }
    if (lo > 1) sym_cover("older front");
  }
  byPriority(m, f.cand);
}
inline int shared(const Mesh &m, const Set &s, int x) {
  int f = 0;
  for (int j = 0; j < m.n; ++j) f += m.adj[x][j] && s.in[j];
  return f;
}
// The next cell: most faces in common, nearest to the seed, best shape, first proposed.
// Looking ahead, faces and shape are the best of the cell and of its follower.
inline int nextCell(const Mesh &m, const Conf &c, const int *d, const Front &f, int ahead) {
  int pick = -1, pf = 0;
  double pv = 0;
  bool pk = false;
  for (int x : f.cand) {
    Set t = f.s; t.in[x] = true; ++t.size;
    int k = shared(m, f.s, x);
    Front g;
    int y = -1;
    if (ahead > 1) {
      g = f;
      enter(m, c, d, g, x);
      y = nextCell(m, c, d, g, ahead - 1);
      if (y < 0) return y;
      const int ky = shared(m, t, y);
      if (ky != k) y = -1;
      if (ky > k) { k = ky; sym_cover("follower counts"); }
    }
    if (pick >= 0 && (k < pf || (k == pf && d[x] > d[pick]))) continue;
    const bool tie = pick >= 0 && k == pf && d[x] == d[pick];
    double v = measure(m, c.ar, t);
    if (y >= 0) {
      Set u = t; u.in[y] = true; ++u.size;
      const double w = measure(m, c.ar, u);
      if (w < v) v = w;
    }
    if (tie) {
      sym_cover("decided by the measure");
      if (c.watch && ratio(c.ar) && std::abs(v - pv) <= 1e-9 * std::abs(pv)) c.close = true;
      if (!(v < pv)) continue;
    }
    pick = x; pf = k; pv = v;
  }
  return pick;
}
// The coarse cell grown from a seed among the free cells; dist: distances from the seed, -1 out of reach
inline Set grown(const Mesh &m, const Conf &c, int seed, const bool *free_, int *dist = nullptr) {
  int d[MAXN];
  int total = 1, k = 0;
  for (int i = 0; i < m.n; ++i) d[i] = i == seed ? 0 : -1;
  const int order = std::max(m.dim, c.max / m.dim);
  while (k < order || total < c.max) {
    int added = 0;
    for (int i = 0; i < m.n; ++i)
      if (d[i] < 0 && free_[i])
        for (int j = 0; j < m.n; ++j)
          if (m.adj[i][j] && d[j] == k) { d[i] = k + 1; ++added; break; }
    if (!added) break;
    total += added;
    ++k;
  }
  if (dist) for (int i = 0; i < m.n; ++i) dist[i] = d[i];
  Front f;
  if (total < c.goal) {
    for (int i = 0; i < m.n; ++i) if (d[i] >= 0) { f.s.in[i] = true; ++f.s.size; }
    return f.s;
  }
  enter(m, c, d, f, seed);
  if (total == 1) return f.s;
  const int top = std::min(c.max, total);
  int bestC = 0, bestE = 1000000, bestSize = 0;
  Set best;
  while (f.s.size < top) {
    const int pick = nextCell(m, c, d, f, std::min(c.iter, top - f.s.size));
    if (pick < 0) return Set();
    enter(m, c, d, f, pick);
    const Set &s = f.s;
    if (s.size >= c.min || s.size == top) {
      int comp = 1000, ext = 0;
      for (int i = 0; i < m.n; ++i) {
        if (!s.in[i]) continue;
        int in = 0, out = std::min(m.nbnd[i], m.dim);
        for (int j = 0; j < m.n; ++j) if (m.adj[i][j]) (s.in[j] ? in : out)++;
        comp = std::min(comp, in);
        ext += out;
      }
      if (comp > bestC || (comp == bestC && (ext < bestE || (ext == bestE && bestSize != c.goal)))) {
        if (bestSize && comp == bestC) sym_cover("equally compact sizes");
        bestC = comp; bestE = ext; bestSize = s.size; best = s;
      }
    }
  }
  return best;
}
// The order in which seeds are due: one queue per number of boundary faces
struct SeedsModel {
  const Mesh &m;
  bool bnd, one;
  int top = -1;
  std::vector<int> q[4];
  bool before(int a, int b) const { return m.prio[a] > m.prio[b] || (m.prio[a] == m.prio[b] && a < b); }
  void sort(std::vector<int> &v) const {
    for (size_t a = 0; a < v.size(); ++a) for (size_t b = a + 1; b < v.size(); ++b) if (before(v[b], v[a])) std::swap(v[a], v[b]);
  }
  bool empty() const { return q[0].empty() && q[1].empty() && q[2].empty() && q[3].empty(); }
  void init() {
    if (top < 0) for (int i = 0; i < m.n; ++i) top = std::max(top, m.nbnd[i]);
    std::vector<int> v;
    for (int i = 0; i < m.n; ++i) if (m.nbnd[i] >= top) v.push_back(i);
    sort(v);
    if (one) v.resize(1);
    q[top].insert(q[top].end(), v.begin(), v.end());
  }
  int pop(int l, const std::vector<bool> &agg) {
    while (!q[l].empty()) {
      const int x = q[l].front();
      q[l].erase(q[l].begin());
      if (!agg[x]) return x;
    }
    return -1;
  }
  int next(const std::vector<bool> &agg) {
    if (top < 0) return -1;
    for (int l = top; l >= 0; --l) {
      const int x = pop(l, agg);
      if (x >= 0) { top = l; return x; }
      if (bnd) break;
    }
    int hi = -1;
    for (int i = 0; i < m.n; ++i) if (!agg[i]) hi = std::max(hi, m.nbnd[i]);
    top = hi;
    if (hi < 0) return -1;
    int x = pop(hi, agg);
    if (x >= 0) return x;
    for (int i = 0; i < m.n; ++i) if (!agg[i] && m.nbnd[i] == hi) q[hi].push_back(i);
    sort(q[hi]);
    sym_cover("queue built anew");
    return pop(hi, agg);
  }
  void add(const std::deque<UL> &s) {
    int mx = -1;
    for (UL x : s) {
      const int b = m.nbnd[x];
      mx = std::max(mx, b);
      q[bnd || top < 0 ? b : std::min(b, top)].push_back((int)x);
    }
    if (bnd) top = std::max(top, mx);
  }
  void addOrdered(const std::deque<UL> &s) {
    std::deque<UL> r;
    for (int b = 3; b >= 0; --b) {
      std::vector<int> v;
      for (UL x : s) if (m.nbnd[x] == b) v.push_back((int)x);
      sort(v);
      r.insert(r.end(), v.begin(), v.end());
    }
    add(r);
  }
};
#endif
