// Reference model of a whole agglomeration without correction.
#ifndef WHOLEMODEL_H
#define WHOLEMODEL_H
#include "model.h"
struct Model {
  const Mesh &m;
  const Conf &c;
  SeedsModel pool;
  std::vector<bool> agg;
  std::vector<int> f2c;
  int ncc = 0, left;
  Model(const Mesh &m, const Conf &c, bool boundary, bool one) : m(m), c(c), pool{m, boundary, one}, agg(m.n, false), f2c(m.n, -1), left(m.n) {}
  void create(const std::vector<int> &v) {
    for (int i : v) { f2c[i] = ncc; agg[i] = true; --left; }
    ++ncc;
  }
  void lines(const std::vector<std::vector<int>> &ls) {
    std::deque<UL> news;
    for (auto l : ls) {
      if (l.size() < 2) continue;
      const int a = l.front(), b = l.back();
      const bool fwd = m.nbnd[a] > m.nbnd[b] || (m.nbnd[a] == m.nbnd[b] && (m.prio[a] > m.prio[b] || (m.prio[a] == m.prio[b] && a < b)));
      if (!fwd) std::reverse(l.begin(), l.end());
      if (c.maxline && *c.maxline < (int)l.size()) l.resize(*c.maxline);
      size_t i = 0;
      while (i + 1 < l.size()) {
        std::vector<int> v{l[i], l[i + 1]};
        const bool three = l.size() - i == 3;
        if (three && c.odd) v.push_back(l[i + 2]);
        i += three ? 3 : 2;
        for (int x : v) news.insert(news.end(), m.col.begin() + m.row[x], m.col.begin() + m.row[x + 1]);
        create(v);
      }
    }
    std::deque<UL> rest;
    for (UL x : news) if (!agg[x]) rest.push_back(x);
    if (!rest.empty()) {
      sym_cover("neighbours of lines come first");
      pool.top = m.nbnd[rest.front()];
      pool.add(rest);
    }
  }
  void start() {
    bool init = pool.empty() || pool.top < 0;
    if (!init && pool.bnd) {
      int hi = -1;
      for (int i = 0; i < m.n; ++i) if (!agg[i]) hi = std::max(hi, m.nbnd[i]);
      if (hi > pool.top) { pool.top = hi; init = true; sym_cover("more boundary faces elsewhere"); }
    }
    if (init) pool.init();
  }
  // false: the model has no answer
  bool run() {
    while (left > 0) {
      const int seed = pool.next(agg);
      if (seed < 0) return false;
      bool av[MAXN];
      int d[MAXN], reach = 0;
      for (int i = 0; i < m.n; ++i) av[i] = !agg[i] && i != seed;
      const Set s = grown(m, c, seed, av, d);
      if (s.size == 0) return false;
      for (int i = 0; i < m.n; ++i) reach += d[i] >= 0;
      std::vector<int> v;
      for (int i = 0; i < m.n; ++i) if (s.in[i]) v.push_back(i);
      create(v);
      if (reach == 1 || reach < c.goal) continue;
      // neighbours of the new coarse cell, the nearest to the seed first, those out of reach last
      std::deque<UL> byDist[MAXN + 1];
      for (int i = 0; i < m.n; ++i) {
        if (agg[i]) continue;
        bool near = false;
        for (int j : v) near |= m.adj[i][j];
        if (near) byDist[d[i] < 0 ? MAXN : d[i]].push_back(i);
      }
      for (auto &q : byDist) if (!q.empty()) pool.addOrdered(q);
    }
    return true;
  }
};
#endif
