// Reference model of the correction of singular coarse cells.
#ifndef CORRMODEL_H
#define CORRMODEL_H
#include "common.h"
inline int inner(const Mesh &m, const std::vector<int> &s) {
  if (s.size() <= 1) return 0;
  int best = 1000;
  for (int a : s) {
    int k = 0;
    for (int b : s) k += m.adj[a][b];
    best = std::min(best, k);
  }
  return best;
}
// The neighbour a set of cells fits best; whole: only one becoming more compact
inline int receiver(const Mesh &m, const std::vector<std::vector<int>> &g, const std::vector<bool> &ok, const std::vector<int> &cells, bool whole) {
  int best = -1, bs = 0;
  bool bc = false;
  for (int q = 0; q < (int)g.size(); ++q) {
    if (!ok[q]) continue;
    int sh = 0;
    auto u = g[q];
    for (int c : cells) {
      for (int v : g[q]) sh += m.adj[c][v];
      u.push_back(c);
    }
    const bool comp = inner(m, u) > inner(m, g[q]);
    if (!sh || (whole && !comp)) continue;
    bool better = best < 0;
    if (!better) {
      if (comp != bc) better = comp;
      else if (!whole && sh != bs) better = sh > bs;
      else better = g[q].size() < g[best].size();
    }
    if (better) { best = q; bs = sh; bc = comp; }
  }
  return best;
}
// Receivers of singular coarse cells, one after the other. Two cells that must part go in either order: bit i of flips for the i-th such pair.
// Number of pairs parted, -1: larger group to part.
inline int expectMoves(const Mesh &m, std::vector<std::vector<int>> &g, int naniso, int th, unsigned flips) {
  const int n = (int)g.size();
  int parted = 0;
  std::vector<bool> gone(n, false), sing(n, false);
  for (int k = naniso; k < n; ++k) sing[k] = (int)g[k].size() <= th;
  for (int k = naniso; k < n; ++k) {
    if (!sing[k] || (int)g[k].size() > th) continue;
    std::vector<bool> ok(n, false);
    for (int q = naniso; q < n; ++q) ok[q] = q != k && !gone[q];
    const bool lone = g[k].size() == 1;
    const int to = receiver(m, g, ok, g[k], !lone);
    if (to >= 0) {
      if (lone) sym_cover("lone cell moved");
      else sym_cover("group moved whole");
      g[to].insert(g[to].end(), g[k].begin(), g[k].end());
      gone[k] = true;
      continue;
    }
    if (lone) continue;
    if (g[k].size() > 2) return -1;
    std::vector<int> left = g[k];
    if (flips >> parted & 1) std::swap(left[0], left[1]);
    ++parted;
    for (bool moved = true; moved && !left.empty();) {
      moved = false;
      // coarse cells touched at the beginning of the round
      std::vector<std::vector<bool>> t;
      for (int c : left) {
        t.push_back(std::vector<bool>(n, false));
        for (int q = 0; q < n; ++q) for (int v : g[q]) if (m.adj[c][v] && ok[q]) t.back()[q] = true;
      }
      std::vector<int> rest;
      for (size_t i = 0; i < left.size(); ++i) {
        const int r = receiver(m, g, t[i], {left[i]}, false);
        if (r < 0) { rest.push_back(left[i]); continue; }
        g[r].push_back(left[i]);
        moved = true;
        sym_cover("pair parted");
      }
      left = rest;
    }
    g[k] = left;
    gone[k] = left.empty();
  }
  std::vector<std::vector<int>> out;
  for (int k = 0; k < n; ++k)
    if (!gone[k]) { std::sort(g[k].begin(), g[k].end()); out.push_back(g[k]); }
  g = out;
  return parted;
}
#endif
