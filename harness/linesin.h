// Symbolic choice of given anisotropic lines
#ifndef LINESIN_H
#define LINESIN_H
#include "common.h"
struct LinesIn {
  bool in[MAXN] = {};                     // member of a line with at least two cells
  std::vector<std::vector<int>> lines;    // as given
};
// Up to maxLines disjoint lines with at most maxCells cells in all; adjacent: consecutive cells are neighbours
inline void giveLines(const Mesh &m, Res &r, LinesIn &li, int maxLines, int maxCells, bool adjacent) {
  bool used[MAXN] = {};
  const int nl = choose("lines", 1, maxLines);
  int left = std::min(maxCells, m.n), k = 0;
  r.idx.assign(1, 0);
  r.lines.clear();
  for (int l = 0; l < nl; ++l) {
    std::vector<int> cur;
    const int len = (int)sym_concrete(sym_i32("length", l, 1, left - (nl - 1 - l)));
    left -= len;
    for (int i = 0; i < len; ++i, ++k) {
      const int c = (int)sym_concrete(sym_i32("cell", k, 0, m.n - 1));
      sym_assume(!used[c]);
      if (adjacent && i) sym_assume(m.adj[cur.back()][c]);
      used[c] = true;
      cur.push_back(c);
      r.lines.push_back(c);
    }
    r.idx.push_back(r.lines.size());
    if (len >= 2) for (int c : cur) li.in[c] = true;
    li.lines.push_back(cur);
  }
}
#endif
