// Structured meshes of some dozens of cells
#ifndef BOX_H
#define BOX_H
#include "common.h"
inline CoMMANeighbourhoodT neighOf(int k) { return k ? CoMMANeighbourhoodT::PURE_FRONT : CoMMANeighbourhoodT::EXTENDED; }
// a box, layers of strongly coupled cells standing on its bottom
struct Box {
  Mesh m;
  int nx, ny, nz;
  int id(int i, int j, int k) const { return (k * ny + j) * nx + i; }
  Box(int nx, int ny, int nz) : nx(nx), ny(ny), nz(nz) {
    m.n = nx * ny * nz; m.dim = nz > 1 ? 3 : 2;
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
      if (i + 1 < nx) edge(m, id(i, j, k), id(i + 1, j, k));
      if (j + 1 < ny) edge(m, id(i, j, k), id(i, j + 1, k));
      if (k + 1 < nz) edge(m, id(i, j, k), id(i, j, k + 1));
    }
    Geo g; g.prio = 2; g.bnd = 0; fill(m, g);
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
      const int c = id(i, j, k);
      m.nbnd[c] = (i == 0 || i == nx - 1) + (j == 0 || j == ny - 1) + (nz > 1 && (k == 0 || k == nz - 1));
      m.ctr[c][0] = 16 * i; m.ctr[c][1] = j;
      if (nz > 1) m.ctr[c][2] = 16 * k;
      m.compliant.push_back(c);
    }
  }
  void layer(int i, int k, int h) {
    for (int j = 0; j + 1 < h; ++j) m.w[id(i, j, k)][id(i, j + 1, k)] = m.w[id(i, j + 1, k)][id(i, j, k)] = 16;
  }
};
// squares cut in two triangles
inline void triangulate(Mesh &m) {
  m.n = 32;
  auto id = [](int i, int j, int u) { return (j * 4 + i) * 2 + u; };
  for (int j = 0; j < 4; ++j) for (int i = 0; i < 4; ++i) {
    edge(m, id(i, j, 0), id(i, j, 1));
    if (i < 3) edge(m, id(i, j, 1), id(i + 1, j, 0));
    if (j < 3) edge(m, id(i, j, 1), id(i, j + 1, 0));
  }
  Geo g; g.prio = 2; g.bnd = 0; g.w = 2 * choose("weights", 0, 1); g.vol = 2; fill(m, g);
  for (int j = 0; j < 4; ++j) for (int i = 0; i < 4; ++i) for (int u = 0; u < 2; ++u) {
    m.nbnd[id(i, j, u)] = u ? (i == 3) + (j == 3) : (i == 0) + (j == 0);
    m.ctr[id(i, j, u)][0] = 3 * i + u; m.ctr[id(i, j, u)][1] = 3 * j + u;
  }
}
#if CELLS >= 36
// Meshes of some dozens of cells, regular or not, in one piece or not; one or no symbolic priority.
// Which one: 6x6 squares, 3x3x3 cubes, 32 triangles, wheel, binary tree, two pieces, ring with chords, complete graph of 9 cells.
enum { SQUARES, CUBES, TRIANGLES, WHEEL, TREE, PIECES, CHORDS, COMPLETE, LARGE };
inline int largeMesh(Mesh &m, int lo = SQUARES, int hi = LARGE - 1) {
  const int k = choose("mesh", lo, hi);
  if (k == SQUARES) { Box b(6, 6, 1); m = b.m; }
  else if (k == CUBES) { Box b(3, 3, 3); m = b.m; }
  else if (k == TRIANGLES) triangulate(m);
  else if (k == WHEEL) { m.n = 13; for (int i = 1; i < 13; ++i) { edge(m, 0, i); edge(m, i, i % 12 + 1); } }
  else if (k == TREE) { m.n = 31; for (int i = 1; i < 31; ++i) edge(m, i, (i - 1) / 2); }
  else if (k == PIECES) {
    m.n = 33;
    for (int i = 0; i < 20; ++i) { if (i % 5 < 4) edge(m, i, i + 1); if (i < 15) edge(m, i, i + 5); }
    for (int i = 21; i < 32; ++i) { edge(m, i, i + 1); if (i % 3 == 0 && i < 31) edge(m, i, i + 2); }  // 20 stands alone
  } else if (k == CHORDS) { m.n = 24; for (int i = 0; i < 24; ++i) { edge(m, i, (i + 1) % 24); if (i % 4 == 0) edge(m, i, (i + 7) % 24); } }
  else { m.n = 9; for (int i = 0; i < 9; ++i) for (int j = 0; j < i; ++j) edge(m, i, j); }
  if (k > CUBES) {
    if (k == TREE || k >= CHORDS) m.dim = 3;
    Geo g; g.prio = 2; g.bnd = k == TRIANGLES ? 0 : 2; g.w = 2; g.vol = 2; fill(m, g);
    if (k == PIECES) for (int i = 20; i < 33; ++i) m.nbnd[i] = i % 4 == 0 ? 1 : i % 6 == 3 ? 2 : 0;
    if (k == TRIANGLES) for (int i = 0; i < m.n; ++i) m.nbnd[i] = i % 2 ? (i / 2 % 4 == 3) + (i >= 24) : (i / 2 % 4 == 0) + (i < 8);
    for (int i = 0; i < m.n; ++i) { m.ctr[i] = {double(i % 6 * (3 + i % 6)), double(i / 6 * (4 + i / 6))}; if (k > TRIANGLES) m.ctr[i].push_back(i * 5 % 7 * 4); }
  }
  const int o = choose("priorities", 0, 2);
  if (o == 1) for (double &x : m.prio) x = 1;
  if (o == 2) m.prio[m.n / 2] = sym_f64("priority", m.n / 2, 0, 30);
  return k;
}
inline void largeCards(Conf &c, int hi = 7) {
  static const int t[][3] = {{4, 4, 4}, {2, 4, 5}, {8, 8, 8}, {3, 3, 3}, {6, 8, 10}, {2, 2, 2}, {2, 3, 4}, {12, 16, 20}};
  const int k = choose("cards", 0, hi);
  c.min = t[k][0]; c.goal = t[k][1]; c.max = t[k][2];
}
#endif
#endif
