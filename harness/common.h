// Shared pieces of the drivers: symbolic meshes, configurations, graph helpers.
#ifndef COMMON_H
#define COMMON_H
#include <algorithm>
#include <array>
#include <iostream>
#include <optional>
#include <string>
#include <vector>

#include "CoMMA/CoMMA.h"
#include "native.h"
#include "symapi.h"
#include "topo_tables.h"

using UL = unsigned long;
using VI = std::vector<UL>;
using VD = std::vector<double>;
using comma::CoMMAAspectRatioT;
using comma::CoMMACellCouplingT;
using comma::CoMMANeighbourhoodT;
using comma::CoMMASeedsPoolT;

#ifndef CELLS
#define CELLS 10
#endif
constexpr int MAXN = CELLS;

// Keep the library silent
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
inline void quiet() {
  static NullBuf nb;
  std::cout.rdbuf(&nb);
  std::cerr.rdbuf(&nb);
}

struct Mesh {
  int n = 0, dim = 2;
  bool adj[MAXN][MAXN] = {};
  double w[MAXN][MAXN] = {};
  VI row, col;
  VD area, vol, prio;
  std::vector<VD> ctr;
  std::vector<int> nbnd;
  VI compliant;
};

inline int pairIdx(int n, int i, int j) {
  if (i > j) std::swap(i, j);
  return i * n - i * (i + 1) / 2 + (j - i - 1);
}
inline void setMask(Mesh &m, int n, unsigned mask) {
  m.n = n;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j) m.adj[i][j] = m.adj[j][i] = (mask >> pairIdx(n, i, j)) & 1;
}
// Any labelled graph
inline void topoAll(Mesh &m, int n) {
  m.n = n;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j) {
      bool e = sym_bool("edge", pairIdx(n, i, j));
      if (e) m.adj[i][j] = m.adj[j][i] = true;
      else m.adj[i][j] = m.adj[j][i] = false;
    }
}
template<size_t K>
inline void topoTable(Mesh &m, int n, const unsigned (&t)[K]) {
  int k = (int)sym_concrete(sym_i32("topology", 0, 0, (int)K - 1));
  setMask(m, n, t[k]);
}
// One representative per isomorphism class (connected or not)
inline void topoClass(Mesh &m, int n, bool connected = true) {
  switch (n * 2 + connected) {
    case 5: topoTable(m, 2, topo_con_2); break;
    case 4: topoTable(m, 2, topo_dis_2); break;
    case 7: topoTable(m, 3, topo_con_3); break;
    case 6: topoTable(m, 3, topo_dis_3); break;
    case 9: topoTable(m, 4, topo_con_4); break;
    case 8: topoTable(m, 4, topo_dis_4); break;
    case 11: topoTable(m, 5, topo_con_5); break;
    case 10: topoTable(m, 5, topo_dis_5); break;
    case 13: topoTable(m, 6, topo_con_6); break;
    default: topoTable(m, 6, topo_dis_6); break;
  }
}
inline void edge(Mesh &m, int i, int j) { m.adj[i][j] = m.adj[j][i] = true; }
// structured nx x ny grid, numbered by rows
inline void topoGrid(Mesh &m, int nx, int ny) {
  m.n = nx * ny;
  for (int j = 0; j < ny; ++j)
    for (int i = 0; i < nx; ++i) {
      int c = j * nx + i;
      if (i + 1 < nx) edge(m, c, c + 1);
      if (j + 1 < ny) edge(m, c, c + nx);
    }
}
// relabels the cells: old cell i becomes p[i]
inline void relabel(Mesh &m, const int *p) {
  Mesh o = m;
  for (int i = 0; i < m.n; ++i)
    for (int j = 0; j < m.n; ++j) m.adj[p[i]][p[j]] = o.adj[i][j];
}
inline void relabelReverse(Mesh &m) {
  int p[MAXN];
  for (int i = 0; i < m.n; ++i) p[i] = m.n - 1 - i;
  relabel(m, p);
}

// Faces of cell i in the order they are listed: increasing for even cells, decreasing for odd ones
inline int listed(const Mesh &m, int i, int k) { return i % 2 ? m.n - 1 - k : k; }
inline void areas(Mesh &m) {
  m.area.clear();
  for (int i = 0; i < m.n; ++i)
    for (int k = 0, j; k < m.n; ++k)
      if (m.adj[i][j = listed(m, i, k)]) m.area.push_back(m.w[i][j]);
}
inline void rows(Mesh &m) {
  m.row.assign(1, 0);
  m.col.clear();
  for (int i = 0; i < m.n; ++i) {
    for (int k = 0, j; k < m.n; ++k)
      if (m.adj[i][j = listed(m, i, k)]) m.col.push_back(j);
    m.row.push_back(m.col.size());
  }
  areas(m);
}

// The plane of the mesh stands in space: three coordinates, the second of which is the same for all cells
inline void stand(Mesh &m) { for (auto &p : m.ctr) p = {p[0], 1, p[1]}; }

// Geometry. kind 0: unit values, 1: symbolic in [1, hi], 2: fixed irregular values
struct Geo { int w = 0, vol = 0, prio = 1, bnd = 1, ctr = 0; int hi = 1000; int plo = -1000, phi = 1000; int bhi = -1; };

inline void fill(Mesh &m, const Geo &g) {
  int n = m.n;
  static const double irr[] = {3, 7, 2, 11, 5, 13, 4, 9, 6, 17, 8, 19, 10, 23, 12};
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j)
      if (m.adj[i][j]) {
        int k = pairIdx(n, i, j);
        m.w[i][j] = g.w == 1 ? sym_f64("weight", k, 1, g.hi) : g.w == 2 ? 60 * irr[k % 15] : 1.0;
        m.w[j][i] = m.w[i][j];
      }
  rows(m);
  m.vol.resize(n); m.prio.resize(n); m.nbnd.resize(n); m.ctr.assign(n, VD(m.dim, 0.0));
  for (int i = 0; i < n; ++i) {
    m.vol[i] = g.vol == 1 ? sym_f64("volume", i, 1, g.hi) : g.vol == 2 ? irr[(i * 4 + 1) % 15] : 1.0;
    m.prio[i] = g.prio == 1 ? sym_f64("priority", i, g.plo, g.phi) : g.prio == 2 ? irr[(i * 7 + 2) % 15] : double(n - i);
    int bh = g.bhi >= 0 ? g.bhi : m.dim;
    m.nbnd[i] = g.bnd == 1 ? sym_i32("boundary", i, 0, bh) : g.bnd == 2 ? (i * 5 + 1) % (m.dim + 1) : 0;
    for (int d = 0; d < m.dim; ++d)
      m.ctr[i][d] = g.ctr == 1 ? sym_f64("centre", i * 3 + d, -g.hi, g.hi)
                    : g.ctr == 2 ? irr[(i * 3 + d * 5) % 15] : d == 0 ? double(i) : d == 1 ? double((i * i) % 5) : double(i % 2);
  }
}

struct Conf {
  bool build = false, aniso = false, odd = true, correction = false, force = true;
  double thresh = 4.;
  CoMMASeedsPoolT pool = CoMMASeedsPoolT::BOUNDARY_PRIORITY;
  int goal = 4, min = 4, max = 4;
  CoMMAAspectRatioT ar = CoMMAAspectRatioT::EXTERNAL_WEIGHTS;
  int sing = 1;
  std::optional<int> maxline;
  CoMMACellCouplingT coupling = CoMMACellCouplingT::MAX_WEIGHT;
  int iter = 1;
  CoMMANeighbourhoodT neigh = CoMMANeighbourhoodT::EXTENDED;
  // for the model: note shapes so close that rounding decides
  bool watch = false;
  mutable bool close = false;
};
struct Res { VI f2c, idx, lines; };

inline void agglo(const Mesh &m, const Conf &c, Res &r) {
  // static: the unused value of an absent limit is zero, not what the stack held before
  static std::optional<UL> limit;
  limit.reset();
  if (c.maxline) limit = *c.maxline;
  comma::agglomerate_one_level<UL, double, int>(
    m.row, m.col, m.area, m.vol, m.ctr, m.prio, m.compliant, m.nbnd, c.build, c.aniso, c.odd, c.thresh, c.pool,
    r.f2c, r.idx, r.lines, c.correction, m.dim, c.goal, c.min, c.max, c.ar, c.sing, limit, c.coupling, c.force,
    c.iter, c.neigh);
}
inline CoMMASeedsPoolT poolOf(int k) {
  static const CoMMASeedsPoolT p[] = {CoMMASeedsPoolT::BOUNDARY_PRIORITY, CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY,
                                      CoMMASeedsPoolT::BOUNDARY_PRIORITY_ONE_POINT_INIT,
                                      CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY_ONE_POINT_INIT};
  return p[k];
}
inline int choose(const char *name, int lo, int hi) { return (int)sym_concrete(sym_i32(name, 0, lo, hi)); }
inline bool chooseb(const char *name) { return sym_concrete(sym_i32(name, 0, 0, 1)) != 0; }

// --- oracles on results
inline bool isPartition(const Mesh &m, const VI &f, int &ncc) {
  if ((int)f.size() != m.n) return false;
  bool used[MAXN + 2] = {};
  int mx = -1;
  for (UL v : f) {
    if (v >= (UL)m.n) return false;
    used[v] = true;
    mx = std::max(mx, (int)v);
  }
  for (int i = 0; i <= mx; ++i)
    if (!used[i]) return false;
  ncc = mx + 1;
  return true;
}
inline bool connectedSet(const Mesh &m, const std::vector<int> &cells) {
  if (cells.empty()) return true;
  bool in[MAXN] = {}, vis[MAXN] = {};
  for (int c : cells) in[c] = true;
  int st[MAXN], k = 0, cnt = 0;
  st[k++] = cells[0];
  vis[cells[0]] = true;
  while (k) {
    int c = st[--k];
    ++cnt;
    for (int j = 0; j < m.n; ++j)
      if (m.adj[c][j] && in[j] && !vis[j]) { vis[j] = true; st[k++] = j; }
  }
  return cnt == (int)cells.size();
}
inline std::vector<std::vector<int>> groups(const VI &f, int ncc) {
  std::vector<std::vector<int>> g(ncc);
  for (size_t i = 0; i < f.size(); ++i) g[f[i]].push_back((int)i);
  return g;
}
inline void observe(const Res &r) {
  for (UL v : r.f2c) sym_observe(v);
  sym_observe(777);
  for (UL v : r.idx) sym_observe(v);
  for (UL v : r.lines) sym_observe(v);
}

// --- table of cases
struct Case { const char *name; int tier; void (*fn)(); };
#define CASES(...)                                                             \
  static const Case kCases[] = {__VA_ARGS__};                                  \
  extern "C" int sym_native_ncases() { return sizeof(kCases) / sizeof(Case); } \
  extern "C" const char *sym_native_case_name(int c) { return kCases[c].name; } \
  extern "C" int sym_native_case_tier(int c) { return kCases[c].tier; }        \
  extern "C" void harness_main(int c) { quiet(); kCases[c].fn(); }
#endif
