// Reference model of the lines built from couplings and directions.
#ifndef LINESMODEL_H
#define LINESMODEL_H
#include "common.h"
using Line = std::vector<int>;

// coupling of two neighbours as a pair (value to be large): the face, or the inverse of the squared distance
struct Coupling {
  const Mesh &m;
  bool dist;
  double d2(int i, int j) const {
    double s = 0;
    for (size_t x = 0; x < m.ctr[i].size(); ++x) s += (m.ctr[i][x] - m.ctr[j][x]) * (m.ctr[i][x] - m.ctr[j][x]);
    return s;
  }
  // i-j coupled at least as strongly as i-k
  bool stronger(int i, int j, int k) const { return dist ? d2(i, j) < d2(i, k) : m.w[i][j] > m.w[i][k]; }
  // above 90% of the strongest coupling of i
  bool high(int i, int j) const {
    bool h = true;
    for (int k = 0; k < m.n; ++k)
      if (k != j && m.adj[i][k]) h = h & (dist ? d2(i, k) > 0.9 * d2(i, j) : m.w[i][j] > 0.9 * m.w[i][k]);
    return h;
  }
};
inline void step(const Mesh &m, int from, int to, double *d) {
  for (size_t x = 0; x < m.ctr[from].size(); ++x) d[x] = m.ctr[to][x] - m.ctr[from][x];
}
inline double dot(const Mesh &m, const double *a, const double *b) {
  double s = 0;
  for (size_t x = 0; x < m.ctr[0].size(); ++x) s += a[x] * b[x];
  return s;
}
static const double kCos2 = 0.9396926207859084 * 0.9396926207859084;
inline bool aligned(const Mesh &m, const double *a, const double *b) {
  const double s = dot(m, a, b);
  return (s > 0) & (s * s >= kCos2 * dot(m, a, a) * dot(m, b, b));
}
inline bool eligible(const Mesh &m, const Conf &c, int i) {
  bool comp = false;
  for (UL v : m.compliant) comp |= (int)v == i;
  if (!comp) return false;
  if (c.thresh < 0) return true;
  double lo = -1, hi = -1;
  for (int j = 0; j < m.n; ++j)
    if (m.adj[i][j]) {
      if (lo < 0 || m.w[i][j] < lo) lo = m.w[i][j];
      if (hi < 0 || m.w[i][j] > hi) hi = m.w[i][j];
    }
  if (lo < 0) return false;
  const double t = c.thresh > 1 ? c.thresh : 1 / c.thresh;
  return m.dim == 2 ? hi >= t * lo : hi >= t * t * lo;
}
inline bool better(const Mesh &m, int a, int b) { return (m.prio[a] > m.prio[b]) | ((m.prio[a] == m.prio[b]) & (a < b)); }

// Lines by the rules
inline std::vector<Line> expected(const Mesh &m, const Conf &c) {
  const Coupling k{m, c.coupling == CoMMACellCouplingT::MIN_DISTANCE};
  std::vector<Line> L;
  bool fr[MAXN];
  std::vector<int> seeds;
  for (int i = 0; i < m.n; ++i) {
    fr[i] = eligible(m, c, i);
    if (fr[i]) seeds.push_back(i);
  }
  for (size_t a = 0; a < seeds.size(); ++a)
    for (size_t b = a + 1; b < seeds.size(); ++b)
      if (better(m, seeds[b], seeds[a])) std::swap(seeds[a], seeds[b]);
  for (int s : seeds) {
    if (!fr[s]) continue;
    fr[s] = false;
    Line l{s};
    double first[3] = {}, dir[3] = {};
    for (int way = 0; way < 2; ++way) {
      int e = s;
      if (way) { if (l.size() == 1) break; for (int x = 0; x < 3; ++x) dir[x] = -first[x]; }
      while (true) {
        int pick = -1;
        if (!c.force || l.size() == 1) {
          for (int q = 0; q < m.n; ++q)
            if (m.adj[e][q] && fr[q] && k.high(e, q) && (pick < 0 || k.stronger(e, q, pick))) pick = q;
        } else {
          for (int any = 0; any < 2 && pick < 0; ++any) {
            double pb[3] = {};
            for (int q = 0; q < m.n; ++q) {
              if (!m.adj[e][q] || !fr[q]) continue;
              double b[3] = {};
              step(m, e, q, b);
              if (!aligned(m, dir, b)) continue;
              if (!any && !k.high(e, q)) continue;
              if (pick >= 0) {
                const double x = dot(m, dir, b), y = dot(m, dir, pb), p = x * x * dot(m, pb, pb), r = y * y * dot(m, b, b);
                sym_cover("two aligned candidates");
                if (!(p > r)) continue;
              }
              pick = q;
              std::copy(b, b + 3, pb);
              if (any) sym_cover("straight through a weak face");
            }
          }
        }
        if (pick < 0) break;
        double b[3] = {};
        step(m, e, pick, b);
        if (l.size() == 1) std::copy(b, b + 3, first);
        std::copy(b, b + 3, dir);
        fr[pick] = false;
        if (way) { l.insert(l.begin(), pick); sym_cover("grown at both ends"); } else l.push_back(pick);
        e = pick;
      }
    }
    if (l.size() > 1) L.push_back(l);
  }
  return L;
}
// first cell to be cut: more boundary faces, higher priority, lower index
inline Line oriented(const Mesh &m, Line l) {
  const int a = l.front(), b = l.back();
  const bool fwd = (m.nbnd[a] > m.nbnd[b]) | ((m.nbnd[a] == m.nbnd[b]) & better(m, a, b));
  if (!fwd) std::reverse(l.begin(), l.end());
  return l;
}
#endif
