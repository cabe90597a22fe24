// Symbolic runtime: expressions, path exploration, solver, workers.
#include <cxxabi.h>
#include <dlfcn.h>
#include <poll.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <z3.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using std::string;
using std::vector;
typedef uint32_t H;

// ------------------------------------------------------------------ globals
extern "C" {
H __symrt_arg[64];
int64_t __symrt_byval[64];
void *__symrt_marker;
H __symrt_ret[64];
uint8_t __symrt_filter[1u << 20];
double __symrt_fover;
}
extern "C" {
__attribute__((weak)) extern uint8_t __symrt_fnhits[];
__attribute__((weak)) extern const char __symrt_fnnames[];
int sym_native_ncases();
const char *sym_native_case_name(int);
int sym_native_case_tier(int);
void harness_main(int);
void sym_native_sections(char **, char **);
}

static volatile int in_target = 0;
struct Guard {
  int o;
  Guard() : o(in_target) { in_target = 0; }
  ~Guard() { in_target = o; }
};

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ arena
static char *arena, *arena_cur, *arena_end;
static bool arena_overflow;
static const size_t ARENA = 256u << 20;
enum Outcome { DONE, PRUNED, CRASH, TIMEOUT, MEMORY, UNCAUGHT, VIOL, DEPTH, ENGINE };
static void end_path(Outcome);

static void *target_new(size_t n) {
  if (!in_target) {
    void *p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
  }
  size_t m = ((n + 15) & ~size_t(15)) + 32;
  if (n > ARENA || arena_cur + m > arena_end) end_path(MEMORY);
  char *p = arena_cur + 16;
  *(size_t *)arena_cur = n;
  arena_cur += m;
  memset(p, 0xCD, n < 256 ? n : 256);
  return p;
}
static void target_del(void *p) {
  if (!p) return;
  if (p >= arena && p < arena_end) {
    size_t n = *(size_t *)((char *)p - 16);
    memset(p, 0xDD, n < 256 ? n : 256);
    return;
  }
  free(p);
}
void *operator new(size_t n) { return target_new(n); }
void *operator new[](size_t n) { return target_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return target_new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return target_new(n); }
void operator delete(void *p) noexcept { target_del(p); }
void operator delete[](void *p) noexcept { target_del(p); }
void operator delete(void *p, size_t) noexcept { target_del(p); }
void operator delete[](void *p, size_t) noexcept { target_del(p); }

// ------------------------------------------------------------------ expressions
enum Op : uint8_t {
  O_NONE, K_I, K_F, V_I, V_B, V_F, HAVOC,
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR,  // 7..19
  EQ, ULT, ULE, SLT, SLE, NOT, ZEXT, SEXT, TRUNC, ITE,
  POLY, FLT0, FEQ0, FITE, FDIV, FSQRT, FABS, FOTHER
};
typedef unsigned __int128 u128;
struct Mono { vector<std::pair<H, int>> f; };  // sorted atoms with exponents
// exact dyadic number m * 2^e (m odd, or zero)
struct Dy {
  __int128 m; int e;
  Dy() : m(0), e(0) {}
  Dy(double d) : m(0), e(0) {
    if (d == 0) return;
    int x; double f = std::frexp(d, &x);
    m = (__int128)std::ldexp(f, 53); e = x - 53;
    norm();
  }
  void norm() { if (m == 0) { e = 0; return; } while ((m & 1) == 0) { m /= 2; ++e; } }
  operator double() const { return (double)std::ldexp((long double)m, e); }
  int sign() const { return m < 0 ? -1 : m > 0; }
  bool integer() const { return e >= 0; }
  bool operator==(const Dy &o) const { return m == o.m && e == o.e; }
  bool operator!=(const Dy &o) const { return !(*this == o); }
};
static bool mulDy(const Dy &a, const Dy &b, Dy &r) {
  if (__builtin_mul_overflow(a.m, b.m, &r.m)) return false;
  r.e = a.e + b.e;
  if (r.m == 0) r.e = 0;
  return true;
}
static bool addDy(const Dy &a, const Dy &b, Dy &r) {
  if (a.m == 0) { r = b; return true; }
  if (b.m == 0) { r = a; return true; }
  const Dy &hi = a.e >= b.e ? a : b, &lo = a.e >= b.e ? b : a;
  const int d = hi.e - lo.e;
  if (d > 120) return false;
  __int128 x;
  if (__builtin_mul_overflow(hi.m, (__int128)1 << d, &x) || __builtin_add_overflow(x, lo.m, &x)) return false;
  r.m = x; r.e = lo.e;
  r.norm();
  return true;
}
static Dy negDy(const Dy &a) { Dy r = a; r.m = -r.m; return r; }
static Dy floorDy(const Dy &a) {
  if (a.e >= 0) return a;
  Dy r; r.m = a.e < -126 ? (a.m < 0 ? -1 : 0) : a.m >> -a.e; r.e = 0; r.norm();
  return r;
}
struct Poly { vector<std::pair<uint32_t, Dy>> t; };  // (monomial id, coef), sorted
struct Node {
  Op op; uint8_t w; bool isint; uint8_t code;
  H a, b, c;
  uint64_t k, hash;
  Z3_ast ast, astL, astB;
  uint32_t epoch; uint64_t val;
  uint8_t nl;  // 0 not computed, 1 linear, 2 has products of variables, 3 also quotients or roots, 4 also unconstrained values
  uint32_t eepoch; uint64_t eint; long double efp;
  uint32_t kepoch; uint8_t kdir;
  uint32_t fepoch;  // value fixed by an earlier decision of the path
  uint32_t depoch; uint64_t dom;  // small integer variables: values still possible (bit i: lo + i)
  double lo, hi;
  int var;  // index in vars
  uint32_t poly;  // index in polys (FP nodes)
};
struct Var { uint64_t hash; H node; string name; int64_t lo, hi; };

static vector<Node> N;
static vector<Poly> polys;
static vector<Mono> monos;
static std::unordered_map<uint64_t, vector<H>> cons;
static std::unordered_map<string, uint32_t> monoIdx;
static std::unordered_map<string, H> polyIdx;
static vector<Var> vars;
static std::unordered_map<uint64_t, int> varByHash;
static uint32_t epoch = 0;
static int exact_mode = 0;

static Z3_context ctx;
static Z3_solver solver;
static Z3_sort sInt, sReal, sBool;

static uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
static uint64_t hstr(const char *s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ (uint8_t)*s) * 1099511628211ull;
  return h;
}
static double d_of(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t b_of(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static int64_t sext(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

// ---- statistics
struct Stats {
  uint64_t paths = 0, pruned = 0, violpaths = 0, decisions = 0, implied = 0, queries = 0, sat = 0, unsat = 0, unknown = 0,
           asserts_sym = 0, asserts_conc = 0, assert_unknown = 0, mismatch = 0, incomplete = 0, diverged = 0,
           conc = 0, havoc_paths = 0, maxdepth = 0, unsupported = 0, depthcut = 0, jobs = 0;
  double solver_s = 0;
};
static Stats st;
static std::map<string, uint64_t> covers, reasons;
static std::set<uint32_t> sites;
static vector<uint8_t> fnacc;

[[noreturn]] static void fatal(const char *m) {
  fprintf(stderr, "symrt: fatal: %s\n", m);
  _exit(3);
}
static void incomplete(const char *why) { st.incomplete++; reasons[why]++; }

static H mknode(Op op, uint8_t w, uint8_t code, H a, H b, H c, uint64_t k) {
  uint64_t h = mix(mix(hstr("n"), op * 1000003ull + w * 257 + code), k);
  h = mix(h, a ? N[a].hash : 1); h = mix(h, b ? N[b].hash : 2); h = mix(h, c ? N[c].hash : 3);
  auto &v = cons[h];
  for (H x : v) {
    Node &n = N[x];
    if (n.op == op && n.w == w && n.code == code && n.a == a && n.b == b && n.c == c && n.k == k) return x;
  }
  Node n{};
  n.op = op; n.w = w; n.code = code; n.a = a; n.b = b; n.c = c; n.k = k; n.hash = h; n.var = -1;
  n.lo = -1e300; n.hi = 1e300;
  N.push_back(n);
  H r = N.size() - 1;
  v.push_back(r);
  return r;
}
static H K(unsigned w, uint64_t v) {
  v &= maskw(w);
  H h = mknode(K_I, w, 0, 0, 0, 0, v);
  N[h].epoch = epoch; N[h].val = v;
  return h;
}
static bool isK(H h) { return N[h].op == K_I; }
static void setv(H h, uint64_t v) { N[h].epoch = epoch; N[h].val = v; }
static uint64_t val(H h) {
  if (N[h].op == K_I) return N[h].k;
  if (N[h].epoch != epoch) fatal("value of a stale node");
  return N[h].val;
}
static bool fixedNode(H h, int lvl = 0) {
  if (!h) return true;
  if (N[h].op == K_I || N[h].op == K_F || N[h].fepoch == epoch) return true;
  if (lvl > 5 || N[h].op < ADD || N[h].op > ITE) return false;
  if (!fixedNode(N[h].a, lvl + 1) || !fixedNode(N[h].b, lvl + 1) || !fixedNode(N[h].c, lvl + 1)) return false;
  N[h].fepoch = epoch;
  return true;
}
// operand: shadow handle + native value -> node (constant if concrete)
static bool check(H s, uint64_t native, unsigned w) {
  Node &n = N[s];
  if (n.epoch != epoch && n.op != K_I) { st.mismatch++; return false; }
  if (w && n.w != w) {
    if (n.w == 0 && n.val == native && native) incomplete("integer operation on a floating-point value");
    else st.mismatch++;
    return false;
  }
  if (n.val != (w ? (native & maskw(w)) : native)) {
    if (w == 0 && d_of(n.val) == d_of(native)) return true;
    st.mismatch++;
    return false;
  }
  return !fixedNode(s);
}

// ---- polynomials
static uint32_t monoId(const Mono &m) {
  string k((const char *)m.f.data(), m.f.size() * sizeof(m.f[0]));
  auto it = monoIdx.find(k);
  if (it != monoIdx.end()) return it->second;
  monos.push_back(m);
  monoIdx[k] = monos.size() - 1;
  return monos.size() - 1;
}
static void bounds(const Poly &p, double &lo, double &hi) {
  lo = hi = 0;
  for (auto &t : p.t) {
    double l = 1, h = 1;
    for (auto &f : monos[t.first].f) {
      for (int e = 0; e < f.second; ++e) {
        double a = N[f.first].lo, b = N[f.first].hi;
        double c[4] = {l * a, l * b, h * a, h * b};
        l = *std::min_element(c, c + 4); h = *std::max_element(c, c + 4);
        if (std::isnan(l) || std::isnan(h)) { l = -1e300; h = 1e300; }
      }
      if (f.second % 2 == 0 && monos[t.first].f.size() == 1 && l < 0) l = 0;
    }
    const double q = t.second; double a = l * q, b = h * q;
    if (a > b) std::swap(a, b);
    lo += a; hi += b;
  }
  if (std::isnan(lo) || lo < -1e300) lo = -1e300;
  if (std::isnan(hi) || hi > 1e300) hi = 1e300;
}
static H polyNode(const Poly &p) {
  string k((const char *)p.t.data(), 0);
  for (auto &t : p.t) { k.append((const char *)&t.first, 4); k.append((const char *)&t.second.m, 16); k.append((const char *)&t.second.e, 4); }
  auto it = polyIdx.find(k);
  if (it != polyIdx.end()) return it->second;
  H r;
  if (p.t.size() == 1 && p.t[0].second == Dy(1.0) && monos[p.t[0].first].f.size() == 1
      && monos[p.t[0].first].f[0].second == 1) {
    r = monos[p.t[0].first].f[0].first;
  } else {
    polys.push_back(p);
    // structural hash independent of the numbering
    uint64_t h = hstr("poly");
    for (auto &t : p.t) {
      uint64_t m = mix(mix((uint64_t)t.second.m, (uint64_t)(t.second.m >> 64)), (uint64_t)(int64_t)t.second.e);
      for (auto &f : monos[t.first].f) m += mix(N[f.first].hash, f.second);
      h += mix(77, m);
    }
    Node n{};
    n.op = POLY; n.w = 0; n.hash = h; n.var = -1; n.poly = polys.size() - 1;
    bounds(p, n.lo, n.hi);
    N.push_back(n);
    r = N.size() - 1;
  }
  polyIdx[k] = r;
  return r;
}
static Poly polyOf(H h) {
  if (N[h].op == POLY) return polys[N[h].poly];
  Poly p;
  if (N[h].op == K_F) {
    if (d_of(N[h].k) != 0) p.t.push_back({monoId(Mono{}), d_of(N[h].k)});
    return p;
  }
  Mono m; m.f.push_back({h, 1});
  p.t.push_back({monoId(m), 1.0});
  return p;
}
static Poly constPoly(const Dy &c) {
  Poly p;
  if (c.m != 0) p.t.push_back({monoId(Mono{}), c});
  return p;
}
static bool polyAdd(const Poly &a, const Poly &b, const Dy &sb, Poly &r) {
  size_t i = 0, j = 0;
  r.t.clear();
  while (i < a.t.size() || j < b.t.size()) {
    if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i >= a.t.size() || b.t[j].first < a.t[i].first) {
      Dy q;
      if (!mulDy(sb, b.t[j].second, q)) return false;
      r.t.push_back({b.t[j].first, q}); ++j;
    } else {
      Dy s, q;
      if (!mulDy(sb, b.t[j].second, q) || !addDy(a.t[i].second, q, s)) return false;
      if (s.m != 0) r.t.push_back({a.t[i].first, s});
      ++i; ++j;
    }
  }
  return true;
}
static bool polyMul(const Poly &a, const Poly &b, Poly &r) {
  std::map<uint32_t, Dy> m;
  for (auto &x : a.t)
    for (auto &y : b.t) {
      Dy c;
      if (!mulDy(x.second, y.second, c)) return false;
      std::map<H, int> f;
      for (auto &q : monos[x.first].f) f[q.first] += q.second;
      for (auto &q : monos[y.first].f) f[q.first] += q.second;
      Mono mm; mm.f.assign(f.begin(), f.end());
      uint32_t id = monoId(mm);
      Dy s;
      if (!addDy(m[id], c, s)) return false;
      m[id] = s;
    }
  r.t.clear();
  for (auto &x : m) if (x.second.m != 0) r.t.push_back(x);
  return true;
}
static bool isConstPoly(const Poly &p, double &c) {
  if (p.t.empty()) { c = 0; return true; }
  if (p.t.size() == 1 && monos[p.t[0].first].f.empty()) { c = p.t[0].second; return true; }
  return false;
}

// ------------------------------------------------------------------ z3
static string decimal(__int128 v) {
  if (v == 0) return "0";
  const bool neg = v < 0;
  unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
  string r;
  while (u) { r.insert(r.begin(), (char)('0' + (int)(u % 10))); u /= 10; }
  return neg ? "-" + r : r;
}
static Z3_ast numDy(const Dy &d, bool asInt) {
  if (d.e >= 0) {
    __int128 x;
    if (d.e < 120 && !__builtin_mul_overflow(d.m, (__int128)1 << d.e, &x)) return Z3_mk_numeral(ctx, decimal(x).c_str(), asInt ? sInt : sReal);
    char buf[2600];
    snprintf(buf, sizeof buf, "%.0Lf", std::ldexp((long double)d.m, d.e));
    return Z3_mk_numeral(ctx, buf, asInt ? sInt : sReal);
  }
  if (d.e < -1023) return Z3_mk_numeral(ctx, "0", asInt ? sInt : sReal);
  char buf[2600];
  snprintf(buf, sizeof buf, "%s/%.0f", decimal(d.m).c_str(), std::ldexp(1.0, -d.e));
  return Z3_mk_numeral(ctx, buf, asInt ? sInt : sReal);
}
static Z3_ast numReal(double d, bool asInt) {
  char buf[2600];
  if (d == std::floor(d)) snprintf(buf, sizeof buf, "%.0f", d);
  else {
    int e; double m = std::frexp(d, &e);
    double mi = std::ldexp(m, 53); int sh = 53 - e;
    while (std::fmod(mi, 2.0) == 0) { mi /= 2; sh--; }
    if (sh > 1023) return Z3_mk_numeral(ctx, "0", asInt ? sInt : sReal);
    snprintf(buf, sizeof buf, "%.0f/%.0f", mi, std::ldexp(1.0, sh));
  }
  return Z3_mk_numeral(ctx, buf, asInt ? sInt : sReal);
}
static Z3_ast AST(H h);
static Z3_ast toReal(H h) {
  Z3_ast a = AST(h);
  if (Z3_get_sort_kind(ctx, Z3_get_sort(ctx, a)) == Z3_INT_SORT) return Z3_mk_int2real(ctx, a);
  return a;
}
static constexpr double HSCALE = 1024;
// integer-valued z3 term and scale of an atom: value = term / scale
static bool atomInt(H h, double &scale) {
  Node &n = N[h];
  if (n.op == V_F) { scale = 1; return true; }
  if (n.op == HAVOC) { scale = HSCALE; return true; }
  if (n.op == FITE && n.isint) { scale = 1; return true; }
  return false;
}
// builds a linear/polynomial term; if asInt is set on return the term is
// scale*p with integer sort, otherwise p with real sort
static int abs_mode;  // 1: products of variables become variables of their own; 2: bit vectors
static std::set<std::pair<uint32_t, bool>> absUsed;
static Z3_ast absConst(uint32_t mono, bool ints) {
  char nm[40];
  snprintf(nm, sizeof nm, "mono!%u%s", mono, ints ? "" : "r");
  return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), ints ? sInt : sReal);
}
static int degree(const Mono &m) { int d = 0; for (auto &f : m.f) d += f.second; return d; }
static Z3_ast polyTerm(const Poly &p, bool &asInt) {
  bool ints = true;
  int sh = 0;  // scale 2^sh
  for (auto &t : p.t) {
    int e = t.second.e;
    for (auto &f : monos[t.first].f) {
      double s;
      if (!atomInt(f.first, s)) { ints = false; break; }
      if (s != 1) e -= 10 * f.second;
    }
    if (!ints) break;
    sh = std::max(sh, -e);
  }
  static_assert(HSCALE == 1024, "scale");
  if (ints) {
    if (sh > 50) ints = false;
    for (auto &t : p.t) if (std::fabs(std::ldexp((double)t.second, sh)) > 9e15) ints = false;
  }
  asInt = ints;
  vector<Z3_ast> sum;
  for (auto &t : p.t) {
    vector<Z3_ast> prod;
    Dy c = t.second;
    if (ints) {
      for (auto &f : monos[t.first].f) { double s; atomInt(f.first, s); if (s != 1) c.e -= 10 * f.second; }
      c.e += sh;
    }
    if (c != Dy(1.0) || monos[t.first].f.empty()) prod.push_back(numDy(c, ints));
    if (abs_mode == 1 && degree(monos[t.first]) > 1) {
      prod.push_back(absConst(t.first, ints));
      absUsed.insert({t.first, ints});
      sum.push_back(prod.size() == 1 ? prod[0] : Z3_mk_mul(ctx, prod.size(), prod.data()));
      continue;
    }
    for (auto &f : monos[t.first].f)
      for (int e = 0; e < f.second; ++e) {
        Z3_ast a = AST(f.first);
        bool ai = Z3_get_sort_kind(ctx, Z3_get_sort(ctx, a)) == Z3_INT_SORT;
        if (!ints && ai) {
          a = Z3_mk_int2real(ctx, a);
          double s;
          if (atomInt(f.first, s) && s != 1) {
            Z3_ast q[2] = {numReal(1 / s, false), a};
            a = Z3_mk_mul(ctx, 2, q);
          }
        }
        prod.push_back(a);
      }
    sum.push_back(prod.size() == 1 ? prod[0] : Z3_mk_mul(ctx, prod.size(), prod.data()));
  }
  if (sum.empty()) return numReal(0, ints);
  return sum.size() == 1 ? sum[0] : Z3_mk_add(ctx, sum.size(), sum.data());
}
static Z3_ast b2bv(Z3_ast b, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(ctx, w);
  return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
}
// Bounded integers as bit vectors wide enough for every intermediate value
static bool bv_ok;
static unsigned bitsFor(double m) { unsigned w = 2; while (w < 200 && std::ldexp(1.0, w - 1) <= m) ++w; return w; }
static Z3_ast bvAtom(H h, unsigned W) {
  Node &n = N[h];
  if (n.op == V_F) {
    unsigned w = bitsFor(std::max(std::fabs(n.lo), std::fabs(n.hi)));
    Z3_ast a = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("bv!" + vars[n.var].name).c_str()), Z3_mk_bv_sort(ctx, w));
    return W > w ? Z3_mk_sign_ext(ctx, W - w, a) : a;
  }
  bv_ok = false;
  return Z3_mk_int64(ctx, 0, Z3_mk_bv_sort(ctx, W));
}
static Z3_ast bvCmp(Op op, const Poly &p) {
  int sh = 0;
  for (auto &t : p.t) sh = std::max(sh, -t.second.e);
  if (sh > 40) { bv_ok = false; return Z3_mk_true(ctx); }
  const double scale = std::ldexp(1.0, sh);
  double tot = 1;
  for (auto &t : p.t) {
    double b = std::fabs((double)t.second * scale);
    for (auto &f : monos[t.first].f) {
      double a = std::max(std::fabs(N[f.first].lo), std::fabs(N[f.first].hi));
      for (int e = 0; e < f.second; ++e) b *= std::max(a, 1.0);
    }
    tot += b;
  }
  if (!(tot < 0x1p62)) { bv_ok = false; return Z3_mk_true(ctx); }
  unsigned W = bitsFor(tot) + 1;
  Z3_sort so = Z3_mk_bv_sort(ctx, W);
  Z3_ast sum = Z3_mk_int64(ctx, 0, so);
  for (auto &t : p.t) {
    // the variables first: equal products are shared
    Z3_ast q = nullptr;
    for (auto &f : monos[t.first].f)
      for (int e = 0; e < f.second; ++e) { Z3_ast a = bvAtom(f.first, W); q = q ? Z3_mk_bvmul(ctx, q, a) : a; }
    Z3_ast c = Z3_mk_int64(ctx, (int64_t)((double)t.second * scale), so);
    q = q ? ((double)t.second * scale == 1 ? q : Z3_mk_bvmul(ctx, q, c)) : c;
    sum = Z3_mk_bvadd(ctx, sum, q);
  }
  Z3_ast z = Z3_mk_int64(ctx, 0, so);
  return op == FLT0 ? Z3_mk_bvslt(ctx, sum, z) : Z3_mk_eq(ctx, sum, z);
}
static Z3_ast AST0(H h) {
  Node n = N[h];
  auto A = [&] { return AST(n.a); };
  auto B = [&] { return AST(n.b); };
  switch (n.op) {
    case K_I:
      if (n.w == 1) return n.k ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
      return Z3_mk_unsigned_int64(ctx, n.k, Z3_mk_bv_sort(ctx, n.w));
    case K_F: return numReal(d_of(n.k), d_of(n.k) == std::floor(d_of(n.k)));
    case V_I: return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, vars[n.var].name.c_str()), Z3_mk_bv_sort(ctx, n.w));
    case V_B: return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, vars[n.var].name.c_str()), sBool);
    case V_F: case HAVOC:
      return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, vars[n.var].name.c_str()), sInt);
    case ADD: return Z3_mk_bvadd(ctx, A(), B());
    case SUB: return Z3_mk_bvsub(ctx, A(), B());
    case MUL: return Z3_mk_bvmul(ctx, A(), B());
    case UDIV: return Z3_mk_bvudiv(ctx, A(), B());
    case SDIV: return Z3_mk_bvsdiv(ctx, A(), B());
    case UREM: return Z3_mk_bvurem(ctx, A(), B());
    case SREM: return Z3_mk_bvsrem(ctx, A(), B());
    case SHL: return Z3_mk_bvshl(ctx, A(), B());
    case LSHR: return Z3_mk_bvlshr(ctx, A(), B());
    case ASHR: return Z3_mk_bvashr(ctx, A(), B());
    case AND: { if (n.w == 1) { Z3_ast q[2] = {A(), B()}; return Z3_mk_and(ctx, 2, q); } return Z3_mk_bvand(ctx, A(), B()); }
    case OR: { if (n.w == 1) { Z3_ast q[2] = {A(), B()}; return Z3_mk_or(ctx, 2, q); } return Z3_mk_bvor(ctx, A(), B()); }
    case XOR: if (n.w == 1) return Z3_mk_xor(ctx, A(), B()); return Z3_mk_bvxor(ctx, A(), B());
    case EQ: return Z3_mk_eq(ctx, A(), B());
    case ULT: return Z3_mk_bvult(ctx, A(), B());
    case ULE: return Z3_mk_bvule(ctx, A(), B());
    case SLT: return Z3_mk_bvslt(ctx, A(), B());
    case SLE: return Z3_mk_bvsle(ctx, A(), B());
    case NOT: return Z3_mk_not(ctx, A());
    case ZEXT: {
      unsigned fw = N[n.a].w;
      if (fw == 1) return b2bv(A(), n.w);
      return Z3_mk_zero_ext(ctx, n.w - fw, A());
    }
    case SEXT: {
      unsigned fw = N[n.a].w;
      if (fw == 1) {
        Z3_sort s = Z3_mk_bv_sort(ctx, n.w);
        return Z3_mk_ite(ctx, A(), Z3_mk_unsigned_int64(ctx, maskw(n.w), s), Z3_mk_unsigned_int64(ctx, 0, s));
      }
      return Z3_mk_sign_ext(ctx, n.w - fw, A());
    }
    case TRUNC: {
      Z3_ast e = Z3_mk_extract(ctx, n.w - 1, 0, A());
      if (n.w == 1) return Z3_mk_eq(ctx, e, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
      return e;
    }
    case ITE: return Z3_mk_ite(ctx, A(), B(), AST(n.c));
    case POLY: {
      if (abs_mode == 2) { bv_ok = false; return Z3_mk_true(ctx); }
      bool ai; Z3_ast t = polyTerm(polys[n.poly], ai);
      if (!ai) return t;
      // undo scaling if any: rebuild as real unless scale is one
      bool scaled = false;
      for (auto &q : polys[n.poly].t) {
        if (!q.second.integer()) scaled = true;
        for (auto &f : monos[q.first].f) if (N[f.first].op == HAVOC) scaled = true;
      }
      if (!scaled) return t;
      vector<Z3_ast> sum;
      for (auto &q : polys[n.poly].t) {
        vector<Z3_ast> prod{numDy(q.second, false)};
        for (auto &f : monos[q.first].f)
          for (int e = 0; e < f.second; ++e) {
            double s = 1; atomInt(f.first, s);
            Z3_ast a = toReal(f.first);
            if (s != 1) { Z3_ast z[2] = {numReal(1 / s, false), a}; a = Z3_mk_mul(ctx, 2, z); }
            prod.push_back(a);
          }
        sum.push_back(Z3_mk_mul(ctx, prod.size(), prod.data()));
      }
      return Z3_mk_add(ctx, sum.size(), sum.data());
    }
    case FLT0: case FEQ0: {
      // a: polynomial node (or atom)
      if (abs_mode == 2) return bvCmp(n.op, polyOf(n.a));
      bool ai; Z3_ast t = polyTerm(polyOf(n.a), ai);
      Z3_ast z = numReal(0, ai);
      return n.op == FLT0 ? Z3_mk_lt(ctx, t, z) : Z3_mk_eq(ctx, t, z);
    }
    case FITE: {
      if (n.isint) return Z3_mk_ite(ctx, A(), B(), AST(n.c));
      auto R = [&](H x) {
        Z3_ast a = toReal(x);
        if (N[x].op == HAVOC) { Z3_ast z[2] = {numReal(1 / HSCALE, false), a}; a = Z3_mk_mul(ctx, 2, z); }
        return a;
      };
      return Z3_mk_ite(ctx, A(), R(n.b), R(n.c));
    }
    case FDIV: {
      auto R = [&](H x) {
        Z3_ast a = toReal(x);
        if (N[x].op == HAVOC) { Z3_ast z[2] = {numReal(1 / HSCALE, false), a}; a = Z3_mk_mul(ctx, 2, z); }
        return a;
      };
      return Z3_mk_div(ctx, R(n.a), R(n.b));
    }
    case FSQRT: return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("sqrt!" + std::to_string(h)).c_str()), sReal);
    case FABS: {
      Z3_ast a = toReal(n.a);
      if (N[n.a].op == HAVOC) { Z3_ast z[2] = {numReal(1 / HSCALE, false), a}; a = Z3_mk_mul(ctx, 2, z); }
      return Z3_mk_ite(ctx, Z3_mk_lt(ctx, a, numReal(0, false)), Z3_mk_unary_minus(ctx, a), a);
    }
    case FOTHER: if (abs_mode && n.code == 1) return Z3_mk_true(ctx);  // definition of a root: always possible
      [[fallthrough]];
    default: fatal("AST of unknown node");
  }
}
static Z3_ast AST(H h) {
  if (abs_mode) {
    Z3_ast c = abs_mode == 1 ? N[h].astL : N[h].astB;
    if (c) return c;
    Z3_ast a = AST0(h);
    Z3_inc_ref(ctx, a);
    (abs_mode == 1 ? N[h].astL : N[h].astB) = a;
    return a;
  }
  if (N[h].ast) return N[h].ast;
  Z3_ast a = AST0(h);
  Z3_inc_ref(ctx, a);
  N[h].ast = a;
  return a;
}

// ------------------------------------------------------------------ exploration state
enum Kind : uint8_t { D_BRANCH, D_ASSUME, D_CONC };
typedef vector<int64_t> Model;  // by var index; INT64_MIN = absent
struct Dec {
  H node; uint8_t dir; Kind kind; bool open, pushed, flip;
  uint32_t site; uint64_t ck;
  Model alt;
};
static vector<Dec> tr;
static size_t depth, prefix;
static bool forced_prefix;  // prefix given by a job: assert without asking
struct JDec { uint8_t dir, kind, flip; uint64_t ck, hash; };
static vector<JDec> job_dirs;
static Model cur;
static bool path_havoc, path_novalidate;
static uint64_t obs;
static string path_known;
static jmp_buf jb;
static int cur_case;
static unsigned seed0;
static int tier_thorough;
static unsigned conc_cap = 4096;
static unsigned maxdec = 60000;
static unsigned q_timeout = 4000;
static bool debug_implied = getenv("SYM_IMPLIED") != nullptr;

[[noreturn]] static void endp(Outcome o) { in_target = 0; siglongjmp(*(sigjmp_buf *)&jb, (int)o + 1); }
static void end_path(Outcome o) { endp(o); }

static int query(bool wantModel, Model *m);
static void extract(Model &m) {
  Z3_model mod = Z3_solver_get_model(ctx, solver);
  Z3_model_inc_ref(ctx, mod);
  m.assign(vars.size(), INT64_MIN);
  for (size_t i = 0; i < vars.size(); ++i) {
    H h = vars[i].node;
    if (N[h].epoch != epoch || !N[h].ast) continue;
    Z3_ast v;
    if (!Z3_model_eval(ctx, mod, N[h].ast, true, &v)) continue;
    if (N[h].op == V_B) m[i] = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
    else if (N[h].op == V_I) {
      uint64_t u = 0;
      if (Z3_get_numeral_uint64(ctx, v, &u)) m[i] = (int64_t)sext(u, N[h].w);
    } else {
      int64_t s = 0;
      if (Z3_get_numeral_int64(ctx, v, &s)) m[i] = s;
    }
  }
  Z3_model_dec_ref(ctx, mod);
}
static int check_sat() {
  double t = now();
  Z3_lbool r = Z3_solver_check(ctx, solver);
  st.solver_s += now() - t;
  st.queries++;
  if (r == Z3_L_TRUE) { st.sat++; return 1; }
  if (r == Z3_L_FALSE) { st.unsat++; return 0; }
  st.unknown++;
  return -1;
}
static H mkNot(H h);
static uint64_t evalBin(Op op, unsigned w, uint64_t a, uint64_t b);
// products of variables in an expression
static int nlKind(H h) {
  if (!h) return 1;
  if (N[h].nl) return N[h].nl;
  int k = 1;
  auto up = [&](int x) { k = std::max(k, x); };
  switch (N[h].op) {
    case K_I: case K_F: case V_I: case V_B: case V_F: break;
    case FSQRT: case FDIV: up(3); up(nlKind(N[h].a)); up(nlKind(N[h].b)); break;
    case FOTHER: up(N[h].code == 1 ? 1 : 4); break;
    case HAVOC: k = 4; break;
    case POLY: {
      const Poly p = polys[N[h].poly];
      for (auto &t : p.t) {
        if (degree(monos[t.first]) > 1) up(2);
        for (auto &f : monos[t.first].f) up(nlKind(f.first));
      }
      break;
    }
    default: up(nlKind(N[h].a)); up(nlKind(N[h].b)); up(nlKind(N[h].c));
  }
  N[h].nl = k;
  return k;
}
// value of an expression for given inputs
static uint32_t ev_epoch;
static const Model *ev_model;
static bool ev_ok;
static void evalNode(H h) {
  if (N[h].eepoch == ev_epoch) return;
  N[h].eepoch = ev_epoch;
  auto I = [&](H x) { evalNode(x); return N[x].eint; };
  auto F = [&](H x) { evalNode(x); return N[x].efp; };
  Node n = N[h];
  uint64_t i = 0; long double f = 0;
  auto pv = [&](H x, bool sign) {
    if (N[x].op != POLY) return F(x);
    long double s = 0;
    const Poly p = polys[N[x].poly];
    long double mag = 0;
    for (auto &t : p.t) {
      long double v = std::ldexp((long double)t.second.m, t.second.e);
      for (auto &q : monos[t.first].f) { long double b = F(q.first); for (int e = 0; e < q.second; ++e) v *= b; }
      s += v; mag += fabsl(v);
    }
    if (sign && (nlKind(x) >= 3 || mag > 0x1p60L)) ev_ok = ev_ok && fabsl(s) > 1e-9L * mag;  // not exact: keep away from zero
    return s;
  };
  switch (n.op) {
    case K_I: i = n.k; break;
    case K_F: f = d_of(n.k); break;
    case V_I: case V_B: case V_F: {
      int64_t v = n.var < (int)ev_model->size() ? (*ev_model)[n.var] : INT64_MIN;
      if (v == INT64_MIN) { ev_ok = false; break; }
      if (n.op == V_F) f = v; else i = (uint64_t)v & maskw(n.w);
      break;
    }
    case NOT: i = !I(n.a); break;
    case ZEXT: i = I(n.a); break;
    case SEXT: i = (uint64_t)sext(I(n.a), N[n.a].w) & maskw(n.w); break;
    case TRUNC: i = I(n.a) & maskw(n.w); break;
    case ITE: i = I(n.a) ? I(n.b) : I(n.c); break;
    case POLY: f = pv(h, false); break;
    case FLT0: i = pv(n.a, true) < 0; break;
    case FEQ0: i = pv(n.a, true) == 0; break;
    case FITE: f = I(n.a) ? F(n.b) : F(n.c); break;
    case FABS: f = fabsl(F(n.a)); break;
    case FDIV: { long double d = F(n.b); if (d == 0) ev_ok = false; else f = F(n.a) / d; break; }
    case FSQRT: { long double d = F(n.a); if (d < 0) ev_ok = false; else f = sqrtl(d); break; }
    case FOTHER: if (n.code == 1) { i = 1; break; } ev_ok = false; break;
    case HAVOC: case O_NONE: ev_ok = false; break;
    default: { uint64_t a = I(n.a), b = I(n.b); i = evalBin(n.op, N[n.a].w, a, b); }
  }
  N[h].eint = i; N[h].efp = f;
}
static bool evalCond(H h, bool dir, bool &ok) {
  ev_ok = true;
  evalNode(h);
  ok = ev_ok;
  return (N[h].eint != 0) == dir;
}
static Z3_solver solverA;
static int bitvectors(const vector<std::pair<H, bool>> &pc, Model &m) {
  double t0 = now();
  static Z3_solver sb;
  if (!sb) {
    Z3_tactic t = Z3_mk_tactic(ctx, "qfbv");
    Z3_tactic_inc_ref(ctx, t);
    sb = Z3_mk_solver_from_tactic(ctx, t);
    Z3_solver_inc_ref(ctx, sb);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 10000);
    Z3_solver_set_params(ctx, sb, p);
    Z3_params_dec_ref(ctx, p);
  }
  abs_mode = 2;
  bv_ok = true;
  Z3_solver_reset(ctx, sb);
  for (auto &c : pc) {
    Z3_ast a = AST(c.first);
    Z3_solver_assert(ctx, sb, c.second ? a : Z3_mk_not(ctx, a));
  }
  abs_mode = 0;
  if (!bv_ok) { for (auto &c : pc) N[c.first].astB = nullptr; return -1; }
  Z3_lbool r = Z3_solver_check(ctx, sb);
  st.queries++;
  if (r == Z3_L_TRUE) {
    Z3_model mod = Z3_solver_get_model(ctx, sb);
    Z3_model_inc_ref(ctx, mod);
    m = cur;
    m.resize(vars.size(), INT64_MIN);
    for (size_t i = 0; i < vars.size(); ++i) {
      H h = vars[i].node;
      if (!h || N[h].epoch != epoch) continue;
      Z3_ast v, a;
      unsigned w = N[h].w;
      if (N[h].op == V_F) { w = bitsFor(std::max(std::fabs(N[h].lo), std::fabs(N[h].hi))); a = bvAtom(h, w); }
      else if (N[h].op == V_I || N[h].op == V_B) { abs_mode = 2; a = AST(h); abs_mode = 0; }
      else continue;
      if (!Z3_model_eval(ctx, mod, a, true, &v)) continue;
      if (N[h].op == V_B) m[i] = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
      else { uint64_t u = 0; if (Z3_get_numeral_uint64(ctx, v, &u)) m[i] = (int64_t)sext(u, w); }
    }
    Z3_model_dec_ref(ctx, mod);
  }
  st.solver_s += now() - t0;
  if (r == Z3_L_TRUE) { st.sat++; return 1; }
  if (r == Z3_L_FALSE) { st.unsat++; return 0; }
  return -1;
}
static int full(H node, bool dir, Model &m, unsigned ms) {
  auto limit = [](unsigned v) {
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), v);
    Z3_solver_set_params(ctx, solver, p);
    Z3_params_dec_ref(ctx, p);
  };
  if (ms) limit(ms);
  Z3_solver_push(ctx, solver);
  Z3_ast a = AST(node);
  Z3_solver_assert(ctx, solver, dir ? a : Z3_mk_not(ctx, a));
  int r = check_sat();
  if (r == 1) extract(m);
  Z3_solver_pop(ctx, solver, 1);
  if (ms) { limit(q_timeout); if (r < 0) st.unknown--; }
  return r;
}
// Products of variables: the linear relaxation may refute, a search among nearby inputs may satisfy.
// 1 sat, 0 unsat, -1 undecided
static int nonlinear(H node, bool dir, Model &m) {
  double t0 = now();
  abs_mode = 1;
  if (!solverA) {
    solverA = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, solverA);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 1000);
    Z3_solver_set_params(ctx, solverA, p);
    Z3_params_dec_ref(ctx, p);
  }
  Z3_solver_reset(ctx, solverA);
  absUsed.clear();
  vector<std::pair<H, bool>> pc;
  for (size_t i = 0; i < depth && i < tr.size(); ++i) if (tr[i].node) pc.push_back({tr[i].node, tr[i].dir});
  pc.push_back({node, dir});
  int kind = 1;
  for (auto &c : pc) {
    Z3_ast a = AST(c.first);
    Z3_solver_assert(ctx, solverA, c.second ? a : Z3_mk_not(ctx, a));
    kind = std::max(kind, nlKind(c.first));
  }
  // ranges of the products (cached expressions do not fill absUsed: all known ones are bounded)
  for (uint32_t mi = 0; mi < monos.size(); ++mi) {
    if (degree(monos[mi]) < 2) continue;
    Poly p; p.t.push_back({mi, 1.0});
    double lo, hi;
    bounds(p, lo, hi);
    bool ints = true;
    for (auto &f : monos[mi].f) { double s; if (!atomInt(f.first, s) || s != 1) ints = false; }
    bool even = true;
    for (auto &f : monos[mi].f) if (f.second % 2) even = false;
    if (even && lo < 0) lo = 0;
    for (int k = ints ? 0 : 1; k < 2; ++k) {
      Z3_ast c = absConst(mi, !k);
      if (lo > -1e300) Z3_solver_assert(ctx, solverA, Z3_mk_ge(ctx, c, numReal(lo, !k && lo == std::floor(lo))));
      if (hi < 1e300) Z3_solver_assert(ctx, solverA, Z3_mk_le(ctx, c, numReal(hi, !k && hi == std::floor(hi))));
    }
  }
  abs_mode = 0;
  Z3_lbool r = Z3_solver_check(ctx, solverA);
  st.queries++;
  st.solver_s += now() - t0;
  if (r == Z3_L_FALSE) { st.unsat++; return 0; }
  if (kind >= 4) return -1;
  // inputs of the path
  vector<int> vs;
  for (size_t i = 0; i < vars.size(); ++i)
    if (vars[i].node && N[vars[i].node].epoch == epoch && i < cur.size() && cur[i] != INT64_MIN && vars[i].hi > vars[i].lo) vs.push_back(i);
  if (vs.empty()) return -1;
  uint64_t rs = mix(seed0 + 1, N[node].hash);
  auto rnd = [&] { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
  Model t = cur, base = cur;
  t.resize(vars.size(), INT64_MIN);
  base = t;
  for (int it = 0; it < 3000; ++it) {
    t = base;
    int k = 1 + rnd() % (1 + rnd() % vs.size());
    for (int q = 0; q < k; ++q) {
      int v = vs[rnd() % vs.size()];
      int64_t w = vars[v].hi - vars[v].lo;
      if (rnd() % 2) t[v] = std::min(vars[v].hi, std::max(vars[v].lo, t[v] + (int64_t)(rnd() % 5) - 2));
      else t[v] = vars[v].lo + (int64_t)(rnd() % (uint64_t)(w + 1));
    }
    ++ev_epoch; ev_model = &t;
    bool ok;
    if (!evalCond(node, dir, ok) || !ok) continue;
    bool all = true;
    for (size_t i = pc.size() - 1; all && i-- > 0;) all = evalCond(pc[i].first, pc[i].second, ok) && ok;
    if (all) { m = t; st.sat++; st.queries++; return 1; }
  }
  if (kind >= 3) return -1;
  int r1 = full(node, dir, m, 300);
  return r1 >= 0 ? r1 : bitvectors(pc, m);
}
// PC and (node == dir): 1 sat (model in m), 0 unsat, -1 unknown
static int feasible(H node, bool dir, Model &m) {
  if (exact_mode) {
    bool nl = nlKind(node) >= 2;
    for (size_t i = 0; !nl && i < depth && i < tr.size(); ++i) nl = tr[i].node && nlKind(tr[i].node) >= 2;
    if (nl) {
      int r = nonlinear(node, dir, m);
      if (r >= 0) return r;
    }
  }
  return full(node, dir, m, 0);
}
static void commit(Dec &d) {
  Z3_solver_push(ctx, solver);
  Z3_ast a = AST(d.node);
  Z3_solver_assert(ctx, solver, d.dir ? a : Z3_mk_not(ctx, a));
  d.pushed = true;
}
// Differences of two variables (or a variable and a constant) decided on this path,
// kept transitively closed: answers most implied comparisons without the solver.
static const int DBM = 40;
static double dbm[DBM][DBM];
static int dbmN;
static H dbmAtom[DBM];
static void dbm_reset() { dbmN = 1; dbm[0][0] = 0; dbmAtom[0] = 0; }
static int dbm_idx(H a, bool create) {
  for (int i = 1; i < dbmN; ++i) if (dbmAtom[i] == a) return i;
  if (!create || dbmN >= DBM) return -1;
  int i = dbmN++;
  dbmAtom[i] = a;
  for (int j = 0; j < i; ++j) dbm[i][j] = dbm[j][i] = INFINITY;
  dbm[i][i] = 0;
  return i;
}
// p = +x - y + c : 1 and indices, 0 otherwise
static bool dbm_form(H p, int &x, int &y, double &c, bool create) {
  x = y = 0; c = 0;
  auto atom = [&](H a, double k) {
    if (N[a].op != V_F) return false;
    int i = dbm_idx(a, create);
    if (i < 0) return false;
    if (k == 1 && !x) { x = i; return true; }
    if (k == -1 && !y) { y = i; return true; }
    return false;
  };
  if (N[p].op == V_F) return atom(p, 1);
  if (N[p].op != POLY) return false;
  const Poly &q = polys[N[p].poly];
  if (q.t.size() > 3) return false;
  for (auto &t : q.t) {
    auto &f = monos[t.first].f;
    if (f.empty()) { c = t.second; continue; }
    if (f.size() != 1 || f[0].second != 1 || !atom(f[0].first, t.second)) return false;
  }
  return c == std::floor(c);
}
static void dbm_add(int x, int y, double k) {  // x - y <= k
  if (dbm[x][y] <= k) return;
  for (int i = 0; i < dbmN; ++i)
    for (int j = 0; j < dbmN; ++j) {
      double v = dbm[i][x] + k + dbm[y][j];
      if (v < dbm[i][j]) dbm[i][j] = v;
    }
}
// comparison as x - y + k < 0 (1), x - y + k == 0 (2) or something else (0)
static int dbm_cond(H c, int &x, int &y, double &k, bool create) {
  Op op = N[c].op;
  if (op == FLT0 || op == FEQ0) return dbm_form(N[c].a, x, y, k, create) ? (op == FLT0 ? 1 : 2) : 0;
  if (op != EQ && op != SLT && op != ULT) return 0;
  x = y = 0; k = 0;
  for (int i = 0; i < 2; ++i) {
    H a = i ? N[c].b : N[c].a;
    unsigned w = N[c].code;
    while (N[a].op == ZEXT || N[a].op == SEXT) {
      if (N[a].op == ZEXT && !(N[N[a].a].lo >= 0)) return 0;
      a = N[a].a;
    }
    if (N[a].op == V_I) {
      if (op == ULT && N[a].lo < 0) return 0;
      int j = dbm_idx(a, create);
      if (j < 0) return 0;
      (i ? y : x) = j;
    } else if (N[a].op == K_I) {
      int64_t v = sext(N[a].k, N[a].w);
      if (N[a].w != w && v < 0) return 0;
      if (op == ULT && v < 0) return 0;
      if (v > (1ll << 50) || v < -(1ll << 50)) return 0;
      k += i ? -(double)v : (double)v;
    } else return 0;
  }
  return op == EQ ? 2 : 1;
}
static void dbm_fact(H c, bool dir) {
  int x, y; double k;
  int f = dbm_cond(c, x, y, k, true);
  if (!f) return;
  if (f == 1) {
    if (dir) dbm_add(x, y, -k - 1);  // x - y + k < 0
    else dbm_add(y, x, k);
  } else if (dir) { dbm_add(x, y, -k); dbm_add(y, x, k); }
}
static int dbm_known(H c) {
  int x, y; double k;
  int f = dbm_cond(c, x, y, k, false);
  if (!f) return -1;
  double up = dbm[x][y] + k, lo = -(dbm[y][x]) + k;  // lo <= x - y + k <= up
  if (f == 1) {
    if (up < 0) return 1;
    if (lo >= 0) return 0;
  } else {
    if (up < 0 || lo > 0) return 0;
    if (up == 0 && lo == 0) return 1;
  }
  return -1;
}
// comparison of a small-domain variable with a constant: variable, constant, kind
// (1: x == k, 2: x < k, 3: k < x)
static int domCond(H c, H &x, int64_t &k) {
  Op op = N[c].op;
  if (op != EQ && op != SLT && op != ULT) return 0;
  H a = N[c].a, b = N[c].b;
  auto strip = [&](H h) {
    while ((N[h].op == ZEXT && N[N[h].a].lo >= 0) || N[h].op == SEXT) h = N[h].a;
    return h;
  };
  H kn;
  int kind;
  a = strip(a); b = strip(b);
  if (N[b].op == K_I) { x = a; kn = b; kind = op == EQ ? 1 : 2; }
  else if (N[a].op == K_I) { x = b; kn = a; kind = op == EQ ? 1 : 3; }
  else return 0;
  if (N[x].op != V_I || !(N[x].lo > -1e15) || N[x].hi - N[x].lo > 63) return 0;
  k = sext(N[kn].k, N[kn].w);
  if (op == ULT && (N[x].lo < 0 || k < 0)) return 0;
  if (N[x].depoch != epoch) { N[x].depoch = epoch; int r = (int)(N[x].hi - N[x].lo); N[x].dom = r == 63 ? ~0ull : (1ull << (r + 1)) - 1; }
  return kind;
}
static uint64_t domMask(H x, int64_t k, int kind) {  // values satisfying the comparison
  int64_t lo = (int64_t)N[x].lo;
  int64_t i = k - lo;
  if (kind == 1) return i < 0 || i > 63 ? 0 : 1ull << i;
  if (kind == 2) return i <= 0 ? 0 : i > 63 ? ~0ull : (1ull << i) - 1;
  return i < 0 ? ~0ull : i >= 63 ? 0 : ~((1ull << (i + 1)) - 1);
}
static void setKnown(H n, bool dir) {
  N[n].kepoch = epoch; N[n].kdir = dir;
  dbm_fact(n, dir);
  H x; int64_t k;
  if (int kind = domCond(n, x, k)) {
    uint64_t m = domMask(x, k, kind);
    N[x].dom &= dir ? m : ~m;
    if (N[x].dom && !(N[x].dom & (N[x].dom - 1))) N[x].fepoch = epoch;
  }
  // consequences of conjunctions and disjunctions
  if (N[n].w == 1 && ((N[n].op == AND && dir) || (N[n].op == OR && !dir)))
    for (H q : {N[n].a, N[n].b}) {
      bool d = dir;
      while (N[q].op == NOT) { q = N[q].a; d = !d; }
      if (N[q].op != K_I && N[q].kepoch != epoch) setKnown(q, d);
    }
}

// truth of a comparison from the ones already decided on this path: -1 unknown
static H negPolyNode(H p) {
  Poly r;
  Poly z; polyAdd(z, polyOf(p), -1, r);
  return polyNode(r);
}
static H mkCmp(Op op, H p) { return mknode(op, 1, 0, p, 0, 0, 0); }
static int known(H c) {
  Node &n = N[c];
  if (n.kepoch == epoch) return n.kdir;
  if (n.op == FLT0 || n.op == FEQ0) {
    H p = n.a;
    H np = negPolyNode(p);
    H lt = mkCmp(FLT0, p), gt = mkCmp(FLT0, np), e1 = mkCmp(FEQ0, p), e2 = mkCmp(FEQ0, np);
    auto k = [&](H x) { return N[x].kepoch == epoch ? (int)N[x].kdir : -1; };
    int kl = k(lt), kg = k(gt), ke = k(e1) >= 0 ? k(e1) : k(e2);
    if (N[c].op == FLT0) {
      if (kg == 1 || ke == 1) return 0;
      if (kg == 0 && ke == 0) return 1;
    } else {
      if (kl == 1 || kg == 1) return 0;
      if (kl == 0 && kg == 0) return 1;
    }
    return dbm_known(c);
  }
  if (n.op == EQ || n.op == SLT || n.op == ULT) {
    H x; int64_t k;
    if (int kind = domCond(c, x, k)) {
      uint64_t m = domMask(x, k, kind), d = N[x].dom;
      if (!(d & m)) return 0;
      if (!(d & ~m)) return 1;
    }
    return dbm_known(c);
  }
  if (n.w == 1 && (n.op == AND || n.op == OR)) {
    int r[2];
    for (int i = 0; i < 2; ++i) {
      H q = i ? N[c].b : N[c].a;
      bool f = false;
      while (N[q].op == NOT) { q = N[q].a; f = !f; }
      r[i] = known(q);
      if (r[i] >= 0 && f) r[i] = !r[i];
    }
    int z = N[c].op == AND ? 0 : 1;
    if (r[0] == z || r[1] == z) return z;
    if (r[0] == !z && r[1] == !z) return !z;
  }
  return -1;
}
static void check_depth() {
  if (tr.size() > maxdec) { endp(DEPTH); }
}
// takes a decision; returns when recorded
// Square roots of the path whose definition (root, equation) no condition needed so far
static vector<std::pair<H, H>> pendingRoots;
static void decide(H c, bool dir, Kind kind, uint32_t site, uint64_t ck = 0);
static bool contains(H h, H what, std::set<H> &seen) {
  if (!h || !seen.insert(h).second) return false;
  if (h == what) return true;
  if (N[h].op == POLY) {
    const Poly p = polys[N[h].poly];
    for (auto &t : p.t) for (auto &f : monos[t.first].f) if (contains(f.first, what, seen)) return true;
    return false;
  }
  if (N[h].op < ADD) return false;
  return contains(N[h].a, what, seen) || contains(N[h].b, what, seen) || contains(N[h].c, what, seen);
}
static void defineRoots(H c) {
  if (pendingRoots.empty() || nlKind(c) < 3) return;
  for (size_t i = pendingRoots.size(); i-- > 0;) {
    if (i >= pendingRoots.size()) continue;
    std::set<H> seen;
    const auto r = pendingRoots[i];
    if (!contains(c, r.first, seen)) continue;
    pendingRoots.erase(pendingRoots.begin() + i);
    defineRoots(N[r.first].a);
    decide(r.second, true, D_ASSUME, 0);
  }
}
static void decide(H c, bool dir, Kind kind, uint32_t site, uint64_t ck) {
  if (!pendingRoots.empty()) defineRoots(c);
  bool flip = false;
  while (N[c].op == NOT) { c = N[c].a; dir = !dir; flip = !flip; }
  if (isK(c)) {
    if ((N[c].k != 0) != dir) { st.diverged++; endp(PRUNED); }
    return;
  }
  int k = known(c);
  if (k >= 0) {
    if (k != (int)dir) { st.diverged++; reasons["native direction contradicts the path"]++; endp(PRUNED); }
    return;
  }
  if (site) sites.insert(site);
  if (depth < tr.size()) {  // replaying the prefix
    Dec &d = tr[depth];
    if (d.node != c || d.dir != dir) {
      st.diverged++;
      reasons[d.node != c ? "replay diverged (node)" : "replay diverged (direction)"]++;
      endp(PRUNED);
    }
    ++depth;
    setKnown(c, dir);
    return;
  }
  check_depth();
  tr.push_back(Dec());
  Dec d;
  d.node = c; d.dir = dir; d.kind = kind; d.open = false; d.pushed = false; d.site = site; d.flip = flip; d.ck = ck;
  ++depth;
  if (depth > st.maxdepth) st.maxdepth = depth;
  if (forced_prefix && depth <= job_dirs.size()) {
    if (job_dirs[depth - 1].dir != dir || job_dirs[depth - 1].hash != N[c].hash) { tr.pop_back(); st.diverged++; reasons["job diverged"]++; endp(PRUNED); }
    commit(d);
    tr.back() = std::move(d);
    setKnown(c, dir);
    return;
  }
  if (kind != D_ASSUME) {
    st.decisions++;
    int r = feasible(c, !dir, d.alt);
    if (r == 1) d.open = true;
    else if (r < 0) incomplete("feasibility unknown");
    if (r != 0) commit(d);
    else {
      st.implied++;
      if (debug_implied) { string k = "implied op " + std::to_string(N[c].op) + " kind " + std::to_string(kind) + " a " + std::to_string(N[N[c].a].op) + " b " + std::to_string(N[c].b ? N[N[c].b].op : 0); reasons[k]++;
        static std::map<string,int> pr; if (pr[k]++ < 2) fprintf(stderr, "%s: %s\n", k.c_str(), Z3_ast_to_string(ctx, AST(c))); }
    }
  } else commit(d);
  setKnown(c, dir);
  tr.back() = std::move(d);
}

// ------------------------------------------------------------------ node constructors
static uint64_t evalBin(Op op, unsigned w, uint64_t a, uint64_t b) {
  uint64_t m = maskw(w);
  a &= m; b &= m;
  int64_t sa = sext(a, w), sb = sext(b, w);
  switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case SDIV: return b ? (uint64_t)(sb == -1 ? -(uint64_t)sa : (uint64_t)(sa / sb)) & m : 0;
    case UREM: return b ? a % b : a;
    case SREM: return b ? (uint64_t)(sb == -1 ? 0 : sa % sb) & m : a;
    case SHL: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: return (uint64_t)(sa >> (b >= w ? w - 1 : b)) & m;
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sa < sb;
    case SLE: return sa <= sb;
    default: fatal("evalBin");
  }
}
static H mkNot(H h) {
  if (N[h].op == NOT) return N[h].a;
  if (isK(h)) return K(1, !N[h].k);
  H r = mknode(NOT, 1, 0, h, 0, 0, 0);
  setv(r, !val(h));
  return r;
}
static H mkIte(unsigned w, H c, H a, H b);
static H mkCast(int code, unsigned fw, unsigned tw, H a);
static H mkBin(Op op, unsigned w, H a, H b) {
  unsigned rw = (op >= EQ && op <= SLE) ? 1 : w;
  uint64_t v = evalBin(op, w, val(a), val(b));
  if (isK(a) && isK(b)) return K(rw, v);
  auto fin = [&](H r) { setv(r, v); return r; };
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
  if (comm && isK(a)) std::swap(a, b);
  else if (comm && !isK(b) && N[a].hash > N[b].hash) std::swap(a, b);
  // i1 logic
  if (w == 1 && rw == 1) {
    if (op == AND) { if (isK(b)) return N[b].k ? a : K(1, 0); if (a == b) return a; }
    if (op == OR) { if (isK(b)) return N[b].k ? K(1, 1) : a; if (a == b) return a; }
    if (op == XOR || op == EQ) {
      if (isK(b)) return ((N[b].k != 0) == (op == XOR)) ? mkNot(a) : a;
      if (a == b) return K(1, op == EQ);
    }
    if (op == ADD || op == SUB) return mkBin(XOR, 1, a, b);
    if (op == MUL) return mkBin(AND, 1, a, b);
    if (op == ULT) return mkBin(AND, 1, mkNot(a), b);
    if (op == ULE) return mkBin(OR, 1, mkNot(a), b);
    if (op == SLT) return mkBin(AND, 1, a, mkNot(b));
    if (op == SLE) return mkBin(OR, 1, a, mkNot(b));
    if (op != AND && op != OR && op != XOR && op != EQ) { fatal("odd i1 operation"); }
  } else {
    if (isK(b)) {
      uint64_t k = N[b].k;
      if (k == 0 && (op == ADD || op == SUB || op == OR || op == XOR || op == SHL || op == LSHR || op == ASHR)) return a;
      if (k == 0 && (op == AND || op == MUL)) return K(w, 0);
      if (k == maskw(w) && op == AND) return a;
      if (k == 1 && (op == MUL || op == UDIV || op == SDIV)) return a;
      if (op == ULT && k == 0) return K(1, 0);
      if (op == AND && N[a].op == ZEXT && (k & maskw(N[N[a].a].w)) == maskw(N[N[a].a].w)) return a;
      // packed values: operations by a constant go through a disjunction with a constant
      if ((op == AND || op == LSHR || op == SHL) && N[a].op == OR && isK(N[a].b)) {
        H l = mkBin(op, w, N[a].a, b), r = mkBin(op, w, N[a].b, b);
        return mkBin(OR, w, l, r);
      }
      if (N[a].op == ZEXT) {
        unsigned xw = N[N[a].a].w;
        if (op == LSHR && k >= xw) return K(w, 0);
        if (op == AND && !(k & maskw(xw))) return K(w, 0);
      }
      if (op == ASHR && N[a].op == SHL && isK(N[a].b) && N[N[a].b].k == k && N[N[a].a].op == ZEXT
          && N[N[N[a].a].a].w + k == w && k < w)
        return mkCast(2, N[N[N[a].a].a].w, w, N[N[a].a].a);
      if (op == ASHR && N[a].op == OR && isK(N[a].b)) {
        // sign bit unaffected only if computed on both parts: keep
      }
      // comparisons of a widened boolean
      if (N[a].op == ZEXT && N[N[a].a].w == 1) {
        H x = N[a].a;
        if (op == EQ) { if (k == 0) return mkNot(x); if (k == 1) return x; return K(1, 0); }
        if (op == ULT) { if (k == 1) return mkNot(x); if (k > 1) return K(1, 1); }
        if (op == XOR && k == 1) { H n = mkNot(x); H r = mknode(ZEXT, w, 0, n, 0, 0, 0); return fin(r); }
        if (op == AND) { if (k & 1) return a; return K(w, 0); }
      }
      if (op == EQ && N[a].op == ZEXT) {
        H x = N[a].a;
        if (k > maskw(N[x].w)) return K(1, 0);
        return mkBin(EQ, N[x].w, x, K(N[x].w, k));
      }
      if (op == EQ && N[a].op == ITE && isK(N[a].b) && isK(N[a].c)) {
        bool e1 = N[N[a].b].k == k, e2 = N[N[a].c].k == k;
        if (e1 && e2) return K(1, 1);
        if (!e1 && !e2) return K(1, 0);
        return e1 ? N[a].a : mkNot(N[a].a);
      }
      if (op == ADD && N[a].op == ADD && isK(N[a].b)) return mkBin(ADD, w, N[a].a, K(w, k + N[N[a].b].k));
      if (op == SUB) return mkBin(ADD, w, a, K(w, -k));
    }
    if (a == b) {
      if (op == EQ || op == ULE || op == SLE) return K(1, 1);
      if (op == ULT || op == SLT) return K(1, 0);
      if (op == SUB || op == XOR) return K(w, 0);
      if (op == AND || op == OR) return a;
    }
    if (op == SLE) { H r = mkNot(mkBin(SLT, w, b, a)); return r; }
    if (op == ULE) { H r = mkNot(mkBin(ULT, w, b, a)); return r; }
  }
  if (op == EQ || op == SLT || op == ULT) {
    auto iv = [&](H x, double &lo, double &hi) {
      if (isK(x)) lo = hi = (double)sext(N[x].k, w);
      else { lo = N[x].lo; hi = N[x].hi; }
    };
    double la, ha, lb, hb;
    iv(a, la, ha); iv(b, lb, hb);
    bool bounded = la > -1e15 && ha < 1e15 && lb > -1e15 && hb < 1e15;
    if (bounded && (op != ULT || (la >= 0 && lb >= 0))) {
      if (op == EQ) { if (ha < lb || hb < la) return K(1, 0); }
      else { if (ha < lb) return K(1, 1); if (la >= hb) return K(1, 0); }
    }
  }
  return fin(mknode(op, rw, op >= EQ && op <= SLE ? w : 0, a, b, 0, 0));
}
static H mkCast(int code, unsigned fw, unsigned tw, H a) {
  uint64_t v = code == 1 ? val(a) & maskw(fw) : code == 2 ? (uint64_t)sext(val(a), fw) & maskw(tw) : val(a) & maskw(tw);
  if (isK(a)) return K(tw, v);
  auto fin = [&](H r) { setv(r, v); return r; };
  if (fw == tw) return a;
  if (code == 3) {
    Node &n = N[a];
    if ((n.op == ZEXT || n.op == SEXT)) {
      unsigned iw = N[n.a].w;
      if (iw == tw) return n.a;
      if (tw < iw) return mkCast(3, iw, tw, n.a);
      return mkCast(n.op == ZEXT ? 1 : 2, iw, tw, n.a);
    }
    if (n.op == OR && isK(n.b)) {
      H x = n.a, y = n.b;
      H l = mkCast(3, fw, tw, x), r = mkCast(3, fw, tw, y);
      return mkBin(OR, tw, l, r);
    }
    if (n.op == ITE && isK(n.b) && isK(n.c)) { H b = n.b, c = n.c, q = n.a; return mkIte(tw, q, K(tw, N[b].k), K(tw, N[c].k)); }
  }
  if (code == 1 && N[a].op == ZEXT) return mkCast(1, N[N[a].a].w, tw, N[a].a);
  H r = mknode(code == 1 ? ZEXT : code == 2 ? SEXT : TRUNC, tw, 0, a, 0, 0, 0);
  if (code == 1 && N[a].lo >= 0) { N[r].lo = N[a].lo; N[r].hi = N[a].hi; }
  else if (code == 1 && fw < 50) { N[r].lo = 0; N[r].hi = (double)maskw(fw); }
  else if (code == 2) { N[r].lo = N[a].lo; N[r].hi = N[a].hi; }
  return fin(r);
}
static H mkIte(unsigned w, H c, H a, H b) {
  if (isK(c)) return N[c].k ? a : b;
  if (a == b) return a;
  if (N[c].op == NOT) { return mkIte(w, N[c].a, b, a); }
  if (w == 1) {
    if (isK(a)) return N[a].k ? mkBin(OR, 1, c, b) : mkBin(AND, 1, mkNot(c), b);
    if (isK(b)) return N[b].k ? mkBin(OR, 1, mkNot(c), a) : mkBin(AND, 1, c, a);
  }
  H r = mknode(ITE, w, 0, c, a, b, 0);
  if (w > 1) {
    auto L = [&](H x) { return isK(x) ? (double)sext(N[x].k, w) : N[x].lo; };
    auto U = [&](H x) { return isK(x) ? (double)sext(N[x].k, w) : N[x].hi; };
    N[r].lo = std::min(L(a), L(b)); N[r].hi = std::max(U(a), U(b));
  }
  setv(r, val(c) ? val(a) : val(b));
  return r;
}
static H mkKF(double d) {
  if (d == 0) d = 0.0;
  H h = mknode(K_F, 0, 0, 0, 0, 0, b_of(d));
  N[h].lo = N[h].hi = d;
  N[h].isint = d == std::floor(d) && std::fabs(d) < 1e15;
  setv(h, b_of(d));
  return h;
}
// result handle for a polynomial; 0 if it is a constant
static H finPoly(const Poly &p, double native) {
  double c;
  if (isConstPoly(p, c)) return 0;
  H h = polyNode(p);
  setv(h, b_of(native));
  return h;
}
static int addVar(uint64_t hash, H node, const string &name, int64_t lo, int64_t hi) {
  auto it = varByHash.find(hash);
  if (it != varByHash.end()) {
    Var &v = vars[it->second];
    if (!v.node) v = {hash, node, name, lo, hi};
    return it->second;
  }
  vars.push_back({hash, node, name, lo, hi});
  varByHash[hash] = vars.size() - 1;
  return vars.size() - 1;
}
static int64_t modelValue(int vi, bool &have) {
  have = vi < (int)cur.size() && cur[vi] != INT64_MIN && cur[vi] >= vars[vi].lo && cur[vi] <= vars[vi].hi;
  return have ? cur[vi] : vars[vi].lo;
}
static void setModel(int vi, int64_t v) {
  if (vi >= (int)cur.size()) cur.resize(vars.size(), INT64_MIN);
  cur[vi] = v;
}
// bounds of a fresh variable as an assumption of the path
static H andAll(H a, H b) { return mkBin(AND, 1, a, b); }
static H mkFcmp(Op op, const Poly &p, double diffsign);
static H fltConst(H v, double c, bool less) {  // v < c or c < v, as raw node
  Poly p, r;
  if (less) polyAdd(polyOf(v), constPoly(c), -1, r);
  else polyAdd(constPoly(c), polyOf(v), -1, r);
  H q = polyNode(r);
  H n = mkCmp(FLT0, q);
  return n;
}
static void assumeBounds(H h, double lo, double hi) {
  // bypass interval reasoning: these facts define the intervals
  H a = fltConst(h, lo, true), b = fltConst(h, hi, false);
  setv(a, 0); setv(b, 0);
  decide(a, false, D_ASSUME, 0);
  decide(b, false, D_ASSUME, 0);
}
static H havoc(unsigned code, H a, H b, double native, double lo, double hi) {
  if (!exact_mode) path_havoc = true;
  H h = mknode(HAVOC, 0, code, a, b, 0, 0);
  bool fresh = N[h].epoch != epoch;
  if (N[h].var < 0) {
    char nm[64];
    snprintf(nm, sizeof nm, "h!%016llx", (unsigned long long)N[h].hash);
    int64_t l = (int64_t)std::max(lo * HSCALE, -1e14), u = (int64_t)std::min(hi * HSCALE, 1e14);
    if (u < l) u = l;
    int vi = addVar(N[h].hash, h, nm, l, u);
    N[h].var = vi;
    N[h].lo = l / HSCALE; N[h].hi = u / HSCALE;
  }
  if (fresh) {
    bool have; int64_t v = modelValue(N[h].var, have);
    if (!have) {
      double x = std::isfinite(native) ? std::floor(native * HSCALE + 0.5) : 0;
      if (!(x >= vars[N[h].var].lo)) x = vars[N[h].var].lo;
      if (!(x <= vars[N[h].var].hi)) x = vars[N[h].var].hi;
      v = (int64_t)x;
    }
    setModel(N[h].var, v);
    setv(h, b_of(v / HSCALE));
    assumeBounds(h, N[h].lo, N[h].hi);
  }
  return h;
}
// comparison p < 0 / p == 0 decided by intervals or as a node
// integer-valued up to its constant term: that term, or NaN
static double fracConst(const Poly &p) {
  double c = 0;
  for (auto &t : p.t) {
    if (monos[t.first].f.empty()) {
      c = t.second;
      if (!t.second.integer() && c == std::floor(c)) c = std::floor((double)floorDy(t.second)) + 0.5;  // rounded
      continue;
    }
    if (!t.second.integer()) return NAN;
    for (auto &f : monos[t.first].f) if (N[f.first].op != V_F) return NAN;
  }
  return c;
}
// Coefficients like 0.9 over integers: p has the sign of q, or that of the (constant) residue where q is zero
static bool simplify(const Poly &p, Poly &q, int &residue) {
  bool fine = true;
  for (auto &t : p.t) {
    if (t.second.e < -30) fine = false;
    for (auto &f : monos[t.first].f) if (N[f.first].op != V_F) return false;
  }
  if (fine) return false;
  for (int D = 1; D <= 1000; ++D) {
    Poly r;
    q.t.clear();
    bool ok = true;
    for (auto &t : p.t) {
      Dy x;
      if (!mulDy(t.second, Dy(D), x)) { ok = false; break; }
      const double k = std::nearbyint((double)x);
      Dy d;
      if (std::fabs(k) > 0x1p40 || !addDy(x, Dy(-k), d) || std::fabs((double)d) > 1e-9) { ok = false; break; }
      if (k != 0) q.t.push_back({t.first, Dy(k)});
      if (d.m != 0) r.t.push_back({t.first, d});
    }
    if (!ok) continue;
    double lo, hi;
    bounds(r, lo, hi);
    if (lo < -0.5 || hi > 0.5) return false;
    if (lo > 0) residue = 1;
    else if (hi < 0) residue = -1;
    else if (lo == 0 && hi == 0) residue = 0;
    else return false;
    return true;
  }
  return false;
}
static H mkLT0(const Poly &p0, bool nativeTruth) {
  double c;
  Poly p = p0, q;
  int residue;
  if (exact_mode && simplify(p, q, residue)) {
    p = q;
    if (residue < 0) polyAdd(q, constPoly(1), -1, p);
  }
  c = fracConst(p);
  if (c == c && c != std::floor(c)) {
    for (size_t i = 0; i < p.t.size(); ++i)
      if (monos[p.t[i].first].f.empty()) { p.t[i].second = floorDy(p.t[i].second); if (p.t[i].second.m == 0) { p.t.erase(p.t.begin() + i); } break; }
  }
  if (isConstPoly(p, c)) return K(1, c < 0);
  double lo, hi;
  bounds(p, lo, hi);
  if (hi < 0) return K(1, 1);
  if (lo >= 0) return K(1, 0);
  H h = mkCmp(FLT0, polyNode(p));
  setv(h, nativeTruth);
  return h;
}
static H mkEQ0(const Poly &p0, bool nativeTruth) {
  double c;
  if (isConstPoly(p0, c)) return K(1, c == 0);
  Poly q0; int residue;
  if (exact_mode && simplify(p0, q0, residue)) {
    if (residue) return K(1, 0);
    return mkEQ0(q0, nativeTruth);
  }
  c = fracConst(p0);
  if (c == c && c != std::floor(c)) return K(1, 0);
  double lo, hi;
  bounds(p0, lo, hi);
  if (hi < 0 || lo > 0) return K(1, 0);
  Poly p = p0;
  // sign independent of the numbering of the monomials
  size_t best = 0; uint64_t bh = ~0ull;
  for (size_t i = 0; i < p.t.size(); ++i) {
    uint64_t h = 0;
    for (auto &f : monos[p.t[i].first].f) h += mix(N[f.first].hash, f.second);
    if (h < bh && !monos[p.t[i].first].f.empty()) { bh = h; best = i; }
  }
  if (p.t[best].second.m < 0) { Poly z; polyAdd(z, p0, -1, p); }
  H h = mkCmp(FEQ0, polyNode(p));
  setv(h, nativeTruth);
  return h;
}

static void setKnown(H n, bool dir);
// the value is positive for every input of the path
static bool positive(H d) {
  if (N[d].lo > 0) return true;
  Poly np; Poly z;
  if (!polyAdd(z, polyOf(d), -1, np)) return false;
  H lt = mkLT0(np, true);
  if (isK(lt)) return N[lt].k != 0;
  int k = known(lt);
  if (k >= 0) return k == 1;
  if (!exact_mode) return false;
  Model m;
  defineRoots(lt);
  if (feasible(lt, false, m) != 0) return false;
  setKnown(lt, true);
  return true;
}
// Same sign, without quotients (positive denominators) and with a lone square root squared
static const int CLEARBITS = 60;  // beyond, the degrees are too high for the solver anyway
static Poly clearDivisions(const Poly &p0) {
  Poly p = p0;
  for (int round = 0; round < 4; ++round) {
    H f = 0;
    for (auto &t : p.t)
      for (auto &a : monos[t.first].f)
        if (N[a.first].op == FDIV && positive(N[a.first].b)) f = a.first;
    if (!f) break;
    const Poly num = polyOf(N[f].a), den = polyOf(N[f].b);
    Poly acc;
    for (auto &t : p.t) {
      Mono m = monos[t.first];
      bool has = false;
      for (size_t i = 0; i < m.f.size(); ++i)
        if (m.f[i].first == f) { has = true; if (--m.f[i].second == 0) m.f.erase(m.f.begin() + i); break; }
      Poly one, q, nx;
      one.t.push_back({monoId(m), t.second});
      if (!polyMul(one, has ? num : den, q) || !polyAdd(acc, q, 1, nx)) return p0;
      acc = nx;
      for (auto &k : acc.t) if (k.second.m > ((__int128)1 << CLEARBITS) || k.second.m < -((__int128)1 << CLEARBITS)) return p0;
    }
    p = acc;
  }
  // difference of two square roots
  if (p.t.size() == 2) {
    H s[2] = {0, 0};
    for (int i = 0; i < 2; ++i) {
      auto &m = monos[p.t[i].first];
      if (m.f.size() == 1 && m.f[0].second == 1 && N[m.f[0].first].op == FSQRT) s[i] = m.f[0].first;
    }
    const Dy c0 = p.t[0].second, c1 = p.t[1].second;
    Dy a, b;
    if (s[0] && s[1] && (c0.m < 0) != (c1.m < 0) && mulDy(c0, c0, a) && mulDy(c1, c1, b)) {
      Poly x, y, r;
      if (polyMul(polyOf(N[s[0]].a), constPoly(c0.m > 0 ? a : negDy(a)), x) && polyMul(polyOf(N[s[1]].a), constPoly(c1.m > 0 ? b : negDy(b)), y)
          && polyAdd(x, y, 1, r))
        return clearDivisions(r);
    }
  }
  // c1 * sqrt(x) + c0
  if (p.t.size() <= 2) {
    Dy c0, c1; H s = 0;
    for (auto &t : p.t) {
      auto &m = monos[t.first];
      if (m.f.empty()) c0 = t.second;
      else if (m.f.size() == 1 && m.f[0].second == 1 && N[m.f[0].first].op == FSQRT) { c1 = t.second; s = m.f[0].first; }
      else return p;
    }
    if (s && c0.m == 0 && p.t.size() == 1) {
      Poly q;
      if (polyMul(polyOf(N[s].a), constPoly(c1.m > 0 ? Dy(1) : Dy(-1)), q)) return clearDivisions(q);
    }
    if (s && c0.m != 0 && (c0.m < 0) != (c1.m < 0)) {
      // c1*s + c0 has the sign of c1^2*x - c0^2 times that of c1
      Dy a, b; Poly k, r, q;
      if (!mulDy(c1, c1, a) || !mulDy(c0, c0, b)) return p;
      if (b.e < -1000) b = Dy();  // as zero: far below every value
      if (!polyMul(polyOf(N[s].a), constPoly(c1.m > 0 ? a : negDy(a)), q) || !polyAdd(q, constPoly(c1.m > 0 ? b : negDy(b)), -1, r)) return p;
      return clearDivisions(r);
    }
  }
  return p;
}

// FP operand as a node handle (constants included); 0 if not finite
static H fopnd(H s, double v) {
  if (s && check(s, b_of(v), 0) && N[s].w == 0) return s;
  if (!std::isfinite(v)) return 0;
  return mkKF(v);
}
static bool isKF(H h) { return N[h].op == K_F; }

extern "C" {
H __symrt_fop(uint32_t code, H sa, double a, H sb, double b, double native) {
  Guard g;
  __symrt_fover = native;
  bool bin = code <= 4 || code == 12 || code == 13 || code == 14;
  H x = fopnd(sa, a), y = bin ? fopnd(sb, b) : 0;
  if (!x || (bin && !y)) return 0;  // infinities and NaN are concrete
  if (isKF(x) && (!bin || isKF(y))) return 0;
  Poly r;
  auto asHavoc = [&](double lo, double hi) -> H {
    H h = havoc(code, x, y, native, lo, hi);
    __symrt_fover = d_of(val(h));
    return h;
  };
  auto nonneg = [&](H h) { return N[h].lo >= 0; };
  switch (code) {
    case 1: case 2:
      if (polyAdd(polyOf(x), polyOf(y), code == 1 ? 1.0 : -1.0, r)) return finPoly(r, native);
      return asHavoc(-1e11, 1e11);
    case 5: { Poly z; polyAdd(z, polyOf(x), -1, r); return finPoly(r, native); }
    case 3: {
      if (isKF(x) || isKF(y) || exact_mode) {
        if (polyMul(polyOf(x), polyOf(y), r)) return finPoly(r, native);
        if (exact_mode) incomplete("inexact product");
        return asHavoc(nonneg(x) && nonneg(y) ? 0 : -1e11, 1e11);
      }
      if (N[x].hash > N[y].hash) std::swap(x, y);
      bool nn = x == y || (nonneg(x) && nonneg(y));
      return asHavoc(nn ? 0 : -1e11, 1e11);
    }
    case 4: {
      if (isKF(y)) {
        double inv = 1.0 / b;
        int e;
        if (b != 0 && std::fabs(std::frexp(b, &e)) == 0.5) {
          polyMul(polyOf(x), constPoly(inv), r);
          return finPoly(r, native);
        }
        if (b == 0) { __symrt_fover = native; decide(mkLT0(polyOf(x), a < 0), a < 0, D_BRANCH, 0);
                      decide(mkEQ0(polyOf(x), a == 0), a == 0, D_BRANCH, 0); return 0; }
      } else {
        // division by a symbolic value: zero denominator is a separate case
        H ez = mkEQ0(exact_mode ? clearDivisions(polyOf(y)) : polyOf(y), b == 0);
        decide(ez, b == 0, D_BRANCH, 0);
        if (b == 0) {
          if (!isKF(x)) {
            decide(mkLT0(polyOf(x), a < 0), a < 0, D_BRANCH, 0);
            decide(mkEQ0(polyOf(x), a == 0), a == 0, D_BRANCH, 0);
          }
          return 0;
        }
      }
      if (x == y) { __symrt_fover = 1.0; return 0; }
      if (!exact_mode) {
        bool nn = nonneg(x) && nonneg(y);
        return asHavoc(nn ? 0 : -1e11, 1e11);
      }
      H h = mknode(FDIV, 0, 0, x, y, 0, 0);
      N[h].lo = (nonneg(x) && nonneg(y)) ? 0 : -1e300;
      setv(h, b_of(native));
      return h;
    }
    case 10: {
      if (!exact_mode) {
        decide(mkLT0(polyOf(x), a < 0), a < 0, D_BRANCH, 0);
        if (a < 0) return 0;
        return asHavoc(0, 1e11);
      }
      decide(mkLT0(clearDivisions(polyOf(x)), a < 0), a < 0, D_BRANCH, 0);
      if (a < 0) return 0;
      H h = mknode(FSQRT, 0, 0, x, 0, 0, 0);
      bool fresh = N[h].epoch != epoch;
      N[h].lo = 0;
      setv(h, b_of(native));
      if (fresh) {
        // r*r == x, r >= 0
        H eq = mknode(FOTHER, 1, 1, h, x, 0, 0);
        if (!N[eq].ast) {
          Z3_ast s = AST(h), q[2] = {s, s};
          Z3_ast p[2] = {Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, q), toReal(x)), Z3_mk_ge(ctx, s, numReal(0, false))};
          Z3_ast c = Z3_mk_and(ctx, 2, p);
          Z3_inc_ref(ctx, c);
          N[eq].ast = c;
        }
        setv(eq, 1);
        pendingRoots.push_back({h, eq});
      }
      return h;
    }
    case 11: {
      bool neg = a < 0;
      decide(mkLT0(polyOf(x), neg), neg, D_BRANCH, 0);
      if (neg) { Poly z; polyAdd(z, polyOf(x), -1, r); return finPoly(r, native); }
      return x;
    }
    case 12: case 13: {
      bool lt = a < b;
      polyAdd(polyOf(x), polyOf(y), -1, r);
      decide(mkLT0(r, lt), lt, D_BRANCH, 0);
      H q = (code == 12) == lt ? x : y;
      return isKF(q) ? 0 : q;
    }
    default:
      incomplete("unmodelled math function");
      return asHavoc(-1e11, 1e11);
  }
}

H __symrt_bin(uint32_t code, uint32_t w, H sa, uint64_t a, H sb, uint64_t b) {
  Guard g;
  bool oa = sa && check(sa, a, w), ob = sb && check(sb, b, w);
  if (!oa && !ob) return 0;
  H r = mkBin((Op)(ADD + code - 1), w, oa ? sa : K(w, a), ob ? sb : K(w, b));
  return isK(r) ? 0 : r;
}
H __symrt_minmax(uint32_t code, uint32_t w, H sa, uint64_t a, H sb, uint64_t b) {
  Guard g;
  bool oa = sa && check(sa, a, w), ob = sb && check(sb, b, w);
  if (!oa && !ob) return 0;
  H x = oa ? sa : K(w, a), y = ob ? sb : K(w, b), c, r;
  switch (code) {
    case 1: c = mkBin(SLT, w, y, x); r = mkIte(w, c, x, y); break;
    case 2: c = mkBin(SLT, w, x, y); r = mkIte(w, c, x, y); break;
    case 3: c = mkBin(ULT, w, y, x); r = mkIte(w, c, x, y); break;
    case 4: c = mkBin(ULT, w, x, y); r = mkIte(w, c, x, y); break;
    default: c = mkBin(SLT, w, x, K(w, 0)); r = mkIte(w, c, mkBin(SUB, w, K(w, 0), x), x); break;
  }
  return isK(r) ? 0 : r;
}
H __symrt_icmp(uint32_t pred, uint32_t w, H sa, uint64_t a, H sb, uint64_t b) {
  Guard g;
  bool oa = sa && check(sa, a, w), ob = sb && check(sb, b, w);
  if (!oa && !ob) return 0;
  H x = oa ? sa : K(w, a), y = ob ? sb : K(w, b), r;
  switch (pred) {
    case 32: r = mkBin(EQ, w, x, y); break;
    case 33: r = mkNot(mkBin(EQ, w, x, y)); break;
    case 34: r = mkBin(ULT, w, y, x); break;
    case 35: r = mkBin(ULE, w, y, x); break;
    case 36: r = mkBin(ULT, w, x, y); break;
    case 37: r = mkBin(ULE, w, x, y); break;
    case 38: r = mkBin(SLT, w, y, x); break;
    case 39: r = mkBin(SLE, w, y, x); break;
    case 40: r = mkBin(SLT, w, x, y); break;
    default: r = mkBin(SLE, w, x, y); break;
  }
  return isK(r) ? 0 : r;
}
H __symrt_fcmp(uint32_t pred, uint32_t, H sa, uint64_t ab, H sb, uint64_t bb) {
  Guard g;
  double a = d_of(ab), b = d_of(bb);
  H x = fopnd(sa, a), y = fopnd(sb, b);
  if (!x || !y) return 0;
  if (isKF(x) && isKF(y)) return 0;
  unsigned p = pred & 7;  // ordered part
  if (p == 0 || p == 7) return 0;  // false/ord, uno/true : values are never NaN here
  Poly d;
  // an integer compared with a value that is not one: only its integer part matters
  for (int side = 0; side < 2; ++side) {
    H &v = side ? x : y, other = side ? y : x;
    if (!isKF(v)) continue;
    double c = d_of(N[v].k), i = fracConst(polyOf(other));
    if (c != std::floor(c) && std::fabs(c) < 0x1p40 && i == std::floor(i)) v = mkKF(std::floor(c) + 0.5);
  }
  if (!polyAdd(polyOf(x), polyOf(y), -1, d)) {
    // inexact difference (e.g. comparison with a huge constant)
    double lx = N[x].lo, hx = N[x].hi, ly = N[y].lo, hy = N[y].hi;
    if (hx < ly || hy < lx) return 0;
    incomplete("comparison of values of very different magnitude");
    return 0;
  }
  if (exact_mode) d = clearDivisions(d);
  Poly nd, z;
  polyAdd(z, d, -1, nd);
  H r;
  switch (p) {
    case 1: r = mkEQ0(d, a == b); break;
    case 2: r = mkLT0(nd, a > b); break;
    case 3: r = mkNot(mkLT0(d, a < b)); break;
    case 4: r = mkLT0(d, a < b); break;
    case 5: r = mkNot(mkLT0(nd, a > b)); break;
    default: r = mkNot(mkEQ0(d, a == b)); break;
  }
  return isK(r) ? 0 : r;
}
H __symrt_cast(uint32_t code, uint32_t fw, uint32_t tw, H s, uint64_t v) {
  Guard g;
  if (!check(s, v, fw)) return 0;
  H r = mkCast(code, fw, tw, s);
  return isK(r) ? 0 : r;
}
H __symrt_select(uint32_t w, H sc, uint32_t c, H sa, uint64_t a, H sb, uint64_t b) {
  Guard g;
  if (!check(sc, c, 1)) return c ? sa : sb;
  if (sa && !check(sa, a, N[sa].w)) sa = 0;
  if (sb && !check(sb, b, N[sb].w)) sb = 0;
  if (sa == sb && sa) return sa;
  int k = known(N[sc].op == NOT ? N[sc].a : sc);
  if (k >= 0) {
    if (N[sc].op == NOT) k = !k;
    return k ? sa : sb;
  }
  if (w == 0 || (sa && N[sa].w == 0) || (sb && N[sb].w == 0)) {
    H x = fopnd(sa, d_of(a)), y = fopnd(sb, d_of(b));
    if (!x || !y || exact_mode) { decide(sc, c, D_BRANCH, 0); return c ? sa : sb; }
    if (x == y) return isKF(x) ? 0 : x;
    H cc = sc;
    if (N[cc].op == NOT) { cc = N[cc].a; std::swap(x, y); c = !c; std::swap(a, b); }
    H h = mknode(FITE, 0, 0, cc, x, y, 0);
    N[h].lo = std::min(N[x].lo, N[y].lo);
    N[h].hi = std::max(N[x].hi, N[y].hi);
    auto intlike = [&](H q) {
      if (N[q].op == V_F || (N[q].op == FITE && N[q].isint)) return true;
      if (N[q].op == K_F) return d_of(N[q].k) == std::floor(d_of(N[q].k)) && std::fabs(d_of(N[q].k)) < 1e15;
      if (N[q].op == POLY) {
        for (auto &t : polys[N[q].poly].t) {
          if (!t.second.integer()) return false;
          for (auto &f : monos[t.first].f) if (!(N[f.first].op == V_F || (N[f.first].op == FITE && N[f.first].isint))) return false;
        }
        return true;
      }
      return false;
    };
    N[h].isint = intlike(x) && intlike(y);
    setv(h, c ? a : b);
    return h;
  }
  H x = sa ? sa : K(w, a), y = sb ? sb : K(w, b);
  if (N[x].w != N[y].w) { decide(sc, c, D_BRANCH, 0); return c ? sa : sb; }
  H r = mkIte(w, sc, x, y);
  return isK(r) ? 0 : r;
}
void __symrt_branch(H s, uint32_t c, uint32_t site) {
  Guard g;
  if (!check(s, c, 1)) return;
  decide(s, c != 0, D_BRANCH, site);
}
void __symrt_concretize(H s, uint64_t v, uint32_t site) {
  Guard g;
  unsigned w = N[s].w;
  if (!check(s, v, w)) return;
  st.conc++;
  if (w == 1) { decide(s, v != 0, D_BRANCH, site); return; }
  auto eq = [&](uint64_t k, bool truth) -> H {
    if (w) return mkBin(EQ, w, s, K(w, k));
    Poly p;
    if (!polyAdd(polyOf(s), constPoly(d_of(k)), -1, p)) fatal("inexact concretisation");
    return mkEQ0(p, truth);
  };
  // values already excluded on this path come first
  for (unsigned i = 0;; ++i) {
    if (i > conc_cap) { incomplete("too many values to make concrete"); return; }
    uint64_t k, hash;
    if (depth < tr.size()) {
      Dec &d = tr[depth];
      if (d.kind != D_CONC || (bool)(d.dir ^ d.flip)) break;
      k = d.ck; hash = N[d.node].hash;
    } else if (forced_prefix && depth < job_dirs.size()) {
      JDec d = job_dirs[depth];
      if (d.kind != D_CONC || (bool)(d.dir ^ d.flip)) break;
      k = d.ck; hash = d.hash;
    } else break;
    H e = eq(k, false), base = e;
    while (N[base].op == NOT) base = N[base].a;
    if (isK(e) || N[base].hash != hash) break;  // an entry of a later value
    size_t before = depth;
    decide(e, false, D_CONC, site, k);
    if (depth == before) break;
  }
  H e = eq(v, true);
  if (!isK(e)) decide(e, true, D_CONC, site, v);
  N[s].fepoch = epoch;
}
void __symrt_unsupported(uint32_t) { Guard g; st.unsupported++; incomplete("vector value"); }

// ------------------------------------------------------------------ shadow memory
struct Gran { H h[8]; uint8_t idx[8]; };  // per byte: expression and byte index + 1 (0: none)
}
static std::unordered_map<uint64_t, Gran> shadow;
static inline uint8_t &filt(uint64_t g) { return __symrt_filter[g & ((1u << 20) - 1)]; }
static vector<uint64_t> dirty;

extern "C" {
H __symrt_load(char *p, uint32_t size, uint32_t w, uint64_t native) {
  Guard g;
  uint64_t a = (uint64_t)p, gr = a >> 3, off = a & 7;
  auto it = shadow.find(gr);
  if (it == shadow.end()) return 0;
  Gran &G = it->second;
  if (off + size > 8) return 0;
  bool any = false;
  for (unsigned i = 0; i < size; ++i) any |= G.idx[off + i] != 0;
  if (!any) return 0;
  H h = G.h[off];
  bool whole = G.idx[off] == 1;
  for (unsigned i = 0; i < size && whole; ++i) whole = G.h[off + i] == h && G.idx[off + i] == i + 1;
  if (whole) {
    unsigned nb = N[h].w == 0 ? 8 : (N[h].w + 7) / 8;
    if (nb == size) {
      unsigned nw = N[h].w;
      uint64_t nv = native;
      if (N[h].epoch != epoch || !(N[h].val == (nw ? nv & maskw(nw) : nv) || (nw == 0 && d_of(N[h].val) == d_of(nv)))) {
        for (unsigned i = 0; i < size; ++i) G.idx[off + i] = 0;
        return 0;  // overwritten by code without instrumentation
      }
      if (nw && w && nw != w) {  // e.g. i1 stored as a byte
        H r = mkCast(nw < w ? 1 : 3, nw, w, h);
        return isK(r) ? 0 : r;
      }
      return h;
    }
  }
  // consecutive bytes of one expression
  if (G.idx[off] && N[h].w > 8) {
    bool run = true;
    unsigned k = G.idx[off] - 1;
    for (unsigned i = 0; i < size && run; ++i) run = G.h[off + i] == h && G.idx[off + i] == k + i + 1;
    unsigned xw = N[h].w;
    if (run && N[h].epoch == epoch && 8 * (k + size) <= xw
        && ((N[h].val >> (8 * k)) & maskw(8 * size)) == (native & maskw(8 * size))) {
      H x = k ? mkBin(LSHR, xw, h, K(xw, 8 * k)) : h;
      if (8 * size < xw) x = mkCast(3, xw, 8 * size, x);
      if (w && w < 8 * size) x = mkCast(3, 8 * size, w, x);
      return isK(x) ? 0 : x;
    }
  }
  // assemble from bytes
  H r = 0;
  unsigned W = size * 8;
  for (unsigned i = 0; i < size; ++i) {
    H e;
    uint8_t nb = (native >> (8 * i)) & 255;
    if (G.idx[off + i]) {
      H x = G.h[off + i];
      if (N[x].w == 0) { incomplete("partial read of a floating-point value"); return 0; }
      unsigned k = G.idx[off + i] - 1;
      if (N[x].epoch != epoch) return 0;
      unsigned xw = N[x].w;
      if (xw < 8) e = mkCast(1, xw, 8, x);
      else { H s = k ? mkBin(LSHR, xw, x, K(xw, 8 * k)) : x; e = xw > 8 ? mkCast(3, xw, 8, s) : s; }
      if (val(e) != nb) { G.idx[off + i] = 0; e = K(8, nb); }
    } else e = K(8, nb);
    H ext = W > 8 ? mkCast(1, 8, W, e) : e;
    if (i) ext = mkBin(SHL, W, ext, K(W, 8 * i));
    r = r ? mkBin(OR, W, r, ext) : ext;
  }
  if (w && w < W) r = mkCast(3, W, w, r);
  return isK(r) ? 0 : r;
}
static void shput(uint64_t a, unsigned size, H h) {
  for (unsigned i = 0; i < size; ++i) {
    uint64_t b = a + i, gr = b >> 3;
    if (!h) {
      if (!filt(gr)) continue;
      auto it = shadow.find(gr);
      if (it != shadow.end()) it->second.idx[b & 7] = 0;
      continue;
    }
    auto it = shadow.find(gr);
    if (it == shadow.end()) {
      it = shadow.emplace(gr, Gran()).first;
      memset(&it->second, 0, sizeof(Gran));
      filt(gr) = 1;
      dirty.push_back(gr);
    }
    it->second.h[b & 7] = h;
    it->second.idx[b & 7] = i + 1;
  }
}
void __symrt_store(char *p, uint32_t size, H h) { Guard g; shput((uint64_t)p, size, h); }
void __symrt_memset(char *p, uint64_t n, H s) {
  uint64_t a = (uint64_t)p;
  if (!n) return;
  if (s) { Guard g; incomplete("symbolic fill"); }
  for (uint64_t gr = a >> 3; gr <= (a + n - 1) >> 3; ++gr)
    if (filt(gr)) {
      Guard g;
      auto it = shadow.find(gr);
      if (it == shadow.end()) continue;
      for (unsigned i = 0; i < 8; ++i) {
        uint64_t b = gr * 8 + i;
        if (b >= a && b < a + n) it->second.idx[i] = 0;
      }
    }
}
void __symrt_memcpy(char *d, char *s, uint64_t n) {
  if (!n) return;
  uint64_t a = (uint64_t)s, da = (uint64_t)d;
  bool any = false;
  for (uint64_t gr = a >> 3; gr <= (a + n - 1) >> 3 && !any; ++gr) any |= filt(gr) != 0;
  if (!any) { __symrt_memset(d, n, 0); return; }
  Guard g;
  vector<std::pair<H, uint8_t>> tmp(n);
  for (uint64_t i = 0; i < n; ++i) {
    auto it = shadow.find((a + i) >> 3);
    if (it != shadow.end() && it->second.idx[(a + i) & 7]) tmp[i] = {it->second.h[(a + i) & 7], it->second.idx[(a + i) & 7]};
    else tmp[i] = {0, 0};
  }
  for (uint64_t i = 0; i < n; ++i) {
    uint64_t b = da + i, gr = b >> 3;
    auto it = shadow.find(gr);
    if (!tmp[i].second) { if (it != shadow.end()) it->second.idx[b & 7] = 0; continue; }
    if (it == shadow.end()) {
      it = shadow.emplace(gr, Gran()).first;
      memset(&it->second, 0, sizeof(Gran));
      filt(gr) = 1;
      dirty.push_back(gr);
    }
    it->second.h[b & 7] = tmp[i].first;
    it->second.idx[b & 7] = tmp[i].second;
  }
}
void __symrt_vecload(char *p, uint64_t n) {
  uint64_t a = (uint64_t)p;
  for (uint64_t gr = a >> 3; gr <= (a + n - 1) >> 3; ++gr)
    if (filt(gr)) {
      Guard g;
      auto it = shadow.find(gr);
      if (it == shadow.end()) continue;
      for (unsigned i = 0; i < 8; ++i) {
        uint64_t b = gr * 8 + i;
        if (b >= a && b < a + n && it->second.idx[i]) { st.unsupported++; incomplete("vector load"); return; }
      }
    }
}
void __symrt_memcmp(char *x, char *y, uint64_t n) {
  // decide equality of each pair of bytes that is symbolic, up to the first difference
  for (uint64_t i = 0; i < n; ++i) {
    H ex = filt((uint64_t)(x + i) >> 3) ? __symrt_load(x + i, 1, 8, (uint8_t)x[i]) : 0;
    H ey = filt((uint64_t)(y + i) >> 3) ? __symrt_load(y + i, 1, 8, (uint8_t)y[i]) : 0;
    Guard g;
    if (ex) __symrt_concretize(ex, (uint8_t)x[i], 0);
    if (ey) __symrt_concretize(ey, (uint8_t)y[i], 0);
    if (x[i] != y[i]) return;
  }
}
void __symrt_byvalcopy(uint32_t is, char *dst, int64_t src, uint64_t n) {
  if (!is) { __symrt_memset(dst, n, 0); return; }
  if ((char *)src != dst) __symrt_memcpy(dst, (char *)src, n);
}
}

// ------------------------------------------------------------------ driver API
// inputs of the running path, readable by the master should this process die
static char *inlog; static size_t inlogN; static const size_t INLOG = 65536;
static void logInput(const string &n, int64_t v) {
  if (!inlog || inlogN + n.size() + 32 > INLOG) return;
  memcpy(inlog + inlogN, n.data(), n.size());
  inlogN += n.size();
  inlogN += sprintf(inlog + inlogN, " %ld\n", (long)v);
}

static H intVar(const char *name, int idx, int64_t lo, int64_t hi, unsigned w, Op op) {
  string nm = string(name) + "[" + std::to_string(idx) + "]";
  uint64_t hs = mix(hstr(nm.c_str()), w + 100 * op);
  H h = mknode(op, op == V_F ? 0 : w, 0, 0, 0, 0, hs);
  if (N[h].var < 0) {
    N[h].var = addVar(hs, h, nm, lo, hi);
    if (op == V_F) { N[h].lo = lo; N[h].hi = hi; N[h].isint = true; }
  }
  int vi = N[h].var;
  if (op == V_F && (N[h].lo != lo || N[h].hi != hi)) {
    N[h].lo = lo; N[h].hi = hi;
  }
  vars[vi].lo = lo; vars[vi].hi = hi;
  bool have; int64_t v = modelValue(vi, have);
  setModel(vi, v);
  AST(h);
  if (op == V_F) {
    setv(h, b_of((double)v));
    assumeBounds(h, lo, hi);
  } else if (op == V_I) {
    N[h].lo = -1e300; N[h].hi = 1e300;
    setv(h, (uint64_t)v & maskw(w));
    int64_t tmin = w == 64 ? INT64_MIN : -(1ll << (w - 1)), tmax = w == 64 ? INT64_MAX : (1ll << (w - 1)) - 1;
    if (lo > tmin) { H c = mkBin(SLT, w, h, K(w, lo)); if (!isK(c)) decide(c, false, D_ASSUME, 0); }
    if (hi < tmax) { H c = mkBin(SLT, w, K(w, hi), h); if (!isK(c)) decide(c, false, D_ASSUME, 0); }
    N[h].lo = (double)lo; N[h].hi = (double)hi;
  } else setv(h, v != 0);
  logInput(vars[vi].name, v);
  return h;
}
struct Violation { string id, kind, known; int cas; bool havoc; vector<std::pair<string, int64_t>> vals; };
static vector<Violation> viols;
static std::map<string, int> violCount;

static void report(const char *id, const char *kind, const Model *m) {
  string key = string(id) + "|" + kind + "|" + path_known + "|" + std::to_string(cur_case);
  if (violCount[key]++ >= 6) return;
  Violation v;
  v.id = id; v.kind = kind; v.known = path_known; v.cas = cur_case; v.havoc = path_havoc;
  for (size_t i = 0; i < vars.size(); ++i) {
    if (N[vars[i].node].epoch != epoch) continue;
    int64_t x = m && i < m->size() && (*m)[i] != INT64_MIN ? (*m)[i] : i < cur.size() ? cur[i] : INT64_MIN;
    if (x == INT64_MIN) continue;
    v.vals.push_back({vars[i].name, x});
  }
  viols.push_back(v);
}

extern "C" {
int64_t sym_i64(const char *name, int idx, int64_t lo, int64_t hi) {
  Guard g;
  if (lo == hi) { __symrt_ret[0] = 0; return lo; }
  H h = intVar(name, idx, lo, hi, 64, V_I);
  __symrt_ret[0] = h;
  return (int64_t)val(h);
}
int sym_i32(const char *name, int idx, int lo, int hi) {
  Guard g;
  if (lo == hi) { __symrt_ret[0] = 0; return lo; }
  H h = intVar(name, idx, lo, hi, 32, V_I);
  __symrt_ret[0] = h;
  return (int)val(h);
}
bool sym_bool(const char *name, int idx) {
  Guard g;
  H h = intVar(name, idx, 0, 1, 1, V_B);
  __symrt_ret[0] = h;
  return val(h) != 0;
}
double sym_f64(const char *name, int idx, int lo, int hi) {
  Guard g;
  if (lo == hi) { __symrt_ret[0] = 0; return lo; }
  H h = intVar(name, idx, lo, hi, 0, V_F);
  __symrt_ret[0] = h;
  return d_of(val(h));
}
static H argShadow(int i) { return __symrt_marker ? __symrt_arg[i] : 0; }
void sym_assume(bool c) {
  Guard g;
  H s = argShadow(0);
  if (s && check(s, c, 1)) {
    if (c) {
      H n = s; bool dir = true;
      while (N[n].op == NOT) { n = N[n].a; dir = !dir; }
      if (known(n) < 0) decide(s, true, D_ASSUME, 0);
      return;
    }
    decide(s, false, D_BRANCH, 0);
  }
  if (!c) endp(PRUNED);
}
static int solve_again(H node, bool dir, Model &m) {
  // nonlinear arithmetic: a dedicated tactic on the whole path condition
  Z3_ast_vector v = Z3_solver_get_assertions(ctx, solver);
  Z3_ast_vector_inc_ref(ctx, v);
  Z3_tactic t = Z3_mk_tactic(ctx, "qfnra");
  Z3_tactic_inc_ref(ctx, t);
  Z3_solver s2 = Z3_mk_solver_from_tactic(ctx, t);
  Z3_solver_inc_ref(ctx, s2);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 20000);
  Z3_solver_set_params(ctx, s2, p);
  for (unsigned i = 0; i < Z3_ast_vector_size(ctx, v); ++i) Z3_solver_assert(ctx, s2, Z3_ast_vector_get(ctx, v, i));
  Z3_ast a = AST(node);
  Z3_solver_assert(ctx, s2, dir ? a : Z3_mk_not(ctx, a));
  double t0 = now();
  Z3_lbool r = Z3_solver_check(ctx, s2);
  st.solver_s += now() - t0;
  st.queries++;
  Z3_solver_dec_ref(ctx, s2); Z3_tactic_dec_ref(ctx, t); Z3_params_dec_ref(ctx, p); Z3_ast_vector_dec_ref(ctx, v);
  return r == Z3_L_FALSE ? 0 : -1;
}
void sym_assert(bool c, const char *id) {
  Guard g;
  H s = argShadow(0);
  if (s && check(s, c, 1)) {
    bool dir = true; H n = s;
    while (N[n].op == NOT) { n = N[n].a; dir = !dir; }
    st.asserts_sym++;
    int k = known(n);
    if (k >= 0) {
      if (k == (int)dir) return;
      report(id, "assert", nullptr);
      endp(VIOL);
    }
    Model m;
    if (!c) {
      report(id, "assert", nullptr);
      // continue with the inputs that satisfy it, if any
      decide(s, false, D_BRANCH, 0);
      endp(VIOL);
    }
    defineRoots(n);
    int r = feasible(n, !dir, m);
    if (r == -1 && exact_mode) r = solve_again(n, !dir, m);
    if (r == 1) report(id, "assert", &m);
    if (r == -1) { st.assert_unknown++; incomplete("assertion undecided"); }
    return;
  }
  st.asserts_conc++;
  if (!c) { report(id, "assert", nullptr); endp(VIOL); }
}
void sym_cover(const char *label) { Guard g; covers[label]++; }
int64_t sym_concrete(int64_t v) {
  Guard g;
  H s = argShadow(0);
  __symrt_ret[0] = 0;
  if (s) __symrt_concretize(s, (uint64_t)v, 0);
  return v;
}
void sym_observe(uint64_t v) { obs = mix(obs, v); }
void sym_observe_f(double v) { Guard g; obs = mix(obs, b_of(v == 0 ? 0.0 : v)); }
void sym_mode(int e) { exact_mode = e; }
void sym_known(const char *id) { Guard g; path_known = id; }
int sym_tier() { return tier_thorough; }
void sym_novalidate() { path_novalidate = true; }
bool sym_is_symbolic_f(double) { bool r = argShadow(0) != 0; __symrt_ret[0] = 0; return r; }
}

// ------------------------------------------------------------------ running one path
static char *secB, *secE;
static vector<char> secCopy;
static void on_signal(int sig) {
  if (sig == SIGALRM) {
    if (in_target) endp(TIMEOUT);
    // inside the solver: try again shortly
    struct itimerval it = {{0, 0}, {0, 20000}};
    setitimer(ITIMER_REAL, &it, nullptr);
    return;
  }
  if (in_target) endp(CRASH);
  const char m[] = "symrt: signal in the runtime\n";
  if (write(2, m, sizeof m - 1)) {}
  _exit(4);
}
static vector<std::pair<string, string>> sampleOut;
static unsigned path_alarm_s = 10;

static Outcome run_path() {
  ++epoch;
  depth = 0;
  if (inlog) { inlogN = 0; inlog[0] = 0; }
  path_havoc = path_novalidate = false;
  path_known.clear();
  obs = 1234567;
  exact_mode = 0;
  dbm_reset();
  pendingRoots.clear();
  for (uint64_t gr : dirty) filt(gr) = 0;
  dirty.clear();
  shadow.clear();
  arena_cur = arena;
  memset(__symrt_arg, 0, sizeof __symrt_arg);
  memset(__symrt_ret, 0, sizeof __symrt_ret);
  __symrt_marker = nullptr;
  memcpy(secB, secCopy.data(), secE - secB);
  {
    // drop exceptions left by an abandoned path
    struct G { void *c; unsigned u; };
    G *gl = (G *)abi::__cxa_get_globals();
    gl->c = nullptr; gl->u = 0;
  }
  struct itimerval it = {{0, 0}, {(time_t)path_alarm_s, 0}};
  setitimer(ITIMER_REAL, &it, nullptr);
  int r = sigsetjmp(*(sigjmp_buf *)&jb, 1);
  Outcome o = DONE;
  if (r == 0) {
    try {
      in_target = 1;
      harness_main(cur_case);
      in_target = 0;
    } catch (...) {
      in_target = 0;
      o = UNCAUGHT;
    }
  } else o = (Outcome)(r - 1);
  in_target = 0;
  struct itimerval z = {{0, 0}, {0, 0}};
  setitimer(ITIMER_REAL, &z, nullptr);
  if (&__symrt_fnhits)
    for (size_t i = 0; i < fnacc.size(); ++i) fnacc[i] |= __symrt_fnhits[i];
  return o;
}
static void solver_reset() {
  Z3_solver_reset(ctx, solver);
}
static void init_z3() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    _exit(5);
  });
  Z3_del_config(cfg);
  sInt = Z3_mk_int_sort(ctx); sReal = Z3_mk_real_sort(ctx); sBool = Z3_mk_bool_sort(ctx);
  Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, sInt)); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, sReal));
  Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, sBool));
  solver = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, solver);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), q_timeout);
  Z3_solver_set_params(ctx, solver, p);
  Z3_params_dec_ref(ctx, p);
}
static void init_nodes() {
  N.clear(); N.push_back(Node{});
  polys.clear(); polys.push_back(Poly());
  monos.clear(); monoIdx.clear(); polyIdx.clear(); cons.clear(); vars.clear(); varByHash.clear();
  monoId(Mono{});
}

// ------------------------------------------------------------------ jobs
struct Job {
  int cas = 0; double budget = 1;
  vector<JDec> dirs;
  vector<std::pair<uint64_t, int64_t>> model;
};
struct Buf {
  string s;
  void u(uint64_t v) { s.append((char *)&v, 8); }
  void d(double v) { s.append((char *)&v, 8); }
  void str(const string &x) { u(x.size()); s += x; }
};
struct Rd {
  const string &s; size_t p = 0;
  explicit Rd(const string &x) : s(x) {}
  uint64_t u() { uint64_t v; memcpy(&v, s.data() + p, 8); p += 8; return v; }
  double d() { double v; memcpy(&v, s.data() + p, 8); p += 8; return v; }
  string str() { size_t n = u(); string r = s.substr(p, n); p += n; return r; }
};
static void putJob(Buf &b, const Job &j) {
  b.u(j.cas); b.d(j.budget);
  b.str(string((const char *)j.dirs.data(), j.dirs.size() * sizeof(JDec)));
  b.u(j.model.size());
  for (auto &m : j.model) { b.u(m.first); b.u((uint64_t)m.second); }
}
static Job getJob(Rd &r) {
  Job j; j.cas = r.u(); j.budget = r.d();
  string d = r.str(); j.dirs.resize(d.size() / sizeof(JDec)); memcpy((void *)j.dirs.data(), d.data(), d.size());
  size_t n = r.u();
  for (size_t i = 0; i < n; ++i) { uint64_t h = r.u(); int64_t v = (int64_t)r.u(); j.model.push_back({h, v}); }
  return j;
}
static bool sendAll(int fd, const string &s) {
  uint64_t n = s.size();
  string m((char *)&n, 8); m += s;
  size_t o = 0;
  while (o < m.size()) {
    ssize_t k = write(fd, m.data() + o, m.size() - o);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    o += k;
  }
  return true;
}
static bool recvAll(int fd, string &s) {
  auto rd = [&](char *p, size_t n) {
    while (n) {
      ssize_t k = read(fd, p, n);
      if (k < 0 && errno == EINTR) continue;
      if (k <= 0) return false;
      p += k; n -= k;
    }
    return true;
  };
  uint64_t n;
  if (!rd((char *)&n, 8)) return false;
  s.resize(n);
  return n == 0 || rd(&s[0], n);
}

static int sample_cap = 12;
static std::map<int, int> sampleCount;
static uint64_t pathsThisCase;

static void do_job(const Job &j, vector<Job> &outJobs) {
  st.jobs++;
  cur_case = j.cas;
  tr.clear();
  cur.clear();
  solver_reset();
  std::unordered_map<uint64_t, int64_t> pend;
  job_dirs = j.dirs;
  forced_prefix = true;
  // a model refers to variables by hash; unknown ones are declared when met
  static std::unordered_map<uint64_t, int64_t> *pm;
  (void)pm;
  for (auto &m : j.model) {
    auto it = varByHash.find(m.first);
    if (it == varByHash.end()) {
      // placeholder entry, completed when the variable is created
      vars.push_back({m.first, 0, "", INT64_MIN + 1, INT64_MAX});
      varByHash[m.first] = vars.size() - 1;
      it = varByHash.find(m.first);
    }
    if (it->second >= (int)cur.size()) cur.resize(it->second + 1, INT64_MIN);
    cur[it->second] = m.second;
  }
  double t0 = now();
  for (;;) {
    Outcome o = run_path();
    switch (o) {
      case DONE: st.paths++; break;
      case PRUNED: st.pruned++; break;
      case CRASH: report("no-crash", "crash", nullptr); st.violpaths++; break;
      case TIMEOUT: report("terminates", "timeout", nullptr); st.violpaths++; break;
      case MEMORY: report("bounded-memory", "memory", nullptr); st.violpaths++; break;
      case UNCAUGHT: report("no-exception", "exception", nullptr); st.violpaths++; break;
      case DEPTH: st.depthcut++; incomplete("path too long"); break;
      case VIOL: st.violpaths++; break;
      default: break;
    }
    if (path_havoc) st.havoc_paths++;
    if (o == DONE && !path_havoc && !path_novalidate) {
      int &c = sampleCount[cur_case];
      uint64_t h = mix(epoch, seed0);
      if (c < sample_cap && (c == 0 || h % (1 + 7 * c) == 0)) {
        ++c;
        string s;
        for (size_t i = 0; i < vars.size(); ++i)
          if (vars[i].node && N[vars[i].node].epoch == epoch && i < cur.size() && cur[i] != INT64_MIN)
            s += vars[i].name + " " + std::to_string(cur[i]) + "\n";
        char b[64]; snprintf(b, sizeof b, "%d %016llx", cur_case, (unsigned long long)obs);
        sampleOut.push_back({b, s});
      }
    }
    forced_prefix = false;
    if (depth < tr.size()) {
      // the path ended before its prefix was consumed (divergence): abandon this subtree entry
      while (tr.size() > depth) {
        if (tr.back().open) incomplete("alternative lost by divergence");
        if (tr.back().pushed) Z3_solver_pop(ctx, solver, 1);
        tr.pop_back();
      }
    }
    // backtrack
    while (!tr.empty() && !tr.back().open) {
      if (tr.back().pushed) Z3_solver_pop(ctx, solver, 1);
      tr.pop_back();
    }
    if (tr.empty()) return;
    if (now() - t0 > j.budget) {
      // export the open alternatives
      for (size_t i = 0; i < tr.size(); ++i) {
        if (!tr[i].open) continue;
        Job nj;
        nj.cas = j.cas;
        for (size_t k = 0; k <= i; ++k)
          nj.dirs.push_back({(uint8_t)(k == i ? !tr[k].dir : tr[k].dir), tr[k].kind, tr[k].flip, tr[k].ck, N[tr[k].node].hash});
        for (size_t k = 0; k < tr[i].alt.size(); ++k)
          if (tr[i].alt[k] != INT64_MIN) nj.model.push_back({vars[k].hash, tr[i].alt[k]});
        outJobs.push_back(std::move(nj));
      }
      return;
    }
    Dec &d = tr.back();
    if (d.pushed) Z3_solver_pop(ctx, solver, 1);
    d.dir = !d.dir;
    d.open = false;
    cur = std::move(d.alt);
    d.alt.clear();
    if (d.kind == D_BRANCH || d.kind == D_CONC) commit(d);
    job_dirs.clear();
  }
}

static void worker(int fd, char *log) {
  inlog = log;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  arena_end = arena + ARENA;
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
  // the driver's output is of no interest
  if (!freopen("/dev/null", "w", stdout)) {}
  if (!getenv("SYM_DEBUG") && !freopen("/dev/null", "w", stderr)) {}
  sym_native_sections(&secB, &secE);
  secCopy.assign(secB, secE);
  if (&__symrt_fnnames) {
    size_t n = 0;
    for (const char *p = __symrt_fnnames; *p; ++p) n += *p == '\n';
    fnacc.assign(n, 0);
  }
  init_nodes();
  init_z3();
  string msg;
  while (recvAll(fd, msg)) {
    if (msg.empty()) break;
    Rd r(msg);
    Job j = getJob(r);
    st = Stats(); covers.clear(); reasons.clear(); viols.clear(); sampleOut.clear();
    vector<Job> nj;
    do_job(j, nj);
    Buf b;
    b.s.append((const char *)&st, sizeof st);
    auto putm = [&](const std::map<string, uint64_t> &m) {
      b.u(m.size());
      for (auto &x : m) { b.str(x.first); b.u(x.second); }
    };
    putm(covers); putm(reasons);
    b.u(viols.size());
    for (auto &v : viols) {
      b.str(v.id); b.str(v.kind); b.str(v.known); b.u(v.havoc); b.u(v.vals.size());
      for (auto &q : v.vals) { b.str(q.first); b.u((uint64_t)q.second); }
    }
    b.u(sampleOut.size());
    for (auto &s : sampleOut) { b.str(s.first); b.str(s.second); }
    b.u(sites.size());
    for (uint32_t s : sites) b.u(s);
    b.str(string((const char *)fnacc.data(), fnacc.size()));
    b.u(nj.size());
    for (auto &x : nj) putJob(b, x);
    if (!sendAll(fd, b.s)) break;
    if (N.size() > 2000000) {
      Z3_solver_dec_ref(ctx, solver);
      Z3_del_context(ctx);
      init_nodes();
      init_z3();
    }
  }
  _exit(0);
}

static string esc(const string &s) {
  string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else o += c;
  }
  return o;
}

struct CaseRes {
  Stats s; std::map<string, uint64_t> covers, reasons; uint64_t pending = 0; bool selected = false; double t_end = 0;
};

int main(int argc, char **argv) {
  int nw = 8; double tlimit = 60; string out = "result.json", only; int maxviol = 40;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    auto nx = [&] { return string(argv[++i]); };
    if (a == "--workers") nw = stoi(nx());
    else if (a == "--time") tlimit = stod(nx());
    else if (a == "--out") out = nx();
    else if (a == "--cases") only = nx();
    else if (a == "--seed") seed0 = stoul(nx());
    else if (a == "--thorough") tier_thorough = 1;
    else if (a == "--maxviol") maxviol = stoi(nx());
    else if (a == "--samples") sample_cap = stoi(nx());
    else if (a == "--qtimeout") q_timeout = stoi(nx());
    else if (a == "--pathtime") path_alarm_s = stoi(nx());
    else if (a == "--list") {
      for (int c = 0; c < sym_native_ncases(); ++c) printf("%d %d %s\n", c, sym_native_case_tier(c), sym_native_case_name(c));
      return 0;
    }
  }
  int nc = sym_native_ncases();
  vector<CaseRes> cr(nc);
  vector<vector<Job>> qs(nc);  // open jobs per case
  vector<double> used(nc, 0.0);
  size_t qn = 0;
  std::set<int> sel;
  if (!only.empty()) {
    size_t p = 0;
    while (p < only.size()) { size_t e = only.find(',', p); if (e == string::npos) e = only.size(); sel.insert(stoi(only.substr(p, e - p))); p = e + 1; }
  } else
    for (int c = 0; c < nc; ++c) {
      int t = sym_native_case_tier(c);
      if (t == 0 || (t == 1 && tier_thorough) || (t == 2 && !tier_thorough)) sel.insert(c);
    }
  for (int c : sel) { Job j; j.cas = c; qs[c].push_back(j); ++qn; cr[c].selected = true; }
  double t0 = now();
  struct W { pid_t pid; int fd; bool busy; int cas; char *log; double start, given; };
  uint64_t picks = 0;
  vector<W> ws;
  signal(SIGPIPE, SIG_IGN);
  fflush(stdout);
  auto spawn = [&](W &w) {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) fatal("socketpair");
    if (!w.log) w.log = (char *)mmap(nullptr, INLOG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    w.log[0] = 0;
    pid_t p = fork();
    if (p == 0) {
      for (auto &x : ws) if (x.fd > 0) close(x.fd);
      close(sv[0]);
      worker(sv[1], w.log);
    }
    close(sv[1]);
    w.pid = p; w.fd = sv[0]; w.busy = false;
  };
  for (int i = 0; i < nw; ++i) { W w{}; ws.push_back(w); spawn(ws.back()); }
  vector<Violation> allv;
  vector<std::pair<string, string>> allsamples;
  std::map<int, int> samplesPer;
  std::map<string, int> vc;
  std::set<uint64_t> allsites;
  vector<uint8_t> fns;
  int engine_err = 0;
  bool stopped = false;
  std::map<string, int> violKeys;
  for (;;) {
    double t = now() - t0;
    if (t > tlimit && qn) { stopped = true; }
    int busy = 0;
    for (auto &w : ws) {
      if (!w.busy && qn && !stopped && (int)allv.size() < maxviol) {
        // the case served least, one of its open subtrees at random
        int bc = -1;
        for (int c = 0; c < nc; ++c)
          if (!qs[c].empty() && (bc < 0 || used[c] < used[bc])) bc = c;
        size_t pick = (mix(++picks, seed0) >> 8) % qs[bc].size();
        std::swap(qs[bc][pick], qs[bc].back());
        Job j = std::move(qs[bc].back());
        qs[bc].pop_back();
        --qn;
        j.budget = qs[bc].size() < 2u * nw ? 0.04 : 0.5;
        used[bc] += j.budget;
        w.start = t; w.given = j.budget;
        if (t + j.budget > tlimit) j.budget = std::max(0.02, tlimit - t);
        Buf b; putJob(b, j);
        w.cas = j.cas;
        if (!sendAll(w.fd, b.s)) { engine_err++; close(w.fd); waitpid(w.pid, nullptr, 0); spawn(w); continue; }
        w.busy = true;
      }
      busy += w.busy;
    }
    if (!busy) break;
    vector<pollfd> pf;
    for (auto &w : ws) { pollfd p{w.busy ? w.fd : -1, POLLIN, 0}; pf.push_back(p); }
    poll(pf.data(), pf.size(), 200);
    if (now() - t0 > tlimit + 30) {
      for (auto &w : ws) if (w.busy) { kill(w.pid, SIGKILL); cr[w.cas].pending++; w.busy = false; reasons["worker overran the time limit"]++; }
      stopped = true;
      break;
    }
    for (size_t i = 0; i < ws.size(); ++i) {
      if (!ws[i].busy || !(pf[i].revents & (POLLIN | POLLHUP))) continue;
      string msg;
      if (!recvAll(ws[i].fd, msg)) {
        int status = 0;
        close(ws[i].fd);
        waitpid(ws[i].pid, &status, 0);
        fprintf(stderr, "symrt: worker died on case %d (status %x)\n", ws[i].cas, status);
        engine_err++;
        cr[ws[i].cas].pending++;
        if (violKeys["worker"]++ < 12) {
          Violation v; v.id = "no-crash"; v.kind = "worker"; v.havoc = false; v.cas = ws[i].cas;
          ws[i].log[INLOG - 1] = 0;
          char nm[256]; long x; int k;
          for (const char *p = ws[i].log; sscanf(p, "%255s %ld\n%n", nm, &x, &k) == 2; p += k) v.vals.push_back({nm, x});
          allv.push_back(v);
        }
        if (engine_err > 20) { stopped = true; ws[i].busy = false; continue; }
        spawn(ws[i]);
        continue;
      }
      ws[i].busy = false;
      used[ws[i].cas] += now() - t0 - ws[i].start - ws[i].given;
      CaseRes &c = cr[ws[i].cas];
      Stats s;
      memcpy((void *)&s, msg.data(), sizeof s);
      string rest = msg.substr(sizeof s);
      Rd r(rest);
      uint64_t *a = (uint64_t *)&c.s, *b = (uint64_t *)&s;
      uint64_t md = std::max(c.s.maxdepth, s.maxdepth);
      double ss = c.s.solver_s + s.solver_s;
      for (size_t k = 0; k < sizeof(Stats) / 8 - 1; ++k) a[k] += b[k];
      c.s.maxdepth = md; c.s.solver_s = ss;
      auto getm = [&](std::map<string, uint64_t> &m) {
        size_t n = r.u();
        for (size_t k = 0; k < n; ++k) { string x = r.str(); m[x] += r.u(); }
      };
      getm(c.covers); getm(c.reasons);
      size_t nv = r.u();
      for (size_t k = 0; k < nv; ++k) {
        Violation v; v.id = r.str(); v.kind = r.str(); v.known = r.str(); v.havoc = r.u(); v.cas = ws[i].cas;
        size_t m = r.u();
        for (size_t z = 0; z < m; ++z) { string x = r.str(); int64_t y = (int64_t)r.u(); v.vals.push_back({x, y}); }
        if (violKeys[v.id + "|" + v.kind + "|" + v.known]++ < 12) allv.push_back(v);
      }
      size_t ns = r.u();
      for (size_t k = 0; k < ns; ++k) {
        string x = r.str(), y = r.str();
        if (samplesPer[ws[i].cas]++ < sample_cap) allsamples.push_back({x, y});
      }
      size_t nsites = r.u();
      for (size_t k = 0; k < nsites; ++k) allsites.insert(r.u());
      string fa = r.str();
      if (fns.size() < fa.size()) fns.resize(fa.size());
      for (size_t k = 0; k < fa.size(); ++k) fns[k] |= (uint8_t)fa[k];
      size_t nj = r.u();
      for (size_t k = 0; k < nj; ++k) { qs[ws[i].cas].push_back(getJob(r)); ++qn; }
      c.t_end = now() - t0;
    }
  }
  for (int c = 0; c < nc; ++c) cr[c].pending += qs[c].size();
  for (auto &w : ws) { sendAll(w.fd, ""); close(w.fd); }
  for (auto &w : ws) { kill(w.pid, SIGKILL); waitpid(w.pid, nullptr, 0); }
  FILE *f = fopen(out.c_str(), "w");
  if (!f) fatal("output file");
  fprintf(f, "{\"wall_s\": %.3f, \"workers\": %d, \"engine_errors\": %d, \"stopped\": %s, \"cases\": [", now() - t0, nw, engine_err, stopped ? "true" : "false");
  bool first = true;
  for (int c = 0; c < nc; ++c) {
    if (!cr[c].selected) continue;
    Stats &s = cr[c].s;
    fprintf(f, "%s\n {\"case\": %d, \"name\": \"%s\", \"paths\": %lu, \"pruned\": %lu, \"violating_paths\": %lu, \"decisions\": %lu, \"implied\": %lu, \"queries\": %lu, \"sat\": %lu, \"unsat\": %lu, \"unknown\": %lu, \"asserts_symbolic\": %lu, \"asserts_concrete\": %lu, \"assert_unknown\": %lu, \"mismatch\": %lu, \"incomplete\": %lu, \"diverged\": %lu, \"concretized\": %lu, \"havoc_paths\": %lu, \"maxdepth\": %lu, \"unsupported\": %lu, \"depthcut\": %lu, \"solver_s\": %.3f, \"pending\": %lu, \"t_end\": %.2f",
            first ? "" : ",", c, esc(sym_native_case_name(c)).c_str(), s.paths, s.pruned, s.violpaths, s.decisions, s.implied, s.queries, s.sat, s.unsat, s.unknown, s.asserts_sym, s.asserts_conc, s.assert_unknown, s.mismatch, s.incomplete, s.diverged, s.conc, s.havoc_paths, s.maxdepth, s.unsupported, s.depthcut, s.solver_s, cr[c].pending, cr[c].t_end);
    auto pm = [&](const char *n, std::map<string, uint64_t> &m) {
      fprintf(f, ", \"%s\": {", n);
      bool ff = true;
      for (auto &x : m) { fprintf(f, "%s\"%s\": %lu", ff ? "" : ", ", esc(x.first).c_str(), x.second); ff = false; }
      fprintf(f, "}");
    };
    pm("covers", cr[c].covers); pm("reasons", cr[c].reasons);
    fprintf(f, "}");
    first = false;
  }
  fprintf(f, "],\n\"violations\": [");
  first = true;
  for (auto &v : allv) {
    fprintf(f, "%s\n {\"id\": \"%s\", \"kind\": \"%s\", \"known\": \"%s\", \"case\": %d, \"havoc\": %s, \"values\": {", first ? "" : ",", esc(v.id).c_str(), v.kind.c_str(), esc(v.known).c_str(), v.cas, v.havoc ? "true" : "false");
    bool ff = true;
    for (auto &x : v.vals) { fprintf(f, "%s\"%s\": %ld", ff ? "" : ", ", esc(x.first).c_str(), x.second); ff = false; }
    fprintf(f, "}}");
    first = false;
  }
  fprintf(f, "],\n\"samples\": [");
  first = true;
  for (auto &s : allsamples) { fprintf(f, "%s\n [\"%s\", \"%s\"]", first ? "" : ",", s.first.c_str(), esc(s.second).c_str()); first = false; }
  fprintf(f, "],\n\"branch_sites\": %zu,\n\"functions\": [", allsites.size());
  first = true;
  if (&__symrt_fnnames) {
    std::set<string> names;
    const char *p = __symrt_fnnames;
    for (size_t i = 0; i < fns.size() && *p; ++i) {
      const char *e = strchr(p, '\n');
      if (fns[i]) names.insert(string(p, e));
      p = e + 1;
    }
    for (auto &n : names) { fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(n).c_str()); first = false; }
  }
  fprintf(f, "]}\n");
  fclose(f);
  return 0;
}
