// Replay runtime: the driver compiled without instrumentation. Reads input values
// from a file ("name value" per line), prints failed assertions.
#ifndef NATIVE_H
#define NATIVE_H
#ifdef SYM_NATIVE
#include <cmath>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
#include "symapi.h"
namespace native {
inline std::map<std::string, int64_t> vals;
inline uint64_t obs = 1234567;
inline int fails = 0;
inline bool verbose = false;
inline int tier = 0;
inline uint64_t rnd_state = 0;  // != 0: values missing from the file are drawn at random
inline bool redraw_f = false;  // draw all floating-point inputs again
inline std::map<std::string, int64_t> drawn;
inline std::string known;
inline FILE *out = nullptr;
inline uint64_t rnd() {
  rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17;
  return rnd_state;
}
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
inline int64_t get(const char *n, int i, int64_t lo, int64_t hi, bool fp) {
  std::string k = std::string(n) + "[" + std::to_string(i) + "]";
  if (lo == hi) return lo;
  auto d = drawn.find(k);
  if (d != drawn.end()) return d->second;
  auto it = vals.find(k);
  int64_t v;
  if (it == vals.end() || (redraw_f && fp)) {
    v = lo;
    if (rnd_state) {
      // mixture of scales, to reach ties as well as spread values
      uint64_t span = (uint64_t)(hi - lo) + 1;
      uint64_t m = rnd() % 3;
      if (m == 0 && span > 4) span = 4;
      if (m == 1 && span > 20) span = 20;
      v = lo + (int64_t)(rnd() % span);
    }
  } else v = it->second;
  drawn[k] = v;
  return v;
}
}  // namespace native
extern "C" {
inline int64_t sym_i64(const char *n, int i, int64_t lo, int64_t hi) { return native::get(n, i, lo, hi, false); }
inline int sym_i32(const char *n, int i, int lo, int hi) { return (int)native::get(n, i, lo, hi, false); }
inline bool sym_bool(const char *n, int i) { return native::get(n, i, 0, 1, false) != 0; }
inline double sym_f64(const char *n, int i, int lo, int hi) { return (double)native::get(n, i, lo, hi, true); }
inline void sym_assume(bool c) { if (!c) { fprintf(native::out, "ASSUMPTION-FALSE\n"); fflush(native::out); _exit(20); } }
inline void sym_assert(bool c, const char *id) {
  if (!c) { fprintf(native::out, "ASSERT-FAIL %s\n", id); fflush(native::out); _exit(10); }
}
inline void sym_cover(const char *) {}
inline int64_t sym_concrete(int64_t v) { return v; }
inline void sym_observe(uint64_t v) { native::obs = native::mix(native::obs, v); }
inline void sym_observe_f(double v) { if (v == 0) v = 0.0; uint64_t b; memcpy(&b, &v, 8); native::obs = native::mix(native::obs, b); }
inline void sym_mode(int) {}
inline void sym_known(const char *k) { native::known = k; }
inline int sym_tier() { return native::tier; }
inline void sym_novalidate() {}
inline bool sym_is_symbolic_f(double) { return false; }
}
int main(int argc, char **argv) {
  // replay <case> <values file> [tier] [seed [redraw]]
  native::out = fdopen(dup(1), "w");
  if (argc < 3) { for (int c = 0; c < sym_native_ncases(); ++c) fprintf(native::out, "%d %s\n", c, sym_native_case_name(c)); return 2; }
  FILE *f = fopen(argv[2], "r");
  if (!f) return 2;
  char nm[256]; long long v;
  while (fscanf(f, "%255s %lld", nm, &v) == 2) native::vals[nm] = v;
  fclose(f);
  if (argc > 3) native::tier = atoi(argv[3]);
  if (argc > 4) { native::rnd_state = strtoull(argv[4], nullptr, 10) * 2654435761u + 88172645463325252ull; native::redraw_f = argc > 5 && atoi(argv[5]); }
  alarm(20);
  try { harness_main(atoi(argv[1])); }
  catch (...) { fprintf(native::out, "UNCAUGHT-EXCEPTION\n"); fflush(native::out); _exit(11); }
  fprintf(native::out, "OK %016llx%s%s\n", (unsigned long long)native::obs, native::known.empty() ? "" : " known ", native::known.c_str());
  if (getenv("SHOW_VALUES")) for (auto &p : native::drawn) fprintf(native::out, "%s %lld\n", p.first.c_str(), (long long)p.second);
  fflush(native::out);
  _exit(0);
}
#endif
#endif
