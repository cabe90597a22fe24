// Interface between a driver (harness/*.cpp) and the symbolic runtime or, when
// compiled with -DSYM_NATIVE, the plain replay runtime (engine/native.h).
#ifndef SYMAPI_H
#define SYMAPI_H
#include <cstdint>

extern "C" {
// Symbolic inputs. Floating-point inputs take integer values in [lo, hi].
int64_t sym_i64(const char *name, int idx, int64_t lo, int64_t hi);
int sym_i32(const char *name, int idx, int lo, int hi);
bool sym_bool(const char *name, int idx);
double sym_f64(const char *name, int idx, int lo, int hi);
// Path control
void sym_assume(bool c);
void sym_assert(bool c, const char *id);
void sym_cover(const char *label);
// Makes a value concrete: all its feasible values are explored
int64_t sym_concrete(int64_t v);
// Observable result, compared with the plain build
void sym_observe(uint64_t v);
void sym_observe_f(double v);
// Arithmetic mode: 0 = products and quotients of symbolic values are unconstrained
// values, 1 = exact real arithmetic
void sym_mode(int exact);
// Marks the current path as matching a listed finding
void sym_known(const char *id);
// 1 when VERIF_TIER=thorough
int sym_tier();
// Keep the path from being compared with the plain build
void sym_novalidate();
// true if the value depends on symbolic inputs
bool sym_is_symbolic_f(double v);
}

// Provided by the driver
extern "C" int sym_native_ncases();
extern "C" const char *sym_native_case_name(int c);
extern "C" int sym_native_case_tier(int c);  // 0: quick and thorough, 1: thorough only, 2: quick only
extern "C" void harness_main(int c);

#ifndef SYM_NATIVE
extern "C" {
extern char __data_start[];
extern char _end[];
__attribute__((weak)) void sym_native_sections(char **b, char **e) { *b = __data_start; *e = _end; }
}
#endif
#endif
