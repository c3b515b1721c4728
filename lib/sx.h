// Harness interface. The same harness is compiled to LLVM bitcode (executed symbolically by symx)
// and natively (replay of one solver assignment, with sanitizers).
#ifndef SX_H
#define SX_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
uint64_t sx_bits(int nbits, const char *name);    // fresh symbolic value of nbits bits
void sx_assume(int cond);
void sx_assert_(int cond, const char *msg);
void sx_reach(const char *label);                  // reachability witness (vacuity guard)
void sx_observe(uint64_t v);                       // recorded; engine and native run must agree
void sx_observe_d(double v);
int64_t sx_live(void);                             // live heap allocations
int sx_symbolic(void);
uint64_t sx_concretize(uint64_t v);                // fork over all values
void sx_fault(int budget);                         // up to budget allocations may fail from now on
void sx_nomerge(int off);
#define sx_assert(c, m) sx_assert_((c) ? 1 : 0, (m))
static inline int sx_int(int nbits, const char *name) { return (int)sx_bits(nbits, name); }
static inline int sx_range(int n, const char *name) { // 0..n-1
    int b = 1; while ((1 << b) < n) b++;
    int v = (int)sx_bits(b, name); if ((1 << b) != n) sx_assume(v < n); return v; }
static inline int sx_choose(int n, const char *name) { return (int)sx_concretize((uint64_t)sx_range(n, name)); }
static inline double sx_grid(int nbits, const char *name) { return (double)(int)sx_bits(nbits, name); }
static inline double sx_double(const char *name) { uint64_t b = sx_bits(64, name); double d; memcpy(&d, &b, 8); return d; }
#endif
