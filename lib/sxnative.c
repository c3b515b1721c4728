// Native replay runtime: feeds one solver assignment to the harness. Exit codes:
// 0 harness finished, 10 assertion failed, 11 assumption false, 12 input mismatch. Sanitizers use 66.
#include "sx.h"
#include <stdio.h>
#include <unistd.h>
void harness(void);
static FILE *in; static int budget; static int64_t live; static int trace;
static uint64_t next(const char *name, int n) { char nm[128]; int w; unsigned long long v;
    if (!in || fscanf(in, " in %127s %d %llu", nm, &w, &v) != 3) { 
        if (getenv("SX_DEFAULT0")) return 0;
        fprintf(stderr, "sx: no input left for %s\n", name); fflush(stdout); _exit(12); }
    if (strcmp(nm, name) || w != n) { fprintf(stderr, "sx: input mismatch: want %s/%d got %s/%d\n", name, n, nm, w); _exit(12); }
    return v; }
uint64_t sx_bits(int n, const char *name) { return next(name, n); }
void sx_assume(int c) { if (!c) { fprintf(stderr, "sx: assumption false\n"); fflush(stdout); _exit(11); } }
void sx_assert_(int c, const char *m) { if (!c) { printf("SX-ASSERT-FAILED %s\n", m); fflush(stdout); _exit(10); } }
void sx_reach(const char *l) { (void)l; }
void sx_observe(uint64_t v) { if (trace) printf("obs %llu\n", (unsigned long long)v); }
void sx_observe_d(double d) { uint64_t v; memcpy(&v, &d, 8); if (trace) printf("obs %llu\n", (unsigned long long)v); }
int64_t sx_live(void) { return live; }
int sx_symbolic(void) { return 0; }
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_fault(int b) { budget = b; }
void sx_nomerge(int off) { (void)off; }
static int fails(void) { if (budget <= 0) return 0; if (next("allocfail", 1)) { budget--; return 1; } return 0; }
void *sx_malloc(size_t n) { if (fails() || n > (256u << 20)) return 0; void *p = malloc(n); if (p) live++; return p; }
void *sx_calloc(size_t a, size_t b) { if (fails() || a * b > (256u << 20)) return 0; void *p = calloc(a, b); if (p) live++; return p; }
void *sx_realloc(void *o, size_t n) { if (fails() || n > (256u << 20)) return 0; 
    // always move, as the symbolic heap does
    void *p = realloc(o, n); if (!o && p) live++; return p; }
void sx_free(void *p) { if (p) live--; free(p); }
int main(int argc, char **argv) { setvbuf(stdout, 0, _IOFBF, 1 << 16); trace = getenv("SX_TRACE") != 0;
    if (argc > 1) { in = fopen(argv[1], "r"); if (!in) return 3; char line[4096]; long pos = 0;
        while (fgets(line, sizeof line, in)) { if (!strncmp(line, "in ", 3)) { fseek(in, pos, SEEK_SET); break; } pos = ftell(in); } }
    harness(); printf("SX-DONE\n"); fflush(stdout); return 0; }
