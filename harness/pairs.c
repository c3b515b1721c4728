// segment-pair searches between lines and rings report exactly the pairs of segments that share a point, for every index kind.
// A is concrete, one vertex of B (or of A, with SYMA) and the origin of B are symbolic
#include "tg.h"
#ifndef SPA
#define SPA 2
#endif
#ifndef SPB
#define SPB SPA
#endif
static int sp;
#define SP sp
#include "ref.h"
#ifndef IX
#define IX TG_NATURAL
#endif
#ifndef IXB
#define IXB IX
#endif
#ifndef NB
#define NB 40
#endif
#ifndef NQ
#define NQ 4
#endif
#ifndef BITS
#define BITS 3
#endif
#ifndef LIMIT
#define LIMIT 0
#endif
#ifdef SCALE // exact powers of two beyond the range of floats
#define P(p) ((struct tg_point){ (p).x * SCALE, (p).y * SCALE })
static struct tg_ring *mkr(const ip *r, int n, int ix, int ring) { SPREAD(); struct tg_point q[64]; for (int i = 0; i < n; i++) q[i] = P(r[i]); return ring ? tg_ring_new_ix(q, n, ix) : (struct tg_ring *)tg_line_new_ix(q, n, ix); }
#define mk_ring(r, n, ix) mkr(r, n, ix, 1)
#define mk_line(r, n, ix) (struct tg_line *)mkr(r, n, ix, 0)
#else
#define SCALE 1
#endif
static unsigned char seen[NB][NQ]; static ip A[NB], B[NQ]; static int total;
static bool it(struct tg_segment a, int i, struct tg_segment b, int j, void *u) {
    sx_assert(u == seen, "user data"); sx_assert((i >= 0) & (i < NB - 1) & (j >= 0) & (j < NQ - 1), "indexes");
    sx_assert((a.a.x == A[i].x * SCALE) & (a.a.y == A[i].y * SCALE) & (a.b.x == A[i + 1].x * SCALE) & (a.b.y == A[i + 1].y * SCALE), "segment of a"); sx_assert((b.a.x == B[j].x * SCALE) & (b.a.y == B[j].y * SCALE) & (b.b.x == B[j + 1].x * SCALE) & (b.b.y == B[j + 1].y * SCALE), "segment of b");
    seen[i][j]++; return ++total != LIMIT; }
void harness(void) {
    for (int i = 0; i < NB - 1; i++) { A[i].x = i < NB / 2 ? i : NB - i; A[i].y = i < NB / 2 ? (i * 5) % 3 : 6 + (i * 7) % 4; } A[NB - 1] = A[0];
    int mode = sx_choose(3, "mode"); // line-line, ring-line, ring-ring
    ip o = { sx_choose(NB / 2, "ox") * 2, sx_choose(2, "oy") * 4 }; B[0] = o; B[1].x = o.x + sx_int(BITS, "x1"); B[1].y = o.y + sx_int(BITS, "y1");
    for (int j = 2; j < NQ - 1; j++) B[j] = (ip){ o.x + 3 - (j * j) % 5, o.y + j - 1 }; B[NQ - 1] = mode == 2 ? B[0] : (ip){ o.x, o.y + 5 };
    sp = SPA; struct tg_ring *ra = mode ? mk_ring(A, NB, IX) : 0; struct tg_line *la = mode ? 0 : mk_line(A, NB, IX);
    sp = SPB; struct tg_ring *rb = mode == 2 ? mk_ring(B, NQ, IXB) : 0; struct tg_line *lb = mode == 2 ? 0 : mk_line(B, NQ, IXB);
    if (mode == 0) tg_line_line_search(la, lb, it, seen); else if (mode == 1) tg_ring_line_search(ra, lb, it, seen); else tg_ring_ring_search(ra, rb, it, seen);
    int n = 0, ok = 1; for (int i = 0; i < NB - 1; i++) for (int j = 0; j < NQ - 1; j++) { int w = ref_isect(A[i], A[i + 1], B[j], B[j + 1]); ok &= LIMIT ? seen[i][j] <= w : seen[i][j] == w; n += w; }
    sx_assert(ok, "a pair is reported once iff the segments meet"); if (LIMIT) sx_assert(total == (n < LIMIT ? n : LIMIT), "stops when told");
    if (total) sx_reach("meet"); else sx_reach("none");
    tg_ring_free(ra); tg_ring_free(rb); tg_line_free(la); tg_line_free(lb); sx_assert(sx_live() == 0, "leak");
}
