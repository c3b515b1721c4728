// nearest segment iteration: every segment exactly once, in order of the caller's distance, whatever the index, also when the caller
// refines its distances step by step (more); a memory failure is reported. The target point is symbolic.
#include "tg.h"
#include "ref.h"
#ifndef IX
#define IX TG_NATURAL
#endif
#ifndef NB
#define NB 9
#endif
#ifndef TB
#define TB 3
#endif
#ifndef MORE
#define MORE 0
#endif
static struct tg_point t; static double last; static int cnt, seen[NB], limit, calls[NB]; static struct tg_point q[NB];
static double rd(struct tg_rect r, int *more, void *u) {
    sx_assert(u == seen, "user data of rect_dist"); double dx = t.x < r.min.x ? r.min.x - t.x : t.x > r.max.x ? t.x - r.max.x : 0, dy = t.y < r.min.y ? r.min.y - t.y : t.y > r.max.y ? t.y - r.max.y : 0;
    if (MORE) { if (*more == 0) { *more = 1; return 0; } sx_assert(*more == 1, "more is handed back"); *more = 0; }
    return dx + dy; }
static double ends(struct tg_segment s) { double a = (t.x > s.a.x ? t.x - s.a.x : s.a.x - t.x) + (t.y > s.a.y ? t.y - s.a.y : s.a.y - t.y), b = (t.x > s.b.x ? t.x - s.b.x : s.b.x - t.x) + (t.y > s.b.y ? t.y - s.b.y : s.b.y - t.y); return a < b ? a : b; }
static double sd(struct tg_segment s, int *more, void *u) { // Manhattan distance to the nearer end: never below rd of the segment's box
    sx_assert(u == seen, "user data of seg_dist"); double d = ends(s); int i = (int)s.a.x * 7 & 3; // some segments take 1, some 2 or 3 steps
    if (MORE && i) { if (*more < i) { ++*more; return (double)((int)d >> (i - *more + 1)); } *more = 0; } return d; }
static bool it(struct tg_segment s, double d, int i, void *u) { sx_assert(u == seen, "user data"); sx_assert(i >= 0 && i < NB - 1, "index"); sx_assert(s.a.x == q[i].x && s.a.y == q[i].y && s.b.x == q[i + 1].x && s.b.y == q[i + 1].y, "segment i"); sx_assert(d == ends(s), "the distance handed over"); sx_assert(d >= last, "in order of distance"); last = d; seen[i]++; cnt++; return cnt != limit; }
void harness(void) {
    SPREAD();
    for (int i = 0; i < NB - 1; i++) { q[i].x = i < NB / 2 ? i : NB - i; q[i].y = i < NB / 2 ? (i * 5) % 3 : 6 + (i * 7) % 4; } q[NB - 1] = q[0];
#ifdef SYMV
    q[SYMV].x = sx_int(TB, "vx"); q[SYMV].y = sx_int(TB, "vy");
#endif
    t.x = sx_int(TB, "tx"); t.y = sx_int(TB, "ty"); limit = sx_choose(2, "all") ? 100000 : 3; int ring = sx_choose(2, "ring"); last = -1;
    struct tg_ring *r = ring ? tg_ring_new_ix(q, NB, IX) : 0; struct tg_line *l = ring ? 0 : tg_line_new_ix(q, NB, IX); sx_assert(r || l, "built");
#ifdef FAULT
    sx_fault(1);
#endif
    bool ok = ring ? tg_ring_nearest_segment(r, rd, sd, it, seen) : tg_line_nearest_segment(l, rd, sd, it, seen);
#ifdef FAULT
    sx_fault(0); if (!ok) sx_reach("oom");
#else
    sx_assert(ok, "memory sufficed");
#endif
    if (ok) { if (limit == 3) sx_assert(cnt == 3, "stops when told"); else { sx_assert(cnt == NB - 1, "all segments"); for (int i = 0; i < NB - 1; i++) sx_assert(seen[i] == 1, "each segment once"); } }
    sx_observe(cnt); tg_ring_free(r); tg_line_free(l); sx_assert(sx_live() == 0, "leak"); sx_reach("end");
}
