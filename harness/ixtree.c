// the index of a ring or line is the exact tree of bounding boxes its accessors describe: spread, levels, rectangles per level, every rectangle;
// the settings (default index, spread) decide whether there is one and change nothing else. All vertices symbolic.
#include "tg.h"
#include "ref.h"
#ifndef NB
#define NB 12
#endif
#ifndef BITS
#define BITS 3
#endif
#ifdef CONVEX // a convex polygon with one vertex anywhere
static const ip CV[] = { { 2, 0 }, { 4, 0 }, { 6, 1 }, { 7, 3 }, { 7, 4 }, { 6, 6 }, { 4, 7 }, { 3, 7 }, { 1, 6 }, { 0, 4 }, { 0, 3 }, { 1, 1 } };
static int vi;
#define SYM(i) ((i) == vi)
#define Z(i) CV[(i) % 12]
#else // turns both ways at the start, the rest anywhere
#define SYM(i) (eff != TG_YSTRIPES && (i) > 3)
#define Z(i) (ip){ (i) * 5 % 7, (i) * 3 % 8 }
#endif
// rectangles are kept as floats rounded outwards
static int lo(double v, int k) { return (v <= k) & (v >= k - 1e-5); }
static int hi(double v, int k) { return (v >= k) & (v <= k + 1e-5); }
static int same(struct tg_rect r, int x0, int y0, int x1, int y1) { return lo(r.min.x, x0) & lo(r.min.y, y0) & hi(r.max.x, x1) & hi(r.max.y, y1); }
static void tree(const struct tg_ring *g, const ip *p, int n, int indexed) { // n segments
    int s = SPR; const struct tg_line *l = (const struct tg_line *)g; sx_assert(tg_ring_index_spread(g) == (indexed ? s : 0) && tg_line_index_spread(l) == tg_ring_index_spread(g), "spread");
    int w[16], nl = 0; for (long k = s; indexed && k < n; k *= s) w[nl++] = (int)k; // segments under a rectangle, leaves first
    sx_assert(tg_ring_index_num_levels(g) == nl && tg_line_index_num_levels(l) == nl, "levels");
    for (int i = 0; i < nl; i++) { int k = w[nl - 1 - i], m = (n + k - 1) / k; sx_assert(tg_ring_index_level_num_rects(g, i) == m && tg_line_index_level_num_rects(l, i) == m, "rectangles of a level");
        for (int j = 0; j < m; j++) { int x0 = p[j * k].x, x1 = x0, y0 = p[j * k].y, y1 = y0; for (int t = j * k; t <= n && t <= j * k + k; t++) { x0 = p[t].x < x0 ? p[t].x : x0; x1 = p[t].x > x1 ? p[t].x : x1; y0 = p[t].y < y0 ? p[t].y : y0; y1 = p[t].y > y1 ? p[t].y : y1; }
            sx_assert(same(tg_ring_index_level_rect(g, i, j), x0, y0, x1, y1), "rectangle is the box of its segments"); sx_assert(same(tg_line_index_level_rect(l, i, j), x0, y0, x1, y1), "line rectangle"); }
        sx_assert(same(tg_ring_index_level_rect(g, i, m), 0, 0, 0, 0) && same(tg_ring_index_level_rect(g, i, -1), 0, 0, 0, 0), "no such rectangle"); }
    sx_assert(tg_ring_index_level_num_rects(g, nl) == 0 && tg_ring_index_level_num_rects(g, -1) == 0 && same(tg_ring_index_level_rect(g, nl, 0), 0, 0, 0, 0), "no such level"); if (nl) sx_reach("tree"); if (nl > 1) sx_reach("deep"); }
void harness(void) {
    static const enum tg_index IX[] = { TG_DEFAULT, TG_NONE, TG_NATURAL, TG_YSTRIPES }; int ixi = sx_choose(4, "index"), def = sx_choose(4, "default"), bad = sx_choose(2, "bad"); enum tg_index eff = ixi ? IX[ixi] : def ? IX[def] : TG_NATURAL;
    tg_env_set_index(IX[def]); tg_env_set_index_spread(SPR); if (bad) { tg_env_set_index_spread(1); tg_env_set_index_spread(0); tg_env_set_index_spread(4097); tg_env_set_index(TG_DEFAULT); }
    ip p[NB + 1]; struct tg_point q[NB + 1]; int n = sx_choose(3, "n") ? NB : 4;
#ifdef CONVEX
    vi = sx_choose(12, "vertex");
#endif
    for (int i = 0; i < n; i++) p[i] = SYM(i) ? sym_ip(BITS, "v") : Z(i); p[n - 1] = p[0]; for (int i = 0; i < n; i++) q[i] = P(p[i]);
    struct tg_ring *g = tg_ring_new_ix(q, n, IX[ixi]); tree(g, p, n - 1, eff != TG_NONE && n >= 2 * SPR);
    struct tg_line *l = tg_line_new_ix(q, n, IX[ixi]); tree((const struct tg_ring *)l, p, n - 1, eff != TG_NONE && n >= 2 * SPR);
    if (ixi == 0) { struct tg_ring *h = tg_ring_new(q, n); tree(h, p, n - 1, eff != TG_NONE && n >= 2 * SPR); struct tg_line *k = tg_line_new(q, n); tree((const struct tg_ring *)k, p, n - 1, eff != TG_NONE && n >= 2 * SPR); tg_ring_free(h); tg_line_free(k); }
    struct tg_ring *c = tg_ring_copy(g); struct tg_ring *e = tg_ring_clone(g); tg_ring_free(g); tree(c, p, n - 1, eff != TG_NONE && n >= 2 * SPR); tree(e, p, n - 1, eff != TG_NONE && n >= 2 * SPR); 
    tg_ring_free(c); tg_ring_free(e); tg_line_free(l); sx_assert(sx_live() == 0, "leak"); sx_reach("end");
}
