// a symbolic point (half-integer grid) against a concrete ring of NB vertices with one symbolic vertex, every index kind
#include "tg.h"
#include "ref.h"
#ifndef IX
#define IX TG_NATURAL
#endif
#ifndef NB
#define NB 40
#endif
#ifndef PB
#define PB 6
#endif
// comb: teeth of different heights; the last vertices close along the bottom; coordinates doubled (half grid)
static int shape(ip *r) {
    int n = 0; r[n].x = 0; r[n++].y = 0;
    while (n < NB - 1) { int k = n / 2; r[n].x = 2 + 2 * k * (PB > 6 ? 2 : 1); r[n].y = (k * 7) % 5 * 2 + 12; n++; if (n < NB - 1) { r[n].x = 4 + 2 * k * (PB > 6 ? 2 : 1); r[n].y = (k * 5) % 4 * 2 + 2; n++; } }
    r[n].x = r[n - 1].x + 2; r[n].y = 0; n++;
    return n; }
void harness(void) {
    ip r[NB + 2]; int n = shape(r);
#ifdef SYMV
    { int i = SYMV; r[i].y = 1 + 2 * sx_choose(12, "vy"); r[i].x += sx_choose(3, "vx") - 1; }
#endif
#ifdef REV
    for (int i = 0; i < n / 2; i++) { ip t = r[i]; r[i] = r[n - 1 - i]; r[n - 1 - i] = t; }
#endif
    r[n] = r[0]; n++;
    ip p = { sx_int(PB, "px") - 1, sx_int(5, "py") - 1 };
    struct tg_point q[NB + 2]; for (int i = 0; i < n; i++) { q[i].x = r[i].x * 0.5; q[i].y = r[i].y * 0.5; }
    struct tg_ring *ring = tg_ring_new_ix(q, n, IX); sx_assert(ring != 0, "ring");
    struct tg_geom *pg = tg_geom_new_polygon((struct tg_poly *)ring), *pt = tg_geom_new_point((struct tg_point){ p.x * 0.5, p.y * 0.5 });
    int want = ref_pip(r, n, p);
    sx_assert(tg_geom_intersects(pg, pt) == (want != 0), "intersects");
    sx_assert(tg_geom_covers(pg, pt) == (want != 0), "covers");
    sx_assert(tg_geom_contains(pg, pt) == (want == 1), "contains");
    sx_assert(tg_geom_intersects_xy(pg, p.x * 0.5, p.y * 0.5) == (want != 0), "intersects_xy");
    sx_reach("end");
    tg_geom_free(pg); tg_geom_free(pt); tg_ring_free(ring);
    sx_assert(sx_live() == 0, "leak");
}
