// constructors under allocation failure, plain and indexed
#define CO 2
#include "cat.h"
#ifndef B
#define B 1
#endif
// the constructors above assert success, so use direct ones here
static G *mk(int k) {
    struct tg_point p[40]; for (int i = 0; i < 40; i++) { p[i].x = i < 20 ? i : 40 - i; p[i].y = i < 20 ? (i & 1) : 5 + (i & 1); } p[39] = p[0];
    double e[240] = { 0 }; G *g = 0; int big = k & 1, n = big ? 40 : 4; enum tg_index ix = k & 2 ? TG_YSTRIPES : TG_NATURAL; if (!big) p[3] = p[0];
    struct tg_ring *r = tg_ring_new_ix(p, n, ix), *h = tg_ring_new_ix(p, n, TG_NONE); struct tg_line *l = tg_line_new_ix(p, n, ix);
    const struct tg_ring *hs[2] = { h, h }; const struct tg_line *ls[2] = { l, l }; struct tg_poly *y = tg_poly_new(r, hs, 2); const struct tg_poly *ys[2] = { y, y };
    switch (k >> 2) {
    case 0: if (l) g = tg_geom_new_linestring_zm(l, e, 2 * n); break;
    case 1: if (y) g = tg_geom_new_polygon_z(y, e, 3 * n); break;
    case 2: g = tg_geom_new_multipoint_m(p, n, e, n); break;
    case 3: if (l) g = tg_geom_new_multilinestring_z(ls, 2, e, 2 * n); break;
    case 4: if (y) g = tg_geom_new_multipolygon(ys, 2); break;
    case 5: { G *a = tg_geom_new_point(p[0]), *b = tg_geom_new_point_zm(p[0], 1, 2), *c = l ? tg_geom_new_linestring(l) : 0; const G *gs[3] = { a, b, c }; if (a && b && c) g = tg_geom_new_geometrycollection(gs, 3); tg_geom_free(a); tg_geom_free(b); tg_geom_free(c); break; }
    case 6: { struct tg_ring *c = tg_ring_copy(r); struct tg_poly *d = tg_poly_copy(y); struct tg_line *m = tg_line_copy(l); if (c && tg_ring_num_points(c) != n) sx_assert(0, "copied ring"); if (d) g = tg_geom_new_polygon(d); tg_ring_free(c); tg_poly_free(d); tg_line_free(m); break; }
    case 7: { G *a = y ? tg_geom_new_multipolygon(ys, 2) : 0, *b = tg_geom_copy(a); if (b) sx_assert(deep_eq(a, b), "copied multipolygon"); g = tg_geom_new_error("message"); tg_geom_free(a); tg_geom_free(b); break; } }
    tg_poly_free(y); tg_ring_free(r); tg_ring_free(h); tg_line_free(l); return g; }
void harness(void) {
    int k = sx_choose(32, "kind");
    sx_fault(B); G *g = mk(k); sx_fault(0);
    if (g) { sx_reach("ok"); observe(g); G *c = tg_geom_copy(g); sx_assert(c && deep_eq(c, g), "what was built is whole"); tg_geom_free(c); } else { sx_reach("null"); sx_observe(99); }
    tg_geom_free(g); sx_assert(sx_live() == 0, "nothing leaked when an allocation failed");
}
