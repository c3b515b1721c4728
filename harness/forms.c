// predicates see nothing but the X/Y positions: Z and M, features, foreign members, direction, starting vertex, order of parts and indexes change no answer
#include "tg.h"
#include "ref.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#ifndef ALO
#define ALO 0
#define AHI 9
#endif
#ifndef BITS
#define BITS 3
#endif
typedef struct tg_geom G;
enum { F_PLAIN, F_Z, F_M, F_ZM, F_REV, F_ROT, F_ORDER, F_IX, F_FEATURE, F_EXTRA, F_COPY, F_WKB, F_N };
static ip sh; static int form; static double ex[64];
static struct tg_point V(ip p) { return P((ip){ p.x + sh.x, p.y + sh.y }); }
static int pts(const ip *p, int n, int ring, struct tg_point *q) { for (int i = 0; i < n; i++) { int k = form == F_REV ? n - 1 - i : form == F_ROT && ring ? (i + 2) % (n - 1) : i; q[i] = V(p[k]); } return n; }
static enum tg_index ix(void) { if (form == F_IX) { tg_env_set_index_spread(2); return TG_NATURAL; } return TG_NONE; }
static struct tg_line *line(const ip *p, int n) { struct tg_point q[16]; return tg_line_new_ix(q, pts(p, n, 0, q), ix()); }
static struct tg_ring *ring(const ip *p, int n) { struct tg_point q[16]; return tg_ring_new_ix(q, pts(p, n, 1, q), ix()); }
static struct tg_poly *poly(const ip *p, int n, const ip *h, int m) { struct tg_ring *r = ring(p, n), *k = m ? ring(h, m) : 0; struct tg_poly *y = tg_poly_new(r, (const struct tg_ring *const *)&k, m ? 1 : 0); tg_ring_free(r); tg_ring_free(k); return y; }
static const ip LN[] = { { 0, 0 }, { 2, 2 }, { 4, 0 } }, U[] = { { 0, 0 }, { 4, 0 }, { 4, 4 }, { 2, 2 }, { 0, 4 }, { 0, 0 } }, O[] = { { 0, 0 }, { 5, 0 }, { 5, 5 }, { 0, 5 }, { 0, 0 } }, H[] = { { 1, 1 }, { 4, 1 }, { 4, 4 }, { 1, 4 }, { 1, 1 } }, B[] = { { 0, 0 }, { 2, 0 }, { 2, 2 }, { 0, 2 }, { 0, 0 } }, B2[] = { { 3, 0 }, { 4, 0 }, { 4, 3 }, { 3, 3 }, { 3, 0 } }, LN2[] = { { 0, 3 }, { 4, 3 } };
static G *part(int k) { // one of the parts of a multi geometry
    struct tg_line *l; struct tg_poly *y; G *g;
    switch (k) { case 0: return tg_geom_new_point(V((ip){ 6, 1 })); case 1: l = line(LN2, 2); g = tg_geom_new_linestring(l); tg_line_free(l); return g; default: y = poly(B, 5, 0, 0); g = tg_geom_new_polygon(y); tg_poly_free(y); return g; } }
#define BY(n, cnt, ...) (form == F_Z ? tg_geom_new_##n##_z(__VA_ARGS__, ex, cnt) : form == F_M ? tg_geom_new_##n##_m(__VA_ARGS__, ex, cnt) : form == F_ZM ? tg_geom_new_##n##_zm(__VA_ARGS__, ex, 2 * (cnt)) : tg_geom_new_##n(__VA_ARGS__))
static G *build(int k) {
    G *g = 0; struct tg_point p[4]; struct tg_line *l, *l2; struct tg_poly *y, *y2; int o = form == F_ORDER;
    switch (k) {
    case 0: p[0] = V((ip){ 1, 1 }); return form == F_Z ? tg_geom_new_point_z(p[0], 3) : form == F_M ? tg_geom_new_point_m(p[0], 3) : form == F_ZM ? tg_geom_new_point_zm(p[0], 3, 4) : tg_geom_new_point(p[0]);
    case 1: l = line(LN, 3); g = BY(linestring, 3, l); tg_line_free(l); return g;
    case 2: y = poly(U, 6, 0, 0); g = BY(polygon, 6, y); tg_poly_free(y); return g;
    case 3: y = poly(O, 5, H, 5); g = BY(polygon, 10, y); tg_poly_free(y); return g;
    case 4: y = poly(B, 5, 0, 0); g = BY(polygon, 5, y); tg_poly_free(y); return g;
    case 5: p[o ? 2 : 0] = V((ip){ 0, 0 }); p[1] = V((ip){ 2, 1 }); p[o ? 0 : 2] = V((ip){ 4, 4 }); return BY(multipoint, 3, p, 3);
    case 6: { l = line(LN, 3); l2 = line(LN2, 2); const struct tg_line *a[2] = { o ? l2 : l, o ? l : l2 }; g = BY(multilinestring, 5, a, 2); tg_line_free(l); tg_line_free(l2); return g; }
    case 7: { y = poly(B, 5, 0, 0); y2 = poly(B2, 5, 0, 0); const struct tg_poly *a[2] = { o ? y2 : y, o ? y : y2 }; g = BY(multipolygon, 10, a, 2); tg_poly_free(y); tg_poly_free(y2); return g; }
    default: { G *c[3]; for (int i = 0; i < 3; i++) c[i] = part(o ? 2 - i : i); g = tg_geom_new_geometrycollection((const G *const *)c, 3); for (int i = 0; i < 3; i++) tg_geom_free(c[i]); return g; } } }
static G *as(int k, int f) {
    form = f; G *g = build(k), *h; char b[900], c[1000]; size_t n; form = F_PLAIN;
    switch (f) {
    case F_FEATURE: tg_geom_geojson(g, b, sizeof b); tg_geom_free(g); strcpy(c, "{\"type\":\"Feature\",\"id\":1,\"properties\":{\"a\":1},\"geometry\":"); strcat(c, b); strcat(c, "}"); return tg_parse_geojson(c);
    case F_EXTRA: n = tg_geom_geojson(g, b, sizeof b); tg_geom_free(g); b[n - 1] = 0; strcpy(c, b); strcat(c, ",\"x\":[1]}"); return tg_parse_geojson(c);
    case F_COPY: h = tg_geom_copy(g); tg_geom_free(g); return h;
    case F_WKB: n = tg_geom_wkb(g, (uint8_t *)b, sizeof b); tg_geom_free(g); return tg_parse_wkb_ix((uint8_t *)b, n, TG_NONE);
    default: return g; } }
void harness(void) {
    for (int i = 0; i < 64; i++) ex[i] = 50 - i;
    int ka = ALO + sx_choose(AHI - ALO, "a"), kb = sx_choose(9, "b"), f = 1 + sx_choose(F_N - 1, "form");
    G *b = as(kb, F_PLAIN); G *bf = as(kb, sx_choose(2, "other") ? F_PLAIN : f == F_FEATURE || f == F_EXTRA ? F_Z : f); // B stays where it is
    sh = sym_ip(BITS, "shift");
#ifdef QUICK
    if (ka >= 5) { if (kb >= 5) sh.x = (int)sx_concretize(sh.x); sh.y = 2; } // two multi geometries: shifted sideways only
#endif
    if (f == F_FEATURE || f == F_EXTRA) { sh.x = (int)sx_concretize(sh.x); sh.y = (int)sx_concretize(sh.y); } sh.x -= 2; sh.y -= 2;
    G *a = as(ka, F_PLAIN), *v = as(ka, f); sx_assert(a && v && b && bf && !tg_geom_error(v) && !tg_geom_error(bf), "geometry");
    sx_assert(tg_geom_intersects(v, bf) == tg_geom_intersects(a, b), "intersects"); sx_assert(tg_geom_intersects(bf, v) == tg_geom_intersects(b, a), "intersects, swapped");
    sx_assert(tg_geom_covers(v, bf) == tg_geom_covers(a, b), "covers"); sx_assert(tg_geom_covers(bf, v) == tg_geom_covers(b, a), "covers, swapped");
    sx_assert(tg_geom_contains(v, bf) == tg_geom_contains(a, b), "contains"); sx_assert(tg_geom_contains(bf, v) == tg_geom_contains(b, a), "contains, swapped");
    sx_assert(tg_geom_touches(v, bf) == tg_geom_touches(a, b), "touches"); sx_assert(tg_geom_touches(bf, v) == tg_geom_touches(b, a), "touches, swapped");
    if (ka == kb) { sx_assert(tg_geom_equals(v, a) && tg_geom_equals(a, v), "a geometry equals its other forms"); sx_assert(tg_geom_covers(v, a) && tg_geom_intersects(v, a) && !tg_geom_touches(v, a), "and covers and intersects, not touches it"); }
    if (kb == 4) sx_assert(tg_geom_intersects_rect(v, (struct tg_rect){ { 0, 0 }, { 2, 2 } }) == tg_geom_intersects(a, b), "intersects_rect");
    if (kb == 0) sx_assert(tg_geom_intersects_xy(v, 1, 1) == tg_geom_intersects(a, b), "intersects_xy");
    sx_reach("end"); tg_geom_free(a); tg_geom_free(b); tg_geom_free(v); tg_geom_free(bf); sx_assert(sx_live() == 0, "leak"); }
