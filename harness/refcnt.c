// histories of clone / free / copy / wrap on a shared object graph: every step's operation is chosen by the engine; every handle the
// caller still holds must stay readable and unchanged, and everything is released once the last handle is gone
#define CO 2
#include "cat.h"
#ifndef STEPS
#define STEPS 4
#endif
#ifndef START
#define START 0
#endif
enum { H_LINE, H_RING, H_POLY, H_GEOM };
static struct { int kind; void *p; int want; } h[16]; static int nh;
static void add(int kind, const void *p, int want) { sx_assert(p != 0, "handle"); h[nh].kind = kind; h[nh].p = (void *)p; h[nh].want = want; nh++; }
// want: a number that identifies the content
static int look(int i) {
    void *p = h[i].p; int n = 0;
    switch (h[i].kind) {
    case H_LINE: n = tg_line_num_points(p); return n * 10 + (int)tg_line_point_at(p, n - 1).x;
    case H_RING: n = tg_ring_num_points(p); return n * 10 + (int)tg_ring_point_at(p, 1).x;
    case H_POLY: { const struct tg_ring *e = tg_poly_exterior(p), *o = tg_poly_hole_at(p, 0); return tg_ring_num_points(e) * 10 + (int)tg_ring_point_at(e, 1).x + 1000 * tg_poly_num_holes(p) + (o ? (int)tg_ring_point_at(o, 1).x : 0); }
    default: { G *g = p; const char *x = tg_geom_extra_json(g); return tg_geom_typeof(g) * 10000 + (int)tg_geom_rect(g).max.x + tg_geom_num_geometries(g) * 100 + tg_geom_num_extra_coords(g) * 10 + (x ? x[2] : 0) + (tg_geom_error(g) ? tg_geom_error(g)[0] : 0); } } }
static void rel(int i) { void *p = h[i].p; switch (h[i].kind) { case H_LINE: tg_line_free(p); break; case H_RING: tg_ring_free(p); break; case H_POLY: tg_poly_free(p); break; default: tg_geom_free(p); } h[i] = h[--nh]; }
static void *dup(int k, void *p, int deep) {
    switch (k) { case H_LINE: return deep ? tg_line_copy(p) : tg_line_clone(p); case H_RING: return deep ? tg_ring_copy(p) : tg_ring_clone(p); case H_POLY: return deep ? tg_poly_copy(p) : tg_poly_clone(p); default: return deep ? tg_geom_copy(p) : tg_geom_clone(p); } }
void harness(void) {
    struct tg_point q[40]; for (int i = 0; i < 40; i++) { q[i].x = i < 20 ? i : 39 - i; q[i].y = i < 20 ? 0 : 1; } q[39] = q[0];
    int big = START == 3 ? 40 : 4; if (big == 4) { q[2].x = 5; q[2].y = 7; q[3] = q[0]; }
    struct tg_ring *r = tg_ring_new(q, big);
#if START == 0
    add(H_RING, r, 0); struct tg_line *l = tg_line_new(q, 3); add(H_LINE, l, 0);
#elif START == 1
    { const struct tg_ring *hs[] = { r, r }; add(H_POLY, tg_poly_new(r, hs, 2), 0); add(H_RING, r, 0); }
#elif START == 2
    { struct tg_poly *y = tg_poly_new(r, 0, 0); double e[12] = { 0 }; G *a = tg_geom_new_polygon_z(y, e, 4), *b = tg_geom_new_point(q[1]); const G *gs[] = { a, b, a }; add(H_GEOM, tg_geom_new_geometrycollection(gs, 3), 0); add(H_GEOM, a, 0); tg_poly_free(y); tg_ring_free(r); tg_geom_free(b); }
#elif START == 3
    { G *a = tg_geom_new_polygon((struct tg_poly *)r); add(H_GEOM, a, 0); add(H_RING, r, 0); }
#elif START == 4
    tg_ring_free(r); add(H_GEOM, tg_parse_geojson("{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"id\":7,\"geometry\":{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]]},\"properties\":null}]}"), 0); add(H_GEOM, tg_geom_new_error("boom"), 0);
#endif
    for (int i = 0; i < nh; i++) h[i].want = look(i);
    for (int s = 0; s < STEPS && nh; s++) {
        int i = sx_choose(nh, "handle"), op = sx_choose(4, "op"); int k = h[i].kind; void *p = h[i].p;
        if (op == 0) rel(i);
        else if (op == 1 || op == 2) { add(k, dup(k, p, op == 2), h[i].want); }
        else { // wrap into, or take apart from, another object
            const void *v[2] = { p, p };
            if (k == H_LINE) { G *g = sx_choose(2, "multi") ? tg_geom_new_multilinestring((const struct tg_line *const *)v, 2) : tg_geom_new_linestring(p); add(H_GEOM, g, 0); h[nh - 1].want = look(nh - 1); }
            else if (k == H_RING) { add(H_POLY, tg_poly_new(p, (const struct tg_ring *const *)v, 1), 0); h[nh - 1].want = look(nh - 1); }
            else if (k == H_POLY) { G *g = sx_choose(2, "multi") ? tg_geom_new_multipolygon((const struct tg_poly *const *)v, 2) : tg_geom_new_polygon(p); add(H_GEOM, g, 0); h[nh - 1].want = look(nh - 1); }
            else if (tg_geom_num_geometries(p) && sx_choose(2, "take")) { add(H_GEOM, tg_geom_clone(tg_geom_geometry_at(p, 0)), 0); h[nh - 1].want = look(nh - 1); }
            else { add(H_GEOM, tg_geom_new_geometrycollection((const G *const *)v, 2), 0); h[nh - 1].want = look(nh - 1); } }
        for (int j = 0; j < nh; j++) sx_assert(look(j) == h[j].want, "an object the caller holds is intact");
    }
    sx_reach("end");
    while (nh) { rel(sx_symbolic() || 1 ? nh - 1 : 0); for (int j = 0; j < nh; j++) sx_assert(look(j) == h[j].want, "an object the caller holds is intact"); }
    sx_assert(sx_live() == 0, "everything is released with the last handle");
}
