// every accessor, writer and predicate with NULL, with every catalogue geometry and with any 32-bit index; out of range gives the documented neutral answer
#define CO 2
#include "cat.h"
static int zp(struct tg_point p) { return (p.x == 0) & (p.y == 0); }
static int zr(struct tg_rect r) { return zp(r.min) & zp(r.max); }
static int zs(struct tg_segment s) { return zp(s.a) & zp(s.b); }
static int in(int i, int n) { return (i >= 0) & (i < n); }
static bool it(const G *g, int i, void *u) { (void)g; (void)i; (*(int *)u)++; return true; }
static void line(const struct tg_line *l, int i) {
    int n = tg_line_num_points(l), m = tg_line_num_segments(l); sx_assert(m == (n ? n - 1 : 0), "segments of a line");
    struct tg_point p = tg_line_point_at(l, i); struct tg_segment s = tg_line_segment_at(l, i);
    if (in(i, n)) { sx_assert(peq(p, tg_line_points(l)[i]), "point i"); } else sx_assert(zp(p), "no such point");
    if (!in(i, m)) sx_assert(zs(s), "no such segment");
    int k = tg_line_index_num_levels(l), c = tg_line_index_level_num_rects(l, i); if (!in(i, k)) sx_assert(c == 0, "no such level");
    tg_line_index_level_rect(l, i, 0); tg_line_index_level_rect(l, 0, i); tg_line_index_spread(l); tg_line_memsize(l); tg_line_length(l); tg_line_clockwise(l); tg_line_rect(l); }
static void ring(const struct tg_ring *l, int i) {
    int n = tg_ring_num_points(l), m = tg_ring_num_segments(l); sx_assert(m == (n ? n - 1 : 0), "segments of a ring");
    struct tg_point p = tg_ring_point_at(l, i); struct tg_segment s = tg_ring_segment_at(l, i);
    if (in(i, n)) { sx_assert(peq(p, tg_ring_points(l)[i]), "point i"); } else sx_assert(zp(p), "no such point");
    if (!in(i, m)) sx_assert(zs(s), "no such segment");
    int k = tg_ring_index_num_levels(l), c = tg_ring_index_level_num_rects(l, i); if (!in(i, k)) sx_assert(c == 0, "no such level");
    tg_ring_index_level_rect(l, i, 0); tg_ring_index_level_rect(l, 0, i); tg_ring_index_spread(l); tg_ring_memsize(l); tg_ring_area(l); tg_ring_perimeter(l); tg_ring_clockwise(l); tg_ring_convex(l); tg_ring_rect(l); }
static void poly(const struct tg_poly *y, int i) {
    int n = tg_poly_num_holes(y); const struct tg_ring *h = tg_poly_hole_at(y, i); sx_assert((h != 0) == in(i, n), "hole i exists iff in range"); ring(h, 0); ring(tg_poly_exterior(y), i); tg_poly_memsize(y); tg_poly_rect(y); tg_poly_clockwise(y); }
static void geom(const G *g, int i) {
    int n = tg_geom_num_points(g), t = tg_geom_typeof(g);
    if (!in(i, n)) { struct tg_point p = tg_geom_point_at(g, i); sx_assert(zp(p), "no such point"); } else tg_geom_point_at(g, i);
    const struct tg_line *l = tg_geom_line_at(g, i); sx_assert((l != 0) == in(i, tg_geom_num_lines(g)), "line i exists iff in range");
    const struct tg_poly *y = tg_geom_poly_at(g, i); sx_assert((y != 0) == in(i, tg_geom_num_polys(g)), "polygon i exists iff in range");
    const G *c = tg_geom_geometry_at(g, i); sx_assert((c != 0) == in(i, tg_geom_num_geometries(g)), "geometry i exists iff in range");
    sx_assert((n == 0) | (t == TG_MULTIPOINT), "only a multipoint has points"); sx_assert((tg_geom_num_lines(g) == 0) | (t == TG_MULTILINESTRING), "only a multilinestring has lines");
    sx_assert((tg_geom_num_polys(g) == 0) | (t == TG_MULTIPOLYGON), "only a multipolygon has polygons"); sx_assert((tg_geom_num_geometries(g) == 0) | (t == TG_GEOMETRYCOLLECTION), "only a collection has geometries");
    sx_assert((tg_geom_line(g) == 0) | (t == TG_LINESTRING), "line of a linestring"); sx_assert((tg_geom_poly(g) == 0) | (t == TG_POLYGON), "polygon of a polygon");
    tg_geom_point(g); tg_geom_z(g); tg_geom_m(g); tg_geom_extra_json(g); tg_geom_is_feature(g); tg_geom_is_featurecollection(g); tg_geom_error(g);
    sx_assert((tg_geom_extra_coords(g) != 0) == (tg_geom_num_extra_coords(g) != 0), "extra coordinates"); int d = tg_geom_dims(g); sx_assert(d == (g && !tg_geom_error(g) ? 2 + tg_geom_has_z(g) + tg_geom_has_m(g) : d), "dims");
    tg_geom_memsize(g); double mn[4], mx[4]; sx_assert(tg_geom_fullrect(g, mn, mx) == (g ? tg_geom_fullrect(g, mn, mx) : 0), "fullrect"); }
void harness(void) {
    int k = sx_choose(K_N + 2, "kind"), i = (int)sx_bits(32, "i"); int64_t l0 = sx_live();
    G *g = k < K_N ? cat(k) : k == K_N ? 0 : tg_geom_new_error("boom");
    geom(g, i); line(tg_geom_line(g), i); poly(tg_geom_poly(g), i); line(tg_geom_line_at(g, 0), i); poly(tg_geom_poly_at(g, 1), i);
    for (int o = 0; o < 3; o++) { G *b = o == 0 ? 0 : o == 1 ? tg_geom_new_error("other") : tg_geom_new_linestring_empty();
        sx_assert(!tg_geom_intersects(g, b) & !tg_geom_intersects(b, g) & !tg_geom_covers(g, b) & !tg_geom_covers(b, g) & !tg_geom_contains(g, b) & !tg_geom_contains(b, g) & !tg_geom_within(g, b) & !tg_geom_coveredby(b, g) & !tg_geom_touches(g, b) & !tg_geom_touches(b, g), "nothing relates to nothing");
        if (o) tg_geom_equals(g, b); tg_geom_disjoint(g, b); tg_geom_free(b); }
    if (!g) {
        sx_assert(tg_geom_typeof(g) == 0 && zr(tg_geom_rect(g)) && zp(tg_geom_point(g)) && !tg_geom_line(g) && !tg_geom_poly(g) && tg_geom_is_empty(g) && !tg_geom_error(g) == 0 && !tg_geom_extra_json(g) && tg_geom_dims(g) == 0 && !tg_geom_has_z(g) && !tg_geom_has_m(g) && tg_geom_memsize(g) == 0, "neutral answers for NULL");
        char b[8]; sx_assert(tg_geom_geojson(g, b, 8) == 0 && tg_geom_wkt(g, b, 8) == 0 && tg_geom_wkb(g, (uint8_t *)b, 8) == 0 && tg_geom_hex(g, b, 8) == 0 && tg_geom_geobin(g, (uint8_t *)b, 8) == 0, "nothing written for NULL");
        sx_assert(!tg_geom_clone(g) && !tg_geom_copy(g) && !tg_line_clone(0) && !tg_line_copy(0) && !tg_ring_clone(0) && !tg_ring_copy(0) && !tg_poly_clone(0) && !tg_poly_copy(0), "copies of NULL");
        tg_geom_free(0); tg_line_free(0); tg_ring_free(0); tg_poly_free(0);
        sx_assert(!tg_geom_new_linestring(0) && !tg_geom_new_polygon(0) && !tg_parse(0, 5), "constructors of NULL");
        sx_assert(!tg_geom_intersects_rect(0, (struct tg_rect){ { 0, 0 }, { 1, 1 } }) && !tg_geom_intersects_xy(0, 0, 0), "rect and xy of NULL");
        int c = 0; tg_geom_search(0, (struct tg_rect){ { 0, 0 }, { 1, 1 } }, it, &c); sx_assert(c == 0, "search of NULL"); tg_ring_line_search(0, 0, 0, 0); tg_ring_ring_search(0, 0, 0, 0); tg_line_line_search(0, 0, 0, 0); }
    int c = 0; tg_geom_search(g, (struct tg_rect){ { -1e9, -1e9 }, { 1e9, 1e9 } }, it, &c); sx_observe(c); tg_geom_search(g, (struct tg_rect){ { 0, 0 }, { 1, 1 } }, 0, 0);
    tg_geom_free(g); sx_assert(sx_live() == l0, "leak"); sx_reach("end");
}
