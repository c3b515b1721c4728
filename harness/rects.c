// bounding boxes: of a geometry (2D and full), read back from its GeoBIN without parsing, against the positions the accessors show
#ifndef CO
#define CO 1
#endif
#include "cat.h"
#ifndef KLO
#define KLO 0
#define KHI (K_N + 4)
#endif
typedef struct { double mn[4], mx[4]; int d, any, n3, n4; } box;
static void add(box *b, int k, double v, int first) { b->mn[k] = first | (v < b->mn[k]) ? v : b->mn[k]; b->mx[k] = first | (v > b->mx[k]) ? v : b->mx[k]; }
static void pos(box *b, struct tg_point p) { add(b, 0, p.x, !b->any); add(b, 1, p.y, !b->any); b->any = 1; }
static void pts(box *b, const struct tg_point *p, int n) { for (int i = 0; i < n; i++) pos(b, p[i]); }
static void polyb(box *b, const struct tg_poly *y) { pts(b, tg_ring_points(tg_poly_exterior(y)), tg_ring_num_points(tg_poly_exterior(y))); } // holes lie inside the exterior
static void walk(box *b, const G *g) {
    if (tg_geom_is_empty(g)) return;
    int d = tg_geom_typeof(g) == TG_GEOMETRYCOLLECTION ? 2 : tg_geom_dims(g); if (d > b->d) b->d = d;
    switch (tg_geom_typeof(g)) {
    case TG_POINT: pos(b, tg_geom_point(g)); if (d > 2) { add(b, 2, tg_geom_has_z(g) ? tg_geom_z(g) : tg_geom_m(g), !b->n3); b->n3 = 1; } if (d > 3) { add(b, 3, tg_geom_m(g), !b->n4); b->n4 = 1; } break;
    case TG_LINESTRING: pts(b, tg_line_points(tg_geom_line(g)), tg_line_num_points(tg_geom_line(g))); break;
    case TG_POLYGON: polyb(b, tg_geom_poly(g)); break;
    default: for (int i = 0; i < tg_geom_num_points(g); i++) pos(b, tg_geom_point_at(g, i));
        for (int i = 0; i < tg_geom_num_lines(g); i++) pts(b, tg_line_points(tg_geom_line_at(g, i)), tg_line_num_points(tg_geom_line_at(g, i)));
        for (int i = 0; i < tg_geom_num_polys(g); i++) polyb(b, tg_geom_poly_at(g, i));
        for (int i = 0; i < tg_geom_num_geometries(g); i++) walk(b, tg_geom_geometry_at(g, i)); }
    int n = tg_geom_num_extra_coords(g); const double *e = tg_geom_extra_coords(g);
    if (d > 2) for (int i = 0; i < n; i += d - 2) { add(b, 2, e[i], !b->n3); b->n3 = 1; if (d > 3) { add(b, 3, e[i + 1], !b->n4); b->n4 = 1; } } }
static const char *J[] = { "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[7,2,9]},\"properties\":{}}", "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"id\":7,\"geometry\":{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]]},\"properties\":null},{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[-7,2,9]},\"properties\":{}}],\"extra\":true}",
    "{\"type\":\"Polygon\",\"coordinates\":[[[5,5],[9,5],[9,9],[5,5]]],\"foo\":{\"b\":1}}", "{\"type\":\"GeometryCollection\",\"geometries\":[{\"type\":\"Point\",\"coordinates\":[]},{\"type\":\"Point\",\"coordinates\":[5,6]},{\"type\":\"MultiPoint\",\"coordinates\":[]}]}" };
void harness(void) {
    int k = KLO + sx_choose(KHI - KLO, "kind"); G *g;
    if (k < K_N) { g = cat(k); } else g = tg_parse_geojson(J[k - K_N]);
    sx_assert(g && !tg_geom_error(g), "geometry");
#if CO == 1 // a hole reaching outside its exterior is not a polygon: only the exterior counts
#endif
    box b = { 0 }; b.d = 2; walk(&b, g);
    double mn[4], mx[4]; int d = tg_geom_fullrect(g, mn, mx); struct tg_rect r = tg_geom_rect(g);
    if (b.any) {
        sx_assert((r.min.x == b.mn[0]) & (r.min.y == b.mn[1]) & (r.max.x == b.mx[0]) & (r.max.y == b.mx[1]), "the rect is the tight box of the positions");
        sx_assert(d == b.d, "dimensions of the full rect"); int ok = 1; for (int i = 0; i < d; i++) ok &= (mn[i] == b.mn[i]) & (mx[i] == b.mx[i]); sx_assert(ok, "the full rect is the tight box of the positions");
        struct tg_point c = tg_rect_center(r), o = tg_geom_point(g); sx_assert((c.x >= r.min.x) & (c.x <= r.max.x) & (c.y >= r.min.y) & (c.y <= r.max.y), "centre"); sx_assert((o.x == c.x) & (o.y == c.y), "the point of a geometry is the centre of its rect");
        size_t n; uint8_t *w = put(W_GEOBIN, g, 0, &n); double n4[4], x4[4]; int gd = tg_geobin_fullrect(w, n, n4, x4); struct tg_rect gr = tg_geobin_rect(w, n); struct tg_point gp = tg_geobin_point(w, n);
        sx_assert(gd == d, "dimensions read from GeoBIN"); ok = 1; for (int i = 0; i < d; i++) ok &= (mn[i] == n4[i]) & (mx[i] == x4[i]); sx_assert(ok, "full rect read from GeoBIN");
        sx_assert(req(gr, r), "rect read from GeoBIN"); sx_assert((gp.x == c.x) & (gp.y == c.y), "point read from GeoBIN"); free(w);
        sx_reach("nonempty"); } else { sx_assert((r.min.x == 0) & (r.max.x == 0) & (r.min.y == 0) & (r.max.y == 0), "the rect of nothing is zero"); sx_reach("empty"); }
    tg_geom_free(g); sx_assert(sx_live() == 0, "leak");
}
