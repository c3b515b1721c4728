// derived attributes of a ring / line with NV symbolic vertices: rect, winding, area, convexity, segments, accessors
#include "tg.h"
#include "ref.h"
#ifndef NV
#define NV 4
#endif
#ifndef BITS
#define BITS 2
#endif
#ifndef IX
#define IX TG_NONE
#endif
#ifndef NF
#define NF 0 // leading fixed vertices of a comb; the other NV - NF vertices are symbolic
#endif
static int ref_convex(const ip *r, int n) { // simple ring: all turns in one direction (collinear allowed)
    int pos = 0, neg = 0, m = n - 1;
    for (int i = 0; i < m; i++) { int c = ref_cross(r[i], r[i + 1], r[(i + 2) % m]); pos |= c > 0; neg |= c < 0; }
    return !(pos & neg); }
void harness(void) {
#ifdef SP
    tg_env_set_index_spread(SP);
#endif
    ip r[NV + 1]; for (int i = 0; i < NV; i++) if (i < NF) r[i] = (ip){ i + 1, i & 1 ? 3 : 5 }; else r[i] = sym_ip(BITS, "v"); r[NV] = r[0];
    struct tg_point q[NV + 1]; for (int i = 0; i <= NV; i++) q[i] = P(r[i]);
    struct tg_ring *g = tg_ring_new_ix(q, NV + 1, IX); sx_assert(g != 0, "ring");
    struct tg_line *l = tg_line_new_ix(q, NV, IX); sx_assert(l != 0, "line");
    int x0 = r[0].x, x1 = x0, y0 = r[0].y, y1 = y0;
    for (int i = 1; i < NV; i++) { x0 = r[i].x < x0 ? r[i].x : x0; x1 = r[i].x > x1 ? r[i].x : x1; y0 = r[i].y < y0 ? r[i].y : y0; y1 = r[i].y > y1 ? r[i].y : y1; }
    struct tg_rect b = tg_ring_rect(g), c = tg_line_rect(l), d = tg_poly_rect((struct tg_poly *)g);
    sx_assert((b.min.x == x0) & (b.min.y == y0) & (b.max.x == x1) & (b.max.y == y1), "ring rect is the tight bounding box");
    sx_assert((c.min.x == x0) & (c.min.y == y0) & (c.max.x == x1) & (c.max.y == y1), "line rect is the tight bounding box");
    sx_assert((d.min.x == x0) & (d.min.y == y0) & (d.max.x == x1) & (d.max.y == y1), "polygon rect is the tight bounding box");
    sx_assert(tg_ring_num_points(g) == NV + 1 && tg_line_num_points(l) == NV && tg_ring_num_segments(g) == NV && tg_line_num_segments(l) == NV - 1, "counts");
    for (int i = 0; i < NV; i++) {
        struct tg_point p = tg_ring_point_at(g, i), o = tg_line_point_at(l, i); struct tg_segment s = tg_ring_segment_at(g, i);
        sx_assert((p.x == r[i].x) & (p.y == r[i].y) & (o.x == r[i].x) & (o.y == r[i].y), "points in order");
        sx_assert((s.a.x == r[i].x) & (s.a.y == r[i].y) & (s.b.x == r[i + 1].x) & (s.b.y == r[i + 1].y), "segment i joins points i and i+1");
        sx_assert((tg_ring_points(g)[i].x == r[i].x) & (tg_line_points(l)[i].y == r[i].y), "points array");
        if (i < NV - 1) { s = tg_line_segment_at(l, i); sx_assert((s.a.x == r[i].x) & (s.a.y == r[i].y) & (s.b.x == r[i + 1].x) & (s.b.y == r[i + 1].y), "line segment i joins points i and i+1"); } }
    int a2 = ref_area2(r, NV + 1); double area = tg_ring_area(g);
    sx_assert(area * 2 == (a2 < 0 ? -a2 : a2), "area");
    sx_assert(a2 == 0 || tg_ring_clockwise(g) == (a2 < 0), "winding of the ring");
    sx_assert(a2 == 0 || tg_poly_clockwise((struct tg_poly *)g) == (a2 < 0), "winding of the polygon");
    sx_assert(a2 == 0 || tg_line_clockwise(l) == (a2 < 0), "winding of the line taken as closed");
    sx_reach("attrs");
    sx_assume(ref_simple(r, NV + 1));
    sx_assert(tg_ring_convex(g) == ref_convex(r, NV + 1), "convex");
    sx_reach("end");
    tg_ring_free(g); tg_line_free(l); sx_assert(sx_live() == 0, "leak");
}
