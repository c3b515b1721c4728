// two segments with symbolic ends: the exact answer, symmetric in every argument order
#include "tg.h"
#include "ref.h"
#ifndef BITS
#define BITS 3
#endif
void harness(void) {
    ip a = sym_ip(BITS, "a"), b = sym_ip(BITS, "b"), c = sym_ip(BITS, "c"), d = sym_ip(BITS, "d");
#ifdef CUBE
    a.x = (int)sx_concretize(a.x); a.y = (int)sx_concretize(a.y);
#endif
    int want = ref_isect(a, b, c, d);
    struct tg_segment s = { P(a), P(b) }, t = { P(c), P(d) }, s2 = { P(b), P(a) }, t2 = { P(d), P(c) };
    sx_assert(tg_segment_intersects_segment(s, t) == want, "segments intersect");
    sx_assert(tg_segment_intersects_segment(t, s) == want, "segments intersect, swapped");
    sx_assert(tg_segment_intersects_segment(s2, t) == want, "segments intersect, first reversed");
    sx_assert(tg_segment_intersects_segment(s, t2) == want, "segments intersect, second reversed");
    struct tg_rect e = tg_segment_rect(s);
ip lo = { a.x < b.x ? a.x : b.x, a.y < b.y ? a.y : b.y }, hi = { a.x > b.x ? a.x : b.x, a.y > b.y ? a.y : b.y }; struct tg_point lp_ = P(lo), hp_ = P(hi);
    sx_assert((e.min.x == lp_.x) & (e.max.x == hp_.x) & (e.min.y == lp_.y) & (e.max.y == hp_.y), "segment rect");
    struct tg_point lp[2] = { s.a, s.b }, mp[2] = { t.a, t.b };
    struct tg_line *l = tg_line_new(lp, 2), *m = tg_line_new(mp, 2); struct tg_geom *g = tg_geom_new_linestring(l), *h = tg_geom_new_linestring(m);
    sx_assert(tg_geom_intersects(g, h) == want, "lines intersect"); sx_assert(tg_geom_disjoint(g, h) == !want, "lines disjoint");
    int on = ref_on(a, b, c); struct tg_geom *pt = tg_geom_new_point(t.a);
    sx_assert(tg_geom_intersects(g, pt) == on, "line intersects point"); sx_assert(tg_geom_intersects(pt, g) == on, "point intersects line"); sx_assert(tg_geom_covers(g, pt) == on, "line covers point");
    sx_assert(tg_geom_intersects_xy(g, t.a.x, t.a.y) == on, "line intersects xy");
    int cov = ref_on(a, b, c) & ref_on(a, b, d);
    sx_assert(tg_geom_covers(g, h) == cov, "line covers line"); sx_assert(tg_geom_coveredby(h, g) == cov, "line covered by line");
    tg_geom_free(pt); tg_geom_free(g); tg_geom_free(h); tg_line_free(l); tg_line_free(m); sx_assert(sx_live() == 0, "leak"); sx_reach("end");
}
