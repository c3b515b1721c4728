// rectangles and points: expand, center, intersection tests, over a grid and over every pair of non-NaN doubles
#include "tg.h"
#include "sx.h"
#ifndef CO
#define CO 1
#endif
static double co(void) {
#if CO == 1
    return sx_grid(5, "c") - 8;
#else
    double d = sx_double("c"); sx_assume(d == d); return d;
#endif
}
static struct tg_rect rc(void) { struct tg_rect r; r.min.x = co(); r.min.y = co(); r.max.x = co(); r.max.y = co(); sx_assume((r.min.x <= r.max.x) & (r.min.y <= r.max.y)); return r; }
static int in(struct tg_rect r, struct tg_point p) { return (p.x >= r.min.x) & (p.x <= r.max.x) & (p.y >= r.min.y) & (p.y <= r.max.y); }
static double mn(double a, double b) { return a < b ? a : b; }
static double mx(double a, double b) { return a > b ? a : b; }
void harness(void) {
    struct tg_rect a = rc(), b = rc(), e; struct tg_point p; p.x = co(); p.y = co();
    int ov = (mx(a.min.x, b.min.x) <= mn(a.max.x, b.max.x)) & (mx(a.min.y, b.min.y) <= mn(a.max.y, b.max.y));
    sx_assert(tg_rect_intersects_rect(a, b) == ov, "rect intersects rect");
    sx_assert(tg_rect_intersects_point(a, p) == in(a, p), "rect intersects point");
    sx_assert(tg_point_intersects_rect(p, a) == in(a, p), "point intersects rect");
    e = tg_rect_expand(a, b);
    sx_assert((e.min.x == mn(a.min.x, b.min.x)) & (e.min.y == mn(a.min.y, b.min.y)) & (e.max.x == mx(a.max.x, b.max.x)) & (e.max.y == mx(a.max.y, b.max.y)), "expand");
    e = tg_rect_expand_point(a, p);
    sx_assert((e.min.x == mn(a.min.x, p.x)) & (e.min.y == mn(a.min.y, p.y)) & (e.max.x == mx(a.max.x, p.x)) & (e.max.y == mx(a.max.y, p.y)), "expand point");
    e = tg_point_rect(p); sx_assert((e.min.x == p.x) & (e.min.y == p.y) & (e.max.x == p.x) & (e.max.y == p.y), "point rect");
    struct tg_segment s = { p, a.min }; e = tg_segment_rect(s);
    sx_assert((e.min.x == mn(p.x, a.min.x)) & (e.min.y == mn(p.y, a.min.y)) & (e.max.x == mx(p.x, a.min.x)) & (e.max.y == mx(p.y, a.min.y)), "segment rect");
#if CO == 1
    p = tg_rect_center(a); sx_assert((p.x * 2 == a.min.x + a.max.x) & (p.y * 2 == a.min.y + a.max.y), "center");
#endif
    struct tg_geom *g = tg_geom_new_point(p); e = tg_geom_rect(g);
    sx_assert((e.min.x == p.x) & (e.min.y == p.y) & (e.max.x == p.x) & (e.max.y == p.y), "rect of a point geometry");
    sx_assert(tg_geom_intersects_rect(g, a) == in(a, p), "point geometry intersects rect");
    sx_assert(tg_geom_intersects_xy(g, a.min.x, a.min.y) == ((a.min.x == p.x) & (a.min.y == p.y)), "point geometry intersects xy");
    tg_geom_free(g); sx_assert(sx_live() == 0, "leak"); sx_reach("end");
}
