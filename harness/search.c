// searching the children of a multi geometry: every child whose box meets the query box is reported exactly once, and no other
#define CO 2
#include "cat.h"
#ifndef NC
#define NC 70
#endif
#ifndef KIND
#define KIND 0
#endif
#ifndef QS // step of the query corner
#define QS 1
#endif
static int seen[NC], total, stop, nstop;
static const G *self;
static bool it(const G *g, int i, void *u) { sx_assert(u == seen, "user data"); sx_assert(i >= 0 && i < NC, "index of a child"); seen[i]++; total++; 
    if (KIND == 2) sx_assert(g == tg_geom_geometry_at(self, i), "the child handed over is child i"); else if (KIND == 0) { struct tg_point p = tg_geom_point_at(self, i), q = tg_geom_point(g); sx_assert(tg_geom_typeof(g) == TG_POINT && peq(p, q), "the child handed over is child i"); } else if (KIND == 3) sx_assert(tg_geom_poly(g) == tg_geom_poly_at(self, i), "the child handed over is child i"); else sx_assert(tg_geom_line(g) == tg_geom_line_at(self, i), "the child handed over is child i");
    return total != stop; }
static G *child(int i, struct tg_point *q, struct tg_line *l) { // every type of child, all with the box of q (of its first point)
    struct tg_point r[4] = { q[0], { q[1].x, q[0].y }, q[1], q[0] }; double e[4] = { 1, 2, 3, 4 }; G *g, *a, *b; struct tg_ring *t;
    switch (i % 9) {
    case 0: return tg_geom_new_point(q[0]);
    case 2: return tg_geom_new_multipoint(q, 2);
    case 3: t = tg_ring_new(r, 4); g = tg_geom_new_polygon((struct tg_poly *)t); tg_ring_free(t); return g;
    case 4: return tg_geom_new_point_z(q[0], 7);
    case 5: a = tg_geom_new_point(q[1]); b = tg_geom_new_point_zm(q[0], 1, 2); { const G *k[2] = { a, b }; g = tg_geom_new_geometrycollection(k, 2); } tg_geom_free(a); tg_geom_free(b); return g;
    case 6: { const struct tg_line *k[1] = { l }; return tg_geom_new_multilinestring(k, 1); }
    case 7: t = tg_ring_new(r, 4); { const struct tg_poly *k[1] = { (struct tg_poly *)t }; g = tg_geom_new_multipolygon_z(k, 1, e, 4); } tg_ring_free(t); return g;
    case 8: return tg_geom_new_linestring_z(l, e, 2);
    default: return tg_geom_new_linestring(l); } }
void harness(void) {
    struct tg_point p[NC]; int w[NC], h[NC];
    for (int i = 0; i < NC; i++) { p[i].x = (i * 37 + i / 9) % 61; p[i].y = FLAT ? 3 : (i * 23 + i / 7) % 59; w[i] = KIND ? i % 4 : 0; h[i] = KIND ? i % 3 : 0; }
    G *g; struct tg_line *l[NC]; G *c[NC];
    if (KIND == 0) g = tg_geom_new_multipoint(p, NC);
    else { for (int i = 0; i < NC; i++) { struct tg_point q[2] = { p[i], { p[i].x + w[i], p[i].y + h[i] } }; l[i] = tg_line_new(q, 2); c[i] = KIND == 2 ? child(i, q, l[i]) : KIND == 3 ? child(3, q, l[i]) : tg_geom_new_linestring(l[i]); if (KIND == 2 && (i % 9 == 0 || i % 9 == 4)) w[i] = h[i] = 0; }
        const struct tg_poly *y[NC]; if (KIND == 3) for (int i = 0; i < NC; i++) y[i] = tg_geom_poly(c[i]);
        g = KIND == 3 ? tg_geom_new_multipolygon(y, NC) : KIND == 1 ? tg_geom_new_multilinestring((const struct tg_line *const *)l, NC) : tg_geom_new_geometrycollection((const G *const *)c, NC); for (int i = 0; i < NC; i++) { tg_line_free(l[i]); tg_geom_free(c[i]); } }
    sx_assert(g != 0, "geometry"); self = g;
    int x0 = sx_int(QB, "x0") * QS, y0 = sx_int(QB, "y0") * QS, x1 = x0 + sx_int(QW, "w"), y1 = y0 + sx_int(QW, "h"); stop = 10000;
#ifdef STOP
    stop = sx_choose(4, "stop") + 1;
#endif
    tg_geom_search(g, (struct tg_rect){ { x0 - 1, y0 - 1 }, { x1 - 1, y1 - 1 } }, it, seen);
    int want = 0, ok = 1;
    for (int i = 0; i < NC; i++) { int hit = (p[i].x <= x1 - 1) & (p[i].x + w[i] >= x0 - 1) & (p[i].y <= y1 - 1) & (p[i].y + h[i] >= y0 - 1); want += hit; ok &= seen[i] == hit | (seen[i] == 0 & stop < 10000); }
    sx_assert(ok, "each child whose box meets the query is reported once and no other"); if (stop < 10000) sx_assert(total == (want < stop ? want : stop), "a search stops when told");
    if (want) sx_reach("hit"); else sx_reach("miss"); sx_observe(total);
    tg_geom_free(g); sx_assert(sx_live() == 0, "leak");
}
