// predicates on multi geometries and nested collections are the fold of the predicates on their parts:
// intersects: some pair does; covers: every non-empty part of B is covered by a part of A; contains: true if that holds with contains, never without
// covers and one containing pair; touches: some pair touches and every meeting pair touches. B has one symbolic part.
#include "tg.h"
#include "ref.h"
#ifndef BITS
#define BITS 3
#endif
#ifndef CBITS
#define CBITS BITS
#endif
#ifndef BK
#define BK 1
#endif
#ifndef ALO
#define ALO 0
#define AHI 6
#endif
typedef const struct tg_geom G;
static struct tg_geom *pt(int x, int y) { return tg_geom_new_point((struct tg_point){ x, y }); }
static struct tg_geom *ln(int n, const ip *p) { struct tg_line *l = mk_line(p, n, TG_NONE); struct tg_geom *g = tg_geom_new_linestring(l); tg_line_free(l); return g; }
static struct tg_geom *box(int x0, int y0, int x1, int y1) { ip p[5] = { { x0, y0 }, { x1, y0 }, { x1, y1 }, { x0, y1 }, { x0, y0 } }; struct tg_ring *r = mk_ring(p, 5, TG_NONE); struct tg_geom *g = tg_geom_new_polygon((struct tg_poly *)r); tg_ring_free(r); return g; }
static struct tg_geom *gc(int n, struct tg_geom **g) { struct tg_geom *c = tg_geom_new_geometrycollection((G *const *)g, n); for (int i = 0; i < n; i++) tg_geom_free(g[i]); return c; }
static struct tg_geom *multi(int n, struct tg_geom **g) { // the multi form of n geometries of one type; frees them
    struct tg_point p[80]; const struct tg_line *l[4]; const struct tg_poly *y[4]; struct tg_geom *m; for (int i = 0; i < n; i++) switch (tg_geom_typeof(g[0])) { case TG_POINT: p[i] = tg_geom_point(g[i]); break; case TG_LINESTRING: l[i] = tg_geom_line(g[i]); break; default: y[i] = tg_geom_poly(g[i]); }
    switch (tg_geom_typeof(g[0])) { case TG_POINT: m = tg_geom_new_multipoint(p, n); break; case TG_LINESTRING: m = tg_geom_new_multilinestring(l, n); break; default: m = tg_geom_new_multipolygon(y, n); } for (int i = 0; i < n; i++) tg_geom_free(g[i]); return m; }
static G *cl(G *g) { return tg_geom_clone(g); }
// parts of A: pairwise disjoint
static struct tg_geom *pa[80], *pb[4]; static int na, nb;
static struct tg_geom *mkA(int k) {
    struct tg_geom *g[80], *h[3]; na = 0;
    switch (k) {
    case 0: pa[na++] = box(0, 0, 3, 3); pa[na++] = pt(6, 1); pa[na++] = ln(3, (ip[]){ { 4, 5 }, { 6, 5 }, { 6, 3 } }); break;
    case 1: pa[na++] = box(0, 0, 2, 5); pa[na++] = box(4, 1, 6, 4); break;
    case 2: pa[na++] = pt(2, 2); pa[na++] = pt(3, 2); pa[na++] = pt(4, 4); break;
    case 3: pa[na++] = ln(2, (ip[]){ { 0, 0 }, { 4, 2 } }); pa[na++] = ln(2, (ip[]){ { 1, 4 }, { 5, 4 } }); break;
    case 4: pa[na++] = box(1, 1, 5, 5); pa[na++] = pt(0, 0); break;
    case 5: for (int i = 0; i < 70; i++) pa[na++] = pt(i % 9, (i / 9) * 2); break;
    case 6: pa[na++] = ln(2, (ip[]){ { 1, 1 }, { 1, 5 } }); break;
    }
    for (int i = 0; i < na; i++) g[i] = (struct tg_geom *)cl(pa[i]);
    switch (k) { case 0: h[0] = tg_geom_new_linestring_empty(); h[1] = gc(1, g); h[2] = gc(2, g + 1); return gc(3, h); // nested, with an empty part
    case 4: h[0] = g[0]; h[1] = gc(1, g + 1); h[2] = tg_geom_new_point_empty(); return gc(3, h); case 6: h[0] = gc(1, g); return gc(1, h); default: return multi(na, g); } }
static struct tg_geom *second(void) { switch (sx_choose(5, "second")) { case 0: return pt(6, 1); case 1: return pt(3, 2); case 2: return ln(2, (ip[]){ { 2, 1 }, { 2, 3 } }); case 3: return box(5, 2, 6, 3); default: return ln(2, (ip[]){ { 4, 4 }, { 5, 4 } }); } }
static struct tg_geom *clf(struct tg_geom *g) { return (struct tg_geom *)cl(g); }
static struct tg_geom *mkB(int form, struct tg_geom *s) {
    struct tg_geom *h[3], *o[2]; nb = 0; pb[nb++] = s;
    switch (form) {
    case 0: return clf(s);
    case 1: h[0] = clf(s); return gc(1, h);
    case 2: pb[nb++] = second(); h[0] = clf(s); h[1] = clf(pb[1]); return gc(2, h);
    case 3: pb[nb++] = second(); h[0] = clf(pb[1]); o[0] = clf(s); h[1] = gc(1, o); return gc(2, h);
    case 4: h[0] = tg_geom_new_polygon_empty(); h[1] = clf(s); return gc(2, h);
    case 5: pb[nb++] = second(); o[0] = clf(s); o[1] = tg_geom_new_multipoint_empty(); h[0] = gc(2, o); h[1] = tg_geom_new_geometrycollection_empty(); h[2] = clf(pb[1]); return gc(3, h);
    default: pb[nb++] = BK == 1 ? pt(5, 2) : BK < 10 ? ln(2, (ip[]){ { 5, 4 }, { 5, 2 } }) : box(5, 2, 6, 3); h[0] = clf(s); h[1] = clf(pb[1]); return multi(2, h); } }
static void fold(G *a, G *b, struct tg_geom **x, int nx, struct tg_geom **y, int ny) {
    int isect = 0, cov = 1, cont = 1, some = 0, touch = 0, hard = 0;
    for (int j = 0; j < ny; j++) { int c = 0, t = 0; for (int i = 0; i < nx; i++) { int s = tg_geom_intersects(x[i], y[j]), u = tg_geom_touches(x[i], y[j]); isect |= s; c |= tg_geom_covers(x[i], y[j]); t |= tg_geom_contains(x[i], y[j]); touch |= s & u; hard |= s & !u; } cov &= c; cont &= t; some |= t; }
    sx_assert(tg_geom_intersects(a, b) == isect, "intersects: some pair of parts does"); sx_assert(tg_geom_disjoint(a, b) == !isect, "disjoint");
    sx_assert(tg_geom_covers(a, b) == cov, "covers: every part of B by a part of A"); sx_assert(tg_geom_coveredby(b, a) == cov, "coveredby");
    int r = tg_geom_contains(a, b); sx_assert(!cont | r, "contains if every part is contained"); sx_assert(!r | (cov & some), "contains only what it covers and meets inside"); sx_assert(tg_geom_within(b, a) == r, "within");
    sx_assert(tg_geom_touches(a, b) == (touch & !hard), "touches: parts touch, and none meet otherwise"); sx_assert(tg_geom_touches(b, a) == (touch & !hard), "touches, swapped");
    if (isect) sx_reach("meet"); else sx_reach("apart"); }
void harness(void) {
    struct tg_geom *a = mkA(ALO + sx_choose(AHI - ALO, "A")), *s, *b; ip p[5];
    for (int i = 0; i < (BK == 1 ? 1 : 2); i++) { p[i] = sym_ip(CUBE > i ? CBITS : BITS, "b"); if (CUBE > i && CBITS < BITS) { p[i].x = 2 * p[i].x + 1; p[i].y *= 2; } if (CUBE && i == 0) { p[0].x = sx_concretize(p[0].x); p[0].y = sx_concretize(p[0].y); } }
    if (BK == 1) s = tg_geom_new_point(P(p[0])); else if (BK == 2) { sx_assume(!ref_eq(p[0], p[1])); s = ln(2, p); }
    else { sx_assume((p[0].x < p[1].x) & (p[0].y < p[1].y)); s = box(p[0].x, p[0].y, p[1].x, p[1].y); }
    b = mkB(FORM, s); fold(a, b, pa, na, pb, nb);
    int e1 = tg_geom_equals(a, b), e2 = tg_geom_equals(b, a); sx_assert(e1 == e2, "equals is symmetric"); sx_assert(!e1 | (tg_geom_covers(a, b) & tg_geom_covers(b, a)), "equal geometries cover each other"); sx_assert(tg_geom_equals(a, a), "equals itself");
    if (BK == 1) { sx_assert(tg_geom_intersects_xy(a, p[0].x, p[0].y) == tg_geom_intersects(a, s), "intersects_xy"); }
    for (int i = 0; i < na; i++) tg_geom_free(pa[i]); for (int i = 0; i < nb; i++) tg_geom_free(pb[i]); tg_geom_free(a); tg_geom_free(b); sx_assert(sx_live() == 0, "leak"); }
