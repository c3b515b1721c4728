// Catalogue of geometries covering every type, dimension and nesting form, with symbolic coordinates,
// and oracles that look at them only through the public accessors.
#ifndef CAT_H
#define CAT_H
#include "tg.h"
#include "sx.h"
#ifndef IX
#define IX TG_NONE
#endif
typedef struct tg_geom G;
#ifndef NT
#define NT 20
#endif
#ifndef NO // first double of the table that is chosen from
#define NO 0
#endif
#ifndef GB
#define GB 4
#endif
#ifndef CO
#define CO 0
#endif
// an X/Y coordinate
static double cxy(void) {
#if CO == 0
    double d = sx_double("c"); sx_assume(d == d); return d;      // every bit pattern that is not NaN
#elif CO == 1
    return sx_grid(GB, "c");                                       // 0..2^GB-1
#elif CO == 3
    static int ci; static const double ct[] = { 0, -1, 0.1, 1e-7, 1e21, 123456789.125, -2.2250738585072014e-308, 1.7976931348623157e308, 1.0 / 3, 5e-324, 1e22, -179.99999999999997, 5e-5, 1e15, 1e16, 0.30000000000000004, 4.35, 1e100, -1.5e-310, 9007199254740993.0 };
    if (ci < 2) { ci++; return ct[NO + sx_choose(NT, "c")]; } return ct[ci++ % 20];   // any two chosen, the others fixed
#else
    static int i; static const double t[] = { 1, 2, 11, 3, 12.5, 13, 1, 2, 0.25, -7, 1e6, 40 }; return t[i++ % 12];
#endif
}
// an extra coordinate: every bit pattern
static double cex(void) {
#if CO == 0
    return sx_double("e");
#elif CO == 1
    return sx_grid(GB, "e");
#elif CO == 3
    static int ei; static const double et[] = { 5, -0.5, 1e-300, 0.7, 1e17 }; return et[ei++ % 5];
#else
    static int i; static const double t[] = { 5, -6, 7.5, 1e-3, 99 }; return t[i++ % 5];
#endif
}
static struct tg_point cpt(void) { struct tg_point p; p.x = cxy(); p.y = cxy(); return p; }
static void cpts(struct tg_point *p, int n, int closed) { for (int i = 0; i < n; i++) p[i] = cpt(); if (closed) p[n - 1] = p[0]; }
static void cexs(double *e, int n) { for (int i = 0; i < n; i++) e[i] = cex(); }
static struct tg_line *cline(int n) { struct tg_point p[8]; cpts(p, n, 0); struct tg_line *l = tg_line_new_ix(p, n, IX); sx_assert(l != 0, "tg_line_new"); return l; }
static struct tg_ring *cring(int n) { struct tg_point p[8]; cpts(p, n, 1); struct tg_ring *l = tg_ring_new_ix(p, n, IX); sx_assert(l != 0, "tg_ring_new"); return l; }
static struct tg_poly *cpoly(int n, int holes) {
    struct tg_ring *r = cring(n), *h[2] = { 0, 0 }; for (int i = 0; i < holes; i++) h[i] = cring(4);
    struct tg_poly *p = tg_poly_new(r, (const struct tg_ring *const *)h, holes); sx_assert(p != 0, "tg_poly_new");
    tg_ring_free(r); for (int i = 0; i < holes; i++) tg_ring_free(h[i]);
    return p; }
enum { K_POINT, K_POINTZ, K_POINTM, K_POINTZM, K_POINTE, K_LINE, K_LINEZ, K_LINEM, K_LINEZM, K_LINEE,
    K_POLY, K_POLYZ, K_POLYM, K_POLYZM, K_POLYE, K_POLYH, K_POLYHZ, K_MP, K_MPZ, K_MPM, K_MPZM, K_MPE, K_ML, K_MLZ, K_MLM, K_MLZM, K_MLE,
    K_MG, K_MGZ, K_MGM, K_MGZM, K_MGE, K_GC, K_GCE, K_GCN, K_LINE2, K_MP1, K_GCZ, K_GCD, K_N };
static G *cat(int k) {
    struct tg_point p[8]; double e[64]; G *g = 0; struct tg_line *l, *l2; struct tg_poly *y, *y2; const void *a[4];
    switch (k) {
    case K_POINT: g = tg_geom_new_point(cpt()); break;
    case K_POINTZ: p[0] = cpt(); g = tg_geom_new_point_z(p[0], cex()); break;
    case K_POINTM: p[0] = cpt(); g = tg_geom_new_point_m(p[0], cex()); break;
    case K_POINTZM: p[0] = cpt(); e[0] = cex(); e[1] = cex(); g = tg_geom_new_point_zm(p[0], e[0], e[1]); break;
    case K_POINTE: g = tg_geom_new_point_empty(); break;
    case K_LINE: case K_LINEZ: case K_LINEM: case K_LINEZM: case K_LINE2:
        l = cline(k == K_LINE2 ? 2 : 3); cexs(e, 6);
        g = k == K_LINE || k == K_LINE2 ? tg_geom_new_linestring(l) : k == K_LINEZ ? tg_geom_new_linestring_z(l, e, 3) : k == K_LINEM ? tg_geom_new_linestring_m(l, e, 3) : tg_geom_new_linestring_zm(l, e, 6);
        tg_line_free(l); break;
    case K_LINEE: g = tg_geom_new_linestring_empty(); break;
    case K_POLY: case K_POLYZ: case K_POLYM: case K_POLYZM: case K_POLYH: case K_POLYHZ:
        y = cpoly(4, k == K_POLYH ? 2 : k == K_POLYHZ); cexs(e, 8);
        g = k == K_POLY || k == K_POLYH ? tg_geom_new_polygon(y) : k == K_POLYZ ? tg_geom_new_polygon_z(y, e, 4) : k == K_POLYHZ ? tg_geom_new_polygon_z(y, e, 8) : k == K_POLYM ? tg_geom_new_polygon_m(y, e, 4) : tg_geom_new_polygon_zm(y, e, 8);
        tg_poly_free(y); break;
    case K_POLYE: g = tg_geom_new_polygon_empty(); break;
    case K_MP: case K_MPZ: case K_MPM: case K_MPZM: cpts(p, 2, 0); cexs(e, 4);
        g = k == K_MP ? tg_geom_new_multipoint(p, 2) : k == K_MPZ ? tg_geom_new_multipoint_z(p, 2, e, 2) : k == K_MPM ? tg_geom_new_multipoint_m(p, 2, e, 2) : tg_geom_new_multipoint_zm(p, 2, e, 4); break;
    case K_MP1: cpts(p, 1, 0); g = tg_geom_new_multipoint(p, 1); break;
    case K_MPE: g = tg_geom_new_multipoint_empty(); break;
    case K_ML: case K_MLZ: case K_MLM: case K_MLZM: l = cline(2); l2 = cline(3); a[0] = l; a[1] = l2; cexs(e, 10);
        { const struct tg_line *const *q = (const struct tg_line *const *)a;
        g = k == K_ML ? tg_geom_new_multilinestring(q, 2) : k == K_MLZ ? tg_geom_new_multilinestring_z(q, 2, e, 5) : k == K_MLM ? tg_geom_new_multilinestring_m(q, 2, e, 5) : tg_geom_new_multilinestring_zm(q, 2, e, 10); }
        tg_line_free(l); tg_line_free(l2); break;
    case K_MLE: g = tg_geom_new_multilinestring_empty(); break;
    case K_MG: case K_MGZ: case K_MGM: case K_MGZM: y = cpoly(4, 1); y2 = cpoly(4, 0); a[0] = y; a[1] = y2; cexs(e, 24);
        { const struct tg_poly *const *q = (const struct tg_poly *const *)a;
        g = k == K_MG ? tg_geom_new_multipolygon(q, 2) : k == K_MGZ ? tg_geom_new_multipolygon_z(q, 2, e, 12) : k == K_MGM ? tg_geom_new_multipolygon_m(q, 2, e, 12) : tg_geom_new_multipolygon_zm(q, 2, e, 24); }
        tg_poly_free(y); tg_poly_free(y2); break;
    case K_MGE: g = tg_geom_new_multipolygon_empty(); break;
    case K_GC: case K_GCN: case K_GCZ: case K_GCD: { G *c[4]; int n = 0;
        if (k == K_GC) { c[n++] = cat(K_POINT); c[n++] = cat(K_LINE2); c[n++] = cat(K_POLY); }
        else if (k == K_GCN) { c[n++] = cat(K_MP1); c[n++] = cat(K_GC); c[n++] = cat(K_GCE); }
        else if (k == K_GCZ) { c[n++] = cat(K_POINTZ); c[n++] = cat(K_LINEM); c[n++] = cat(K_POINTZM); c[n++] = cat(K_POINT); }
        else { c[n++] = cat(K_GCZ); }
        g = tg_geom_new_geometrycollection((const G *const *)c, n); for (int i = 0; i < n; i++) tg_geom_free(c[i]); break; }
    case K_GCE: g = tg_geom_new_geometrycollection_empty(); break;
    }
    return g;
}
static inline uint64_t dbits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline int deq(double a, double b) { return dbits(a) == dbits(b); }
static inline int peq(struct tg_point a, struct tg_point b) { return deq(a.x, b.x) & deq(a.y, b.y); }
static inline int req(struct tg_rect a, struct tg_rect b) { return peq(a.min, b.min) & peq(a.max, b.max); }
static int pts_eq(const struct tg_point *a, const struct tg_point *b, int n) { int ok = 1; for (int i = 0; i < n; i++) ok &= peq(a[i], b[i]); return ok; }
static int line_eq(const struct tg_line *a, const struct tg_line *b) {
    if (!a || !b) return a == b;
    int n = tg_line_num_points(a); if (tg_line_num_points(b) != n || tg_line_num_segments(a) != tg_line_num_segments(b)) return 0;
    return pts_eq(tg_line_points(a), tg_line_points(b), n) & req(tg_line_rect(a), tg_line_rect(b)); }
static int ring_eq(const struct tg_ring *a, const struct tg_ring *b) {
    if (!a || !b) return a == b;
    int n = tg_ring_num_points(a); if (tg_ring_num_points(b) != n || tg_ring_num_segments(a) != tg_ring_num_segments(b)) return 0;
    return pts_eq(tg_ring_points(a), tg_ring_points(b), n) & req(tg_ring_rect(a), tg_ring_rect(b)); }
static int poly_eq(const struct tg_poly *a, const struct tg_poly *b) {
    if (!a || !b) return a == b;
    int n = tg_poly_num_holes(a); if (tg_poly_num_holes(b) != n) return 0;
    int ok = ring_eq(tg_poly_exterior(a), tg_poly_exterior(b));
    for (int i = 0; i < n; i++) ok &= ring_eq(tg_poly_hole_at(a, i), tg_poly_hole_at(b, i));
    return ok; }
static int str_eq(const char *a, const char *b) { if (!a || !b) return a == b; return strcmp(a, b) == 0; }
// everything the accessors show is the same
static int deep_eq(const G *a, const G *b) {
    if (!a || !b) return a == b;
    if (tg_geom_typeof(a) != tg_geom_typeof(b)) return 0;
    if (tg_geom_is_feature(a) != tg_geom_is_feature(b)) return 0;
    if (tg_geom_is_featurecollection(a) != tg_geom_is_featurecollection(b)) return 0;
    if (tg_geom_is_empty(a) != tg_geom_is_empty(b)) return 0;
    if (tg_geom_dims(a) != tg_geom_dims(b) || tg_geom_has_z(a) != tg_geom_has_z(b) || tg_geom_has_m(a) != tg_geom_has_m(b)) return 0;
    if (!str_eq(tg_geom_error(a), tg_geom_error(b))) return 0;
    if (!str_eq(tg_geom_extra_json(a), tg_geom_extra_json(b))) return 0;
    int ok = deq(tg_geom_z(a), tg_geom_z(b)) & deq(tg_geom_m(a), tg_geom_m(b));
    if (!tg_geom_is_empty(a)) ok &= req(tg_geom_rect(a), tg_geom_rect(b));
    if (tg_geom_typeof(a) == TG_POINT) ok &= peq(tg_geom_point(a), tg_geom_point(b));
    ok &= line_eq(tg_geom_line(a), tg_geom_line(b));
    ok &= poly_eq(tg_geom_poly(a), tg_geom_poly(b));
    int n = tg_geom_num_extra_coords(a); if (tg_geom_num_extra_coords(b) != n) return 0;
    for (int i = 0; i < n; i++) ok &= deq(tg_geom_extra_coords(a)[i], tg_geom_extra_coords(b)[i]);
    n = tg_geom_num_points(a); if (tg_geom_num_points(b) != n) return 0;
    for (int i = 0; i < n; i++) ok &= peq(tg_geom_point_at(a, i), tg_geom_point_at(b, i));
    n = tg_geom_num_lines(a); if (tg_geom_num_lines(b) != n) return 0;
    for (int i = 0; i < n; i++) ok &= line_eq(tg_geom_line_at(a, i), tg_geom_line_at(b, i));
    n = tg_geom_num_polys(a); if (tg_geom_num_polys(b) != n) return 0;
    for (int i = 0; i < n; i++) ok &= poly_eq(tg_geom_poly_at(a, i), tg_geom_poly_at(b, i));
    n = tg_geom_num_geometries(a); if (tg_geom_num_geometries(b) != n) return 0;
    for (int i = 0; i < n; i++) if (!deep_eq(tg_geom_geometry_at(a, i), tg_geom_geometry_at(b, i))) return 0;
    return ok; }
static void observe(const G *g) {
    sx_observe(tg_geom_typeof(g)); sx_observe(tg_geom_dims(g)); sx_observe(tg_geom_is_empty(g)); sx_observe(tg_geom_num_points(g)); sx_observe(tg_geom_num_lines(g));
    sx_observe(tg_geom_num_polys(g)); sx_observe(tg_geom_num_geometries(g)); sx_observe(tg_geom_num_extra_coords(g)); }
// ---- independent reading of WKB (OGC/ISO and EWKB forms): does b[0..n) describe g?
// (the EWKB Z and M flag bits are outside the supported form: skip is set when they appear)
typedef struct { const uint8_t *b; size_t n, i; int ok, skip; } wr;
static uint32_t w_u32(wr *w, int le) { if (w->n - w->i < 4) { w->ok = 0; return 0; } const uint8_t *p = w->b + w->i; w->i += 4;
    return le ? p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24 : p[3] | p[2] << 8 | p[1] << 16 | (uint32_t)p[0] << 24; }
static uint64_t w_u64(wr *w, int le) { uint64_t a = w_u32(w, le), b = w_u32(w, le); return le ? a | b << 32 : b | a << 32; }
static int w_head(wr *w, int *le, int *type, int *z, int *m) {
    if (w->i >= w->n) { w->ok = 0; return 0; }
    int e = w->b[w->i++]; if (e > 1) { w->ok = 0; return 0; } *le = e;
    uint32_t t = w_u32(w, e); *z = *m = 0;
    if (t & 0xc0000000u) w->skip = 1; int srid = (t & 0x20000000u) != 0; t &= 0xffffu;
    if (srid) w_u32(w, e);
    if (t >= 1000 && t < 2000) { *z = 1; t -= 1000; } else if (t >= 2000 && t < 3000) { *m = 1; t -= 2000; } else if (t >= 3000 && t < 4000) { *z = *m = 1; t -= 3000; }
    *type = (int)t; return w->ok; }
typedef struct { const double *e; int n, i; } exs;
static int w_pos(wr *w, int le, int d, struct tg_point p, exs *x) { // one position
    int ok = w_u64(w, le) == dbits(p.x); ok &= w_u64(w, le) == dbits(p.y);
    for (int k = 2; k < d; k++) { uint64_t v = w_u64(w, le); if (x->i >= x->n) return 0; ok &= v == dbits(x->e[x->i++]); }
    return ok; }
static int w_series(wr *w, int le, int d, const struct tg_point *p, int n, exs *x) {
    if ((int)w_u32(w, le) != n) return 0; int ok = 1; for (int i = 0; i < n; i++) { ok &= w_pos(w, le, d, p[i], x); if (!w->ok) return 0; } return ok; }
static int w_poly(wr *w, int le, int d, const struct tg_poly *p, exs *x) {
    int h = tg_poly_num_holes(p); if ((int)w_u32(w, le) != h + 1) return 0; int ok = 1;
    for (int i = 0; i <= h; i++) { const struct tg_ring *r = i ? tg_poly_hole_at(p, i - 1) : tg_poly_exterior(p); ok &= w_series(w, le, d, tg_ring_points(r), tg_ring_num_points(r), x); if (!w->ok) return 0; }
    return ok; }
static int wkb_describes(wr *w, const G *g) {
    int le, t, z, m; if (!w_head(w, &le, &t, &z, &m)) return 0;
    if (t != (int)tg_geom_typeof(g)) return 0;
    int d = 2 + z + m, ok = 1; exs x = { tg_geom_extra_coords(g), tg_geom_num_extra_coords(g), 0 };
    if (t != TG_GEOMETRYCOLLECTION && !tg_geom_is_empty(g) && (tg_geom_has_z(g) != z || tg_geom_has_m(g) != m || tg_geom_dims(g) != d)) return 0;
    double pe[2]; if (t == TG_POINT) { x.n = z + m; x.e = pe; pe[0] = z ? tg_geom_z(g) : tg_geom_m(g); pe[1] = tg_geom_m(g); }
    switch (t) {
    case TG_POINT: if (tg_geom_is_empty(g)) { int nan = 0; for (int k = 0; k < d; k++) { uint64_t v = w_u64(w, le); double q; memcpy(&q, &v, 8); if (k < 2) nan |= q != q; } ok &= nan; }
        else ok &= w_pos(w, le, d, tg_geom_point(g), &x); break;
    case TG_LINESTRING: if (tg_geom_is_empty(g)) ok &= w_u32(w, le) == 0; else ok &= w_series(w, le, d, tg_line_points(tg_geom_line(g)), tg_line_num_points(tg_geom_line(g)), &x); break;
    case TG_POLYGON: if (tg_geom_is_empty(g)) ok &= w_u32(w, le) == 0; else ok &= w_poly(w, le, d, tg_geom_poly(g), &x); break;
    default: { int n = t == TG_MULTIPOINT ? tg_geom_num_points(g) : t == TG_MULTILINESTRING ? tg_geom_num_lines(g) : t == TG_MULTIPOLYGON ? tg_geom_num_polys(g) : tg_geom_num_geometries(g);
        if ((int)w_u32(w, le) != n) return 0;
        for (int i = 0; i < n; i++) {
            if (t == TG_GEOMETRYCOLLECTION) { ok &= wkb_describes(w, tg_geom_geometry_at(g, i)); if (!w->ok) return 0; continue; }
            int t2, z2, m2, le2; if (!w_head(w, &le2, &t2, &z2, &m2)) return 0;
            if (t2 != t - 3 || z2 != z || m2 != m) return 0;
            if (t == TG_MULTIPOINT) ok &= w_pos(w, le2, d, tg_geom_point_at(g, i), &x);
            else if (t == TG_MULTILINESTRING) { const struct tg_line *l = tg_geom_line_at(g, i); ok &= w_series(w, le2, d, tg_line_points(l), tg_line_num_points(l), &x); }
            else ok &= w_poly(w, le2, d, tg_geom_poly_at(g, i), &x);
            if (!w->ok) return 0; } break; }
    }
    if (t != TG_GEOMETRYCOLLECTION) ok &= x.i == x.n || tg_geom_is_empty(g);
    return ok && w->ok; }
// size-then-write helper: calls a writer with an exact sized heap buffer (one byte over would be out of bounds)
static void *put(size_t (*wr_)(const G *, char *, size_t), const G *g, size_t extra, size_t *len) {
    size_t n = wr_(g, 0, 0); char *b = malloc(n + extra); *len = n; if (!b) return 0;
    size_t m = wr_(g, b, n + extra); sx_assert(m == n, "length does not depend on the buffer"); return b; }
static size_t W_WKB(const G *g, char *b, size_t n) { return tg_geom_wkb(g, (uint8_t *)b, n); }
static size_t W_GEOBIN(const G *g, char *b, size_t n) { return tg_geom_geobin(g, (uint8_t *)b, n); }
#define W_WKT tg_geom_wkt
#define W_HEX tg_geom_hex
#define W_JSON tg_geom_geojson
#endif
