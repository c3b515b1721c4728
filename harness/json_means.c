// what accepted GeoJSON means: an independent reading of the text decides what must be accepted, what must be rejected and what geometry, feature and foreign members it describes
#define CO 2
#include "cat.h"
#include "jsonref.h"
typedef struct { int nd, match, lax; const double *e; int ne, ie; } D;
static int dv(int c) { return (int)sx_concretize((uint64_t)(c - '0')); }
// reads the number at j; known tells whether its exact value was worked out
static int number(js *j, double *v, int *known) {
    js s = *j; if (!num(j)) return 0; long long m = 0; int nd = 0, ex = 0, neg = 0, e = 0, en = 0, z = 0, f = 0; *known = 1; // z: zeros not yet counted in
    if (peek(&s) == '-') { neg = 1; s.i++; }
    for (; s.i < j->i; s.i++) { int c = peek(&s); if (c == '.') { f = 1; continue; } if (!dig(c)) break; ex -= f; int d = dv(c); if (!d) { z += nd > 0; continue; } for (; z; z--) { nd++; if (nd <= 16) m *= 10; } nd++; if (nd <= 16) m = m * 10 + d; }
    ex += z;
    if (s.i < j->i) { s.i++; int c = peek(&s); if (c == '+' || c == '-') { en = c == '-'; s.i++; } for (; s.i < j->i; s.i++) if (e < 1000) e = e * 10 + dv(peek(&s)); }
    ex += en ? -e : e; *v = 0; if (nd > 15 || (m && (ex > 22 || ex < -22))) { *known = 0; return 1; }
    double p = 1; if (m) for (int k = 0; k < (ex < 0 ? -ex : ex); k++) p *= 10;
    double r = ex < 0 ? (double)m / p : (double)m * p; *v = neg ? -r : r; return 1; }
// walks the elements of an array: 0 at the end, 1 at an element (j at its first byte)
static int elem(js *j, int *first) { if (*first) { j->i++; ws(j); *first = 0; if (peek(j) == ']') { j->i++; return 0; } return 1; } ws(j); int c = peek(j); j->i++; if (c == ']') return 0; ws(j); return 1; }
static int position(js *j, D *d, double *xy, int *known, const struct tg_point *p) {
    if (peek(j) != '[') return 0; double v[8]; int k = 0, kn[8], f = 1;
    while (elem(j, &f)) { int c = peek(j); if (c != '-' && !dig(c)) return 0; double t; int q; if (!number(j, &t, &q)) return 0; if (k < 8) { v[k] = t; kn[k] = q; k++; } }
    if (k < 2) return 0; if (k > 4) { d->lax = 1; k = 4; }
    if (!d->nd) d->nd = k; if (d->nd != k) return 0;
    xy[0] = v[0]; xy[1] = v[1]; *known &= kn[0] & kn[1];
    if (p) { if (kn[0]) d->match &= p->x == v[0]; if (kn[1]) d->match &= p->y == v[1]; for (int i = 2; i < k; i++) { if (d->ie >= d->ne) { d->match = 0; return 1; } if (kn[i]) d->match &= d->e[d->ie] == v[i]; d->ie++; } }
    return 1; }
static int series(js *j, D *d, int ring, const struct tg_point *p, int np) {
    if (peek(j) != '[') return 0; double a[2] = { 0, 0 }, b[2] = { 0, 0 }; int n = 0, known = 1, f = 1, kn = 1;
    while (elem(j, &f)) { kn = 1; if (!position(j, d, b, &kn, n < np ? p + n : 0)) return 0; if (!n) { a[0] = b[0]; a[1] = b[1]; known = kn; } n++; }
    if (n < (ring ? 3 : 2)) return 0; if (ring && n == 3) d->lax = 1;
    if (ring) { if (!(known & kn)) d->lax = 1; else if (a[0] != b[0] || a[1] != b[1]) return 0; }
    if (p) d->match &= n == np; return 1; }
static int polygon(js *j, D *d, const struct tg_poly *y, int *none) {
    if (peek(j) != '[') return 0; int n = 0, f = 1;
    while (elem(j, &f)) { const struct tg_ring *r = y ? n ? tg_poly_hole_at(y, n - 1) : tg_poly_exterior(y) : 0; if (y && !r) d->match = 0; if (!series(j, d, 1, r ? tg_ring_points(r) : 0, tg_ring_num_points(r))) return 0; n++; }
    *none = n == 0; if (y && n) d->match &= tg_poly_num_holes(y) == n - 1; return 1; }
static int same(const uint8_t *b, int s, int e, const char *w, int *lax) { // is the string b[s..e) (with quotes) the word w?
    int i = s + 1, k = 0; for (; i < e - 1; i++, k++) { int c = b[i];
        if (c == '\\') { int h = 0; if (b[i + 1] != 'u') { if (b[i + 1] != '/' && b[i + 1] != '"' && b[i + 1] != '\\') return 0; c = b[++i]; } else { for (int q = 2; q < 6; q++) { int x = b[i + q]; h = h * 16 + (x <= '9' ? x - '0' : (x | 32) - 'a' + 10); } i += 5; c = h; } }
        if (!w[k] || c != (unsigned char)w[k]) return 0; }
    return !w[k]; }
static const char *const NM[] = { "", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection", "Feature", "FeatureCollection" };
static int has(const char *x, const uint8_t *b, int s, int e) { if (!x) return 0; int n = e - s; for (; *x; x++) { int k = 0; while (k < n && x[k] && (uint8_t)x[k] == b[s + k]) k++; if (k == n) return 1; } return 0; }
// role: 0 any object, 1 geometry only, 2 feature only
static int object(js *j, const G *g, int *match, int *lax, int role, int depth) {
    if (peek(j) != '{') return 0; int ts = -1, te = 0, m[24][4], nm = 0; js q = *j; q.i++; ws(&q);
    if (peek(&q) != '}') for (;;) { ws(&q); int ks = q.i; if (!str(&q)) return 0; int ke = q.i; ws(&q); q.i++; ws(&q); int vs = q.i; if (!val(&q)) return 0; // the text is known to be valid JSON
        if (nm == 24) { *lax = 1; return 1; } m[nm][0] = ks; m[nm][1] = ke; m[nm][2] = vs; m[nm][3] = q.i; nm++;
        if (same(q.b, ks, ke, "type", lax)) { if (ts >= 0) *lax = 2; else ts = vs, te = q.i; }
        ws(&q); int c = peek(&q); q.i++; if (c == '}') break; }
    else q.i++;
    j->i = q.i; if (ts < 0 || q.b[ts] != '"') return 0;
    int t = 0; for (int k = 1; k <= 9; k++) if (same(q.b, ts, te, NM[k], lax)) t = k;
    if (!t || (role == 1 && t > 7) || (role == 2 && t != 8)) return 0;
    const char *tn = t < 7 ? "coordinates" : t == 7 ? "geometries" : t == 8 ? "geometry" : "features"; int s = -1, props = 0, id = 0;
    for (int k = 0; k < nm; k++) {
        if (same(q.b, m[k][0], m[k][1], "type", lax)) continue;
        if (same(q.b, m[k][0], m[k][1], tn, lax)) { if (s >= 0) *lax = 2; s = m[k][2]; continue; }
        int keep = 1; for (int o = 0; o < k; o++) if (m[o][1] - m[o][0] == m[k][1] - m[k][0] && !memcmp(q.b + m[o][0], q.b + m[k][0], m[k][1] - m[k][0])) keep = 0;
        if (t == 8 && same(q.b, m[k][0], m[k][1], "properties", lax)) { if (props++) *lax = 2; int c = q.b[m[k][2]]; if (c != '{' && c != 'n') return 0; js e = { q.b, q.n, m[k][2] + 1 }; ws(&e); if (c == 'n' || peek(&e) == '}') keep = 0; }
        if (t == 8 && same(q.b, m[k][0], m[k][1], "id", lax)) { if (id++) *lax = 2; int c = q.b[m[k][2]]; if (c != '"' && c != '-' && !dig(c)) return 0; }
        if (g && keep && *lax < 2) *match &= has(tg_geom_extra_json(g), q.b, m[k][0], m[k][1]) & has(tg_geom_extra_json(g), q.b, m[k][2], m[k][3]); } // foreign members are kept
    if (t == 8 && !props) *lax |= 1;
    if (s < 0) return 0;
    js v = { q.b, q.n, s }; int c = peek(&v);
    if (t == 8) { if (g) *match &= tg_geom_is_feature(g) && !tg_geom_is_featurecollection(g); if (c == 'n') { if (g) *match &= tg_geom_is_empty(g); return 1; } if (depth > 3) *lax = 1; 
        const char *x = tg_geom_extra_json(g); (void)x; return object(&v, g, match, lax, 4, depth + 1); }
    if (g) *match &= (int)tg_geom_typeof(g) == (t == 9 ? 7 : t) && tg_geom_is_featurecollection(g) == (t == 9) && (role == 4 || !tg_geom_is_feature(g));
    if (t > 7 && role == 4) return 0;
    if (c != '[') return 0;
    js em = v; em.i++; ws(&em); if (peek(&em) == ']') { *lax |= 1; if (g) *match &= tg_geom_is_empty(g); return 1; }
    if (g && !*match) g = 0;
    D d = { 0, 1, 0, tg_geom_extra_coords(g), tg_geom_num_extra_coords(g), 0 }; double pe[2], xy[2]; int kn = 1, n = 0, f = 1, none = 0; struct tg_point p;
    if (g && t == TG_POINT) { d.e = pe; d.ne = tg_geom_has_z(g) + tg_geom_has_m(g); pe[0] = tg_geom_z(g); pe[1] = tg_geom_m(g); }
    switch (t) {
    case TG_POINT: p = tg_geom_point(g); if (!position(&v, &d, xy, &kn, g ? &p : 0)) return 0; break;
    case TG_LINESTRING: if (!series(&v, &d, 0, g ? tg_line_points(tg_geom_line(g)) : 0, tg_line_num_points(tg_geom_line(g)))) return 0; break;
    case TG_POLYGON: if (!polygon(&v, &d, tg_geom_poly(g), &none)) return 0; break;
    default:
        while (elem(&v, &f)) {
            if (t == TG_MULTIPOINT) { p = tg_geom_point_at(g, n); if (!position(&v, &d, xy, &kn, g ? &p : 0)) return 0; }
            else if (t == TG_MULTILINESTRING) { const struct tg_line *l = tg_geom_line_at(g, n); if (!series(&v, &d, 0, l ? tg_line_points(l) : 0, tg_line_num_points(l))) return 0; }
            else if (t == TG_MULTIPOLYGON) { if (!polygon(&v, &d, tg_geom_poly_at(g, n), &none)) return 0; if (none) return 0; }
            else { int lx = 0; if (!object(&v, tg_geom_geometry_at(g, n), &d.match, &lx, t == 7 ? 1 : 2, depth + 1)) return 0; *lax |= lx; }
            n++; }
        if (g) d.match &= n == (t == TG_MULTIPOINT ? tg_geom_num_points(g) : t == TG_MULTILINESTRING ? tg_geom_num_lines(g) : t == TG_MULTIPOLYGON ? tg_geom_num_polys(g) : tg_geom_num_geometries(g)); }
    *lax |= d.lax;
    if (g && t < 7) d.match &= tg_geom_dims(g) == d.nd && tg_geom_has_z(g) == (d.nd > 2) && tg_geom_has_m(g) == (d.nd > 3) && d.ie == d.ne;
    if (g) *match &= d.match; return 1; }
#define Z10 "0000000000"
#define Z100 Z10 Z10 Z10 Z10 Z10 Z10 Z10 Z10 Z10 Z10
#define Q(t, c) "{\"type\":\"" t "\",\"coordinates\":" c "}"
#if PART == 3
#include "shape.h"
#endif
static const char *const T[] = {
#if PART == 0 // numbers, positions, nesting of coordinates
    Q("Point", "[?,2]"), Q("Point", "[1?,2]"), Q("Point", "[1,-?]"), Q("Point", "[1.?,2]"), Q("Point", "[1e?,2]"), Q("Point", "[1E-?1,2]"), Q("Point", "[1,2,3?4]"), Q("Point", "[1,2?3,4]"), Q("Point", "[1,2,3,4,5?]"), Q("Point", "[1,2]?"), Q("Point", "[[1,2]?"), Q("Point", "[1?2]"), Q("Point", "[?]"), Q("Point", "[1,\"?\"]"), Q("Point", "[1,2,null?]"), Q("Point", "[123456789012345.?,0.00?]"), Q("Point", "[1,2,3,?]"), Q("Point", "[1.5" Z100 Z100 Z100 Z100 Z100 Z10 "?,2]"), Q("Point", "[1,0." Z100 Z100 Z100 Z100 Z100 Z10 Z10 "1?e+521]"),
    Q("LineString", "[[1,2]?[3,4]]"), Q("LineString", "[[1,2],[3,4?]]"), Q("LineString", "[[1,2,3],[3,4,?]]"), Q("LineString", "[[1,2,3],[3,4?5]]"), Q("LineString", "[[1,2],?]"), Q("LineString", "[?1,2],[3,4]]"), Q("LineString", "[[1,2,3,4],[5,6,7,8]?]"),
    Q("Polygon", "[[[0,0],[1,0],[1,1],[0,?]]]"), Q("Polygon", "[[[0,0],[1,0],[1,1],[0,0]]?[[5,5],[6,5],[6,6],[5,5]]]"), Q("Polygon", "[[[0,0],[1,0],[1,1],[0,0]]?]"), Q("Polygon", "[[[0,0],[1,0],[0,0]?]]"), Q("Polygon", "[[[0,0,1],[1,0,2],[1,1,3],[0,0,?]]]"), Q("Polygon", "[??]"), Q("Polygon", "[[[0,0,1,2],[1,0,3,4],[1,1,5,6],[0,0,7,8]],[[5,5,1,2],[6,5,3,4],[6,6,5,6],[5,5,7?8]]]"),
    Q("MultiPoint", "[[1,2]?[3,4]]"), Q("MultiPoint", "[[1,2,3],[3,4?5]]"), Q("MultiPoint", "[?]"), Q("MultiLineString", "[[[1,2],[3,4]]?[[5,6],[7,8]]]"), Q("MultiLineString", "[[[1,2],[3,4]],[?]]"), Q("MultiLineString", "[[[1,2,3],[3,4,5]],[[5,6?7],[7,8,9]]]"), Q("MultiPolygon", "[[[[0,0],[1,0],[1,1],[0,0]]]?[[[5,5],[6,5],[6,6],[5,5]]]]"), Q("MultiPolygon", "[[[[0,0],[1,0],[1,1],[0,0]]?[[5,5],[6,5],[6,6],[5,5]]]]"), Q("MultiPolygon", "[[?]]"), Q("MultiPolygon", "[?]"), Q("MultiLineString", "[?]"),
#elif PART == 1 // member names, types, order, duplicates
    Q("Poin?", "[1,2]"), Q("?oint", "[1,2]"), Q("Point?", "[1,2]"), Q("P\\u006?int", "[1,2]"), Q("Point\\u00?0", "[1,2]"), Q("", "[1,2]?"), "{\"typ?\":\"Point\",\"coordinates\":[1,2]}", "{\"type\":\"Point\",\"coordinate?\":[1,2]}", "{\"coordinates\":[1,2],\"type\":\"?oint\"}", "{\"coordinates\":[1,2]?\"type\":\"Point\"}", "{\"\\u007?ype\":\"Point\",\"coordinates\":[1,2]}", "{\"type?\":1,\"type\":\"Point\",\"coordinates\":[1,2]}", "{\"type\":?,\"coordinates\":[1,2]}", "{\"type\":\"Point\",\"coordinates\":?}", "{\"type\":\"Point\",\"coordinates\":\"?\"}", "{\"type\":\"Point\",\"coordinates\":[1,2],\"coordinates\":[3,?]}", "{\"type\":\"Point\"?}", " {\"type\":\"Point\",\"x\":1,\"coordinates\":[1,2],\"y\":[?]}", "{\"type\":\"Point\",\"coordinates\\u000?\":[1,2]}", "{\"type\":\"LineString\",\"a?\":{\"b\":[1]},\"coordinates\":[[1,2],[3,4]]}", "{\"type\":\"MultiPoint\",\"coordinates\":[[1,2]],\"b?box\":[1,2,3,4]}",
    "{\"type\":\"LineString\",\"coordinates\":null?}", "[?]", "\"?\"", "?", "{?}", "{\"type\":{},\"coordinates\":[1,?]}", "{\"type\":\"Polygon\",\"geometries\":[?]}", "{\"type\":\"LongLongLongLongLongLongPoint?\",\"coordinates\":[1,2]}", "{\"type\":\"Point\",\"coordinates\":[1,2],\"geometry\":?}",
#elif PART == 2 // collections, features and feature collections
    "{\"type\":\"GeometryCollection\",\"geometries\":[" Q("Point", "[1,2]") "?" Q("LineString", "[[1,2],[3,?]]") "]}", "{\"type\":\"GeometryCollection\",\"geometries\":[?]}", "{\"type\":\"GeometryCollection\",\"geometries\":[" Q("Point", "[1,2]") "],\"geometrie?\":[]}", "{\"type\":\"GeometryCollection\",\"geometries\":[{\"type\":\"GeometryCollection\",\"geometries\":[" Q("Point", "[1,2,?]") "]}," Q("Point", "[1,2]") "]}", "{\"type\":\"GeometryCollection\",\"geometries\":{?}}", "{\"type\":\"GeometryCollection\",\"geometries\":[{\"type\":\"Featur?\",\"geometry\":" Q("Point", "[1,2]") ",\"properties\":{}}]}",
    "{\"type\":\"Feature\",\"geometry\":" Q("Point", "[1,?]") ",\"properties\":{\"a\":1}}", "{\"type\":\"Feature\",\"geometry\":" Q("Point", "[1,2]") ",\"properties\":?}", "{\"type\":\"Feature\",\"geometry\":" Q("Point", "[1,2]") ",\"properties\":{?}}", "{\"type\":\"Feature\",\"geometry\":" Q("Point", "[1,2]") ",\"id\":?,\"properties\":null}", "{\"type\":\"Feature\",\"geometry\":" Q("Point", "[1,2]") ",\"id\":\"?\",\"properties\":null}", "{\"type\":\"Feature\",\"geometry\":" Q("Point", "[1,2]") ",\"i?\":true,\"properties\":{\"x\":[]}}", "{\"type\":\"Feature\",\"geometry\":null,\"properties\":{\"?\":2}}", "{\"type\":\"Feature\",\"geometry\":[?],\"properties\":{}}", "{\"type\":\"Feature\",\"geometr?\":null,\"properties\":{}}", "{\"id\":7,\"properties\":{\"q\":\"\\n?\"},\"geometry\":{\"type\":\"LineString\",\"x\":5,\"coordinates\":[[1,2],[3,4]]},\"type\":\"Feature\",\"z?\":1}", "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Feature?\",\"geometry\":null,\"properties\":null},\"properties\":{}}", "{\"type\":\"Feature\",\"geometry\":{\"type\":\"GeometryCollection\",\"geometries\":[" Q("Point", "[1,?]") "]},\"properties\":{}}",
    "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2],\"bbox\":[1]},\"properties\":{\"p?\":1}}", "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Polygon\",\"coordinates\":[],\"x\":?},\"properties\":{\"p\":1}}", "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"x\":\"?\",\"coordinates\":[1,2]}}",
    "{\"type\":\"FeatureCollection\",\"features\":[?]}", "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":null,\"properties\":{}}?{\"type\":\"Feature\",\"geometry\":" Q("Point", "[1,2]") ",\"properties\":{\"n\":?}}],\"name\":\"a\"}", "{\"type\":\"FeatureCollection\",\"features\":[" Q("Point", "[1,?]") "]}", "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"FeatureCollectio?\",\"features\":[]}]}", "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"id\":\"a?\",\"geometry\":" Q("Polygon", "[[[0,0],[1,0],[1,1],[0,0]]]") ",\"properties\":{}}],\"x\":?}",
#else
    ""
#endif
};
void harness(void) {
#if PART == 3
    static char tx[600]; int n = shape(tx, 1); uint8_t *b = malloc(n); memcpy(b, tx, n);
#else
    int k = sx_choose((int)(sizeof T / sizeof *T), "t"), n = strlen(T[k]); uint8_t *b = malloc(n);
    for (int i = 0; i < n; i++) b[i] = T[k][i] == '?' ? (uint8_t)sx_bits(8, "b") : (uint8_t)T[k][i];
#endif
    G *g = tg_parse_geojsonn_ix((char *)b, n, IX); sx_assert(g != 0, "an object is returned"); int ok = !tg_geom_error(g), match = 1, lax = 0, v = valid(b, n);
    if (v) { js j = { b, n, 0 }; ws(&j); v = object(&j, ok ? g : 0, &match, &lax, 0, 0); }
    if (ok) { sx_reach("ok"); sx_assert(v || lax > 1, "text that is not GeoJSON is rejected"); if (lax < 2) sx_assert(match, "the geometry is the one the text describes"); }
    else { sx_reach("err"); sx_assert(!v || lax, "well formed GeoJSON is accepted"); }
    sx_observe(ok); tg_geom_free(g); free(b); sx_assert(sx_live() == 0, "leak"); }
