// what accepted WKT means: an independent reading of the text decides what must be accepted, what must be rejected and what geometry the text describes
#define CO 2
#include "cat.h"
typedef struct { const char *b; int n, i, lax; } W;                  // lax: outside the standard form, may be accepted or not
typedef struct { int nd, z, m, match; const double *e; int ne, ie; } D; // dimensions and Z/M values
static int pk(W *w) { return w->i < w->n ? (unsigned char)w->b[w->i] : -1; }
static int sp(W *w) { int k = 0; for (;; k++) { int c = pk(w); if (c == ' ' || c == '\t' || c == '\n' || c == '\r') w->i++; else return k; } }
static int dg(int c) { return c >= '0' && c <= '9'; }
static int dv(int c) { return (int)sx_concretize((uint64_t)(c - '0')); }
static int number(W *w, double *v, int *known) {
    long long s = 0; int nd = 0, ex = 0, neg = 0, any = 0, e = 0, en = 0;
    if (pk(w) == '-') { neg = 1; w->i++; }
    while (dg(pk(w))) { s = s * 10 + dv(pk(w)); nd += nd || pk(w) != '0'; any = 1; w->i++; if (nd > 16) { s = 0; *known = 0; nd = 16; } }
    if (!any) w->lax = 1;
    if (pk(w) == '.') { w->i++; int f = 0; while (dg(pk(w))) { s = s * 10 + dv(pk(w)); nd += nd || pk(w) != '0'; ex--; f = any = 1; w->i++; if (nd > 16) { s = 0; *known = 0; nd = 16; } } if (!f) return 0; }
    if (!any) return 0;
    if (pk(w) == 'e' || pk(w) == 'E') { w->i++; if (pk(w) == '+' || pk(w) == '-') en = w->b[w->i++] == '-'; if (!dg(pk(w))) return 0; while (dg(pk(w))) { if (e < 1000) e = e * 10 + dv(pk(w)); w->i++; } }
    ex += en ? -e : e; if (nd > 15 || (s && (ex > 22 || ex < -22))) { *known = 0; *v = 0; return 1; }
    double p = 1; if (s) for (int k = 0; k < (ex < 0 ? -ex : ex); k++) p *= 10;   // both factors are exact, so one operation rounds correctly
    double r = ex < 0 ? (double)s / p : (double)s * p; *v = neg ? -r : r; return 1; }
static int position(W *w, D *d, double *xy, int *known, const struct tg_point *p) { // p: the position the parser made of it, if any
    double v[5]; int k = 0, kn[5]; sp(w);
    for (;;) { if (k == 5) return 0; kn[k] = 1; if (!number(w, &v[k], &kn[k])) return 0; k++; int s = sp(w), c = pk(w); if (!s || !(dg(c) || c == '-' || c == '.')) break; }
    if (k < 2 || k > 4) return 0;
    if (!d->nd) d->nd = k; if (d->nd != k) return 0;
    xy[0] = v[0]; xy[1] = v[1]; *known &= kn[0] & kn[1];
    if (p) { if (kn[0]) d->match &= p->x == v[0]; if (kn[1]) d->match &= p->y == v[1]; for (int j = 2; j < k; j++) { if (d->ie >= d->ne) { d->match = 0; return 1; } if (kn[j]) d->match &= d->e[d->ie] == v[j]; d->ie++; } }
    return 1; }
// '(' positions ')' : a line or ring
static int series(W *w, D *d, int ring, const struct tg_point *p, int np) {
    double a[2] = { 0, 0 }, b[2] = { 0, 0 }; int n = 0, known = 1; if (pk(w) != '(') return 0; w->i++;
    for (;;) { int kn = 1; if (!position(w, d, b, &kn, n < np ? p + n : 0)) return 0; if (!n) { a[0] = b[0]; a[1] = b[1]; known = kn; } n++; sp(w); int c = pk(w); w->i++; if (c == ')') { known &= kn; break; } if (c != ',') return 0; }
    if (n < (ring ? 3 : 2)) return 0; if (ring && n == 3) w->lax = 1; // three positions close no area
    if (ring) { if (!known) w->lax = 1; else if (a[0] != b[0] || a[1] != b[1]) return 0; }
    if (p) d->match &= n == np; return 1; }
static int polygon(W *w, D *d, const struct tg_poly *y) {
    if (pk(w) != '(') return 0; w->i++; int n = 0;
    for (;;) { sp(w); const struct tg_ring *r = y ? n ? tg_poly_hole_at(y, n - 1) : tg_poly_exterior(y) : 0; if (y && !r) d->match = 0; if (!series(w, d, 1, r ? tg_ring_points(r) : 0, tg_ring_num_points(r))) return 0; n++; sp(w); int c = pk(w); w->i++; if (c == ')') break; if (c != ',') return 0; }
    if (y) d->match &= tg_poly_num_holes(y) == n - 1; return 1; }
static int word(W *w, char *o, int max) { int n = 0; for (;;) { int c = pk(w); if (c >= 'a' && c <= 'z') c -= 32; if (c < 'A' || c > 'Z') break; if (n < max) o[n] = (char)c; n++; w->i++; } o[n < max ? n : max] = 0; return n; }
static const char *const NM[] = { "", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION" };
static int dimword(const char *s, D *d) { if (!strcmp(s, "Z")) d->z = 1; else if (!strcmp(s, "M")) d->m = 1; else if (!strcmp(s, "ZM")) d->z = d->m = 1; else return 0; return 1; }
static int geometry(W *w, const G *g, int *match, int depth) {
    char s[24]; int t = 0; D d = { 0, 0, 0, 1, tg_geom_extra_coords(g), tg_geom_num_extra_coords(g), 0 }; double pe[2];
    sp(w); if (!word(w, s, 22)) return 0;
    for (int k = 1; k <= 7; k++) { int n = strlen(NM[k]); if (!strncmp(s, NM[k], n)) { if (!s[n]) t = k; else if (dimword(s + n, &d)) { t = k; w->lax = 1; } } }
    if (!t) return 0;
    int k = sp(w), empty = 0;
    if (pk(w) != '(') { if (!k || !word(w, s, 22)) return 0;
        if (strcmp(s, "EMPTY")) { if (d.z | d.m || !dimword(s, &d)) return 0; k = sp(w); if (pk(w) != '(') { if (!k || !word(w, s, 22) || strcmp(s, "EMPTY")) return 0; empty = 1; } } else empty = 1; }
    if (d.z | d.m) d.nd = 2 + d.z + d.m;
    if (g) d.match &= (int)tg_geom_typeof(g) == t;
    if (empty) { if (g) *match &= d.match & tg_geom_is_empty(g); return 1; }
    if (g && !d.match) g = 0, *match = 0;
    if (g && t == TG_POINT) { d.e = pe; d.ne = tg_geom_has_z(g) + tg_geom_has_m(g); pe[0] = tg_geom_has_z(g) ? tg_geom_z(g) : tg_geom_m(g); pe[1] = tg_geom_m(g); }
    int kn = 1, n = 0, par = 0; double xy[2]; struct tg_point q;
    switch (t) {
    case TG_POINT: w->i++; q = tg_geom_point(g); if (!position(w, &d, xy, &kn, g ? &q : 0)) return 0; sp(w); if (pk(w) != ')') return 0; w->i++; break;
    case TG_LINESTRING: if (!series(w, &d, 0, g ? tg_line_points(tg_geom_line(g)) : 0, tg_line_num_points(tg_geom_line(g)))) return 0; break;
    case TG_POLYGON: if (!polygon(w, &d, tg_geom_poly(g))) return 0; break;
    default: w->i++; sp(w);
        if (pk(w) == ')') { w->i++; w->lax = 1; if (g) *match &= tg_geom_is_empty(g); return 1; } // nothing between the parentheses
        for (;;) { sp(w);
            if (t == TG_MULTIPOINT) { int pr = pk(w) == '('; if (n && pr != par) w->lax = 1; par = pr; if (pr) w->i++; q = tg_geom_point_at(g, n); if (!position(w, &d, xy, &kn, g ? &q : 0)) return 0; if (pr) { sp(w); if (pk(w) != ')') return 0; w->i++; } }
            else if (t == TG_MULTILINESTRING) { const struct tg_line *l = tg_geom_line_at(g, n); if (!series(w, &d, 0, l ? tg_line_points(l) : 0, tg_line_num_points(l))) return 0; }
            else if (t == TG_MULTIPOLYGON) { if (!polygon(w, &d, tg_geom_poly_at(g, n))) return 0; }
            else { const G *c = tg_geom_geometry_at(g, n); if (depth > 4) w->lax = 1; if (!geometry(w, c, &d.match, depth + 1)) return 0; }
            n++; sp(w); int c = pk(w); w->i++; if (c == ')') break; if (c != ',') return 0; }
        if (g) d.match &= n == (t == TG_MULTIPOINT ? tg_geom_num_points(g) : t == TG_MULTILINESTRING ? tg_geom_num_lines(g) : t == TG_MULTIPOLYGON ? tg_geom_num_polys(g) : tg_geom_num_geometries(g)); }
    if (g && t != TG_GEOMETRYCOLLECTION) { int z = d.nd == 4 || (d.nd == 3 && !d.m), m = d.nd == 4 || (d.nd == 3 && d.m);
        d.match &= tg_geom_dims(g) == d.nd && tg_geom_has_z(g) == z && tg_geom_has_m(g) == m && d.ie == d.ne; }
    if (g) *match &= d.match; return 1; }
#if PART == 3
#include "shape.h"
#endif
static const char *const T[] = {
#if PART == 0 // numbers and positions
    "POINT(? 2)", "POINT(1? 2)", "POINT(1 ?2)", "POINT(-?? 2)", "POINT(1.?? 2)", "POINT(?.5 2)", "POINT(1e? 2)", "POINT(12E?? 2)", "POINT(1.5e-?1 2)", "POINT(1 2 3 4?)", "POINT(1 2?3)", "POINT(1 2 3??)", "POINT Z(1 2??)", "POINT M(1 2 3?4)", "POINT ZM(1 2 3?4)", "POINT(1?2 3)", "POINT M(1 2?)", "POINT ZM(1 2 3 4 ?)", "POINT(123456789012345? 2)", "POINT(0.00?5 1e2?)", "LINESTRING(1 2,3 4?5 6)", "LINESTRING(1 2?3 4)", "LINESTRING Z(1 2 3,4 5?6)", "LINESTRING(1 2 3,4 5?6)", "LINESTRING M(1 2 3,4 5 6?)", "LINESTRING(1 2 3 4,5 6 7 8?)", "LINESTRING(1 2,?)", "LINESTRING(1 2?", "MULTIPOINT(1 2 3,4 5 ?)",
#elif PART == 1 // parentheses, commas and nesting
    "POINT??1 2)", "POINT(1 2)??", "POINT((1 2??", "LINESTRING(1 2,3 4)?", "LINESTRING?(1 2,3 4)", "POLYGON((0 0,1 0,1 1,0 0)??", "POLYGON((0 0,1 0,1 1,0 0),?1 1,2 1,2 2,1 1))", "POLYGON((0 0,1 0,1 1,0 0)?(1 1,2 1,2 2,1 1))", "POLYGON((0 0,1 0,1 1,0 ?))", "POLYGON((0 0,1 0,0 0?))", "POLYGON Z((0 0 1,1 0 2,1 1 3,0 0?4))", "POLYGON((0 0 1,1 0 2,1 1 3,0 0 5),(1 1?2,2 1 3,2 2 4,1 1 5))", "MULTIPOINT((1 2)?(3 4))", "MULTIPOINT(1 2?3 4)", "MULTIPOINT(?1 2),(3 4))", "MULTIPOINT((1 2),?3 4))", "MULTIPOINT((1 2),(3 4)?", "MULTILINESTRING((1 2,3 4)?(5 6,7 8))", "MULTILINESTRING((1 2 3,4 5 6),(1 2?3,4 5 6))", "MULTILINESTRING(?1 2,3 4))", "MULTIPOLYGON(((0 0,1 0,1 1,0 0))?((5 5,6 5,6 6,5 5)))", "MULTIPOLYGON(((0 0,1 0,1 1,0 0)?,((5 5,6 5,6 6,5 5)))", "MULTIPOLYGON(((0 0,9 0,9 9,0 0),(2 1,3 1,3 2,2 1))?((5 5,6 5,6 6,5 5)))", "MULTIPOLYGON ZM(((0 0 1 2,1 0 3 4,1 1 5 6,0 0 7 8)),((5 5 1 2,6 5 3 4,6 6 5 6,5 5 7?8)))", "POLYGON(?", "MULTIPOLYGON((??))", "MULTILINESTRING(?)",
#elif PART == 2 // type names, dimensions, EMPTY, collections
    "P?INT(1 2)", "?OINT(1 2)", "POIN?(1 2)", "POINT?(1 2 3)", "POINT ?(1 2 3)", "POINT Z?(1 2 3 4)", "point ??(1 2 3)", "POINT EMPT?", "POINT?EMPTY", "POINT ? EMPTY", "POINT EMPTY??", "LINESTRING ??EMPTY", "POLYGON?EMPTY", "MULTIPOINT EMPTY?", "MULTIPOLYGON ?M EMPTY", "GEOMETRYCOLLECTION?EMPTY", "GEOMETRYCOLLECTION(POINT(1 2)?POINT(3 4))", "GEOMETRYCOLLECTION(POINT(1 2),?POINT(3 4))", "GEOMETRYCOLLECTION(POINT EMPTY?POINT(3 4))", "GEOMETRYCOLLECTION(POINT(1 2),POINT EMPTY?", "GEOMETRYCOLLECTION(?)", "GEOMETRYCOLLECTION(GEOMETRYCOLLECTION(POINT(1 2))?LINESTRING(1 2,3 4))", "GEOMETRYCOLLECTION(POINT Z(1 2 3),POINT?(1 2 3))", "GEOMETRYCOLLECTION(POINT(1 2)??)", "GEOMETRYCOLLECTION(MULTIPOINT(1 2,3 4),POLYGON((0 0,1 0,1 1,0 0))?POINT(5 6))", "?", "??", "MULTI?OINT(1 2)", "MULTILINESTRIN?((1 2,3 4))", "? POINT(1 2)", "POINT ?\tZM\n(1 2 3 4)", "LINESTRINGZ?(1 2 3,4 5 6)", "GEOMETRYCOLLECTION(LINESTRING(1 2,3 4),POINT(1 2)?,POINT(3 4))", "GEOMETRYCOLLECTION(POINT ?EMPTY,POINT(1 2))",
#else
    ""
#endif
};
void harness(void) {
#if PART == 3
    static char tx[600]; int n = shape(tx, 0); char *b = malloc(n); memcpy(b, tx, n);
#else
    int k = sx_choose((int)(sizeof T / sizeof *T), "t"), n = strlen(T[k]); char *b = malloc(n);
    for (int i = 0; i < n; i++) b[i] = T[k][i] == '?' ? (char)sx_bits(8, "b") : T[k][i];
#endif
    G *g = tg_parse_wktn_ix(b, n, IX); sx_assert(g != 0, "an object is returned"); int ok = !tg_geom_error(g), match = 1;
    W w = { b, n, 0, 0 }; int v = geometry(&w, ok ? g : 0, &match, 0); if (v) { sp(&w); v = w.i == n; }
    if (ok) { sx_reach("ok"); sx_assert(v, "text that is not WKT is rejected"); sx_assert(match, "the geometry is the one the text describes"); }
    else { sx_reach("err"); sx_assert(!v || w.lax, "well formed WKT is accepted"); }
    sx_observe(ok); tg_geom_free(g); free(b); sx_assert(sx_live() == 0, "leak"); }
