// long inputs: a geometry of N parts (more than any first allocation holds) is read from text, or written and read back, without loss
#define CO 2
#include "cat.h"
#ifndef N
#define N 1100
#endif
#ifndef FMT
#define FMT 0 // 0 WKT, 1 GeoJSON, 2 WKB, 3 GeoBIN, 4 hex
#endif
static char t[N * 120 + 4096]; static int tn, K, dims, kind, np; static double V;
static void ps(const char *s) { while (*s) t[tn++] = *s++; }
static void pn(int v) { char b[12]; int k = 0; do b[k++] = '0' + v % 10; while (v /= 10); while (k) t[tn++] = b[--k]; }
static double vx(int i) { return i == K ? V : i % 97; }
static int digit;
static void pos(int i) { // position i of the text
    const char *s = FMT == 1 ? "," : " "; if (FMT == 1) ps("[");
    if (i == K) { ps("5."); t[tn++] = '0' + digit; } else pn(i % 97);
    ps(s); pn(i % 89); if (dims > 2) { ps(s); pn(i % 7 + 1); } if (dims > 3) { ps(s); pn(i % 5 + 1); } if (FMT == 1) ps("]"); np++; }
static void ser(int i, int ring) { ps(FMT == 1 ? "[" : "("); int a = np; for (int k = 0; k < (ring ? 4 : 2); k++) { if (k) ps(","); if (ring && k == 3) { int s = np; pos(a); np = s + 1; } else pos(np); } ps(FMT == 1 ? "]" : ")"); }
static int at(int p, int ring) { return ring && p % 4 == 3 ? p - 3 : p; } // the number written at place p
static int okp(struct tg_point p, int i) { return (p.x == vx(i)) & (p.y == i % 89); }
static int okx(const G *g, int n, int ring) { // Z and M of n positions
    const double *e = tg_geom_extra_coords(g); int ne = tg_geom_num_extra_coords(g), ok = ne == n * (dims - 2), j = 0;
    if (ok) for (int i = 0; i < n; i++) { int a = at(i, ring); if (dims > 2) ok &= e[j++] == a % 7 + 1; if (dims > 3) ok &= e[j++] == a % 5 + 1; } return ok; }
static int check(const G *g) { int ok = 1;
    if (tg_geom_error(g)) return 0;
    if (kind != 2) ok &= (tg_geom_has_z(g) == (dims > 2)) & (tg_geom_has_m(g) == (dims > 3));
    switch (kind) {
    case 0: { const struct tg_line *l = tg_geom_line(g); if (!l || tg_line_num_points(l) != N) return 0; for (int i = 0; i < N; i++) ok &= okp(tg_line_point_at(l, i), i); return ok & okx(g, N, 0); }
    case 1: if (tg_geom_num_points(g) != N) return 0; for (int i = 0; i < N; i++) ok &= okp(tg_geom_point_at(g, i), i); return ok & okx(g, N, 0);
    case 2: if (tg_geom_num_geometries(g) != N) return 0; for (int i = 0; i < N; i++) { const G *c = tg_geom_geometry_at(g, i); ok &= (tg_geom_typeof(c) == TG_POINT) & okp(tg_geom_point(c), i); if (dims > 2) ok &= tg_geom_z(c) == i % 7 + 1; if (dims > 3) ok &= tg_geom_m(c) == i % 5 + 1; } return ok;
    case 3: if (tg_geom_num_lines(g) != N) return 0; for (int i = 0; i < N; i++) { const struct tg_line *l = tg_geom_line_at(g, i); if (tg_line_num_points(l) != 2) return 0; ok &= okp(tg_line_point_at(l, 0), 2 * i) & okp(tg_line_point_at(l, 1), 2 * i + 1); } return ok & okx(g, 2 * N, 0);
    case 4: { const struct tg_poly *y = tg_geom_poly(g); if (!y || tg_poly_num_holes(y) != N - 1) return 0; for (int i = 0; i < N; i++) { const struct tg_ring *r = i ? tg_poly_hole_at(y, i - 1) : tg_poly_exterior(y); if (tg_ring_num_points(r) != 4) return 0; for (int k = 0; k < 4; k++) ok &= okp(tg_ring_point_at(r, k), at(4 * i + k, 1)); } return ok & okx(g, 4 * N, 1); }
    default: if (tg_geom_num_polys(g) != N) return 0; for (int i = 0; i < N; i++) { const struct tg_ring *r = tg_poly_exterior(tg_geom_poly_at(g, i)); if (tg_ring_num_points(r) != 4) return 0; for (int k = 0; k < 4; k++) ok &= okp(tg_ring_point_at(r, k), at(4 * i + k, 1)); } return ok & okx(g, 4 * N, 1); } }
void harness(void) {
    kind = sx_choose(6, "kind"); dims = sx_choose(2, "dims") * 2 + 2;
    static const int ks[2] = { N / 2 - N / 2 % 4, N - 4 }; K = ks[sx_choose(2, "k")]; digit = sx_range(2, "digit"); V = (50 + digit) / 10.0;
    static const char *const names[2][6] = { { "LINESTRING", "MULTIPOINT", "GEOMETRYCOLLECTION", "MULTILINESTRING", "POLYGON", "MULTIPOLYGON" }, { "LineString", "MultiPoint", "GeometryCollection", "MultiLineString", "Polygon", "MultiPolygon" } };
    int json = FMT == 1; const char *o = json ? "[" : "(", *c = json ? "]" : ")";
    if (json) { ps("{\"type\":\"Feature\",\"geometry\":{\"type\":\""); ps(names[1][kind]); ps(kind == 2 ? "\",\"geometries\":" : "\",\"coordinates\":"); } else { ps(names[0][kind]); if (dims > 2) ps(dims > 3 ? " ZM" : " Z"); }
    ps(o); for (int i = 0; i < N; i++) { if (i) ps(",");
        if (kind == 2) { if (json) { ps("{\"type\":\"Point\",\"coordinates\":"); pos(i); ps("}"); } else { ps("POINT"); if (dims > 2) ps(dims > 3 ? " ZM" : " Z"); ps("("); pos(i); ps(")"); } }
        else if (kind < 2) pos(i); else { if (kind == 5) ps(o); ser(i, kind > 3); if (kind == 5) ps(c); } }
    ps(c); int p0 = 0, pl = 0; if (json) { ps("},\"properties\":{\"a\":\""); p0 = tn; for (int i = 0; i < N; i++) t[tn++] = 'a' + i % 23; pl = tn - p0; ps("\"}}"); }
    G *g = json ? tg_parse_geojsonn(t, tn) : tg_parse_wktn(t, tn);
    if (FMT > 1) { size_t n = FMT == 2 ? tg_geom_wkb(g, 0, 0) : FMT == 3 ? tg_geom_geobin(g, 0, 0) : tg_geom_hex(g, 0, 0); uint8_t *b = malloc(n + 1);
        size_t m = FMT == 2 ? tg_geom_wkb(g, b, n + 1) : FMT == 3 ? tg_geom_geobin(g, b, n + 1) : tg_geom_hex(g, (char *)b, n + 1); sx_assert(m == n, "length");
        tg_geom_free(g); g = FMT == 2 ? tg_parse_wkb(b, n) : FMT == 3 ? tg_parse_geobin(b, n) : tg_parse_hexn((char *)b, n); free(b); }
    sx_assert(check(g), "a long input is read as written");
    if (json) { const char *x = tg_geom_extra_json(g); sx_assert(x != 0, "members"); int ok = 0; for (int i = 0; x[i] && !ok; i++) if (x[i] == '"' && x[i + 1] == 'a' && x[i + 2] == 'b') ok = memcmp(x + i + 1, t + p0, pl) == 0 && x[i + 1 + pl] == '"'; sx_assert(ok, "a long member is kept"); }
    sx_reach("end"); tg_geom_free(g); sx_assert(sx_live() == 0, "leak"); }
