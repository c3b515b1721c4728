// nesting: below the limit input parses to that depth, past it the parsers answer with an error; never unbounded recursion
#define CO 2
#include "cat.h"
static char *dup(char *b, const char *s, int n, size_t *i) { size_t k = strlen(s); while (n--) { memcpy(b + *i, s, k); *i += k; } return b; }
static void le(char *b, size_t *i, uint32_t v) { memcpy(b + *i, &v, 4); *i += 4; }
void harness(void) {
    static const int D[] = { 1, 2, 40, 1020, 1100, 9000 };
    int f = sx_choose(6, "fmt"), di = sx_choose(6, "depth"), d = D[di]; char *b = malloc(d * 50 + 100); size_t i = 0; G *g;
    if (f == 0 && d == 1020) d = 150; if (f == 0 && d == 9000) d = 2000; if (f == 0) { dup(b, "GEOMETRYCOLLECTION(", d, &i); dup(b, "POINT(1 2)", 1, &i); dup(b, ")", d, &i); }
    else if (f == 1) { int q = d > 400 && d < 1100 ? 400 : d; d = q; dup(b, "{\"type\":\"GeometryCollection\",\"geometries\":[", d, &i); dup(b, "{\"type\":\"Point\",\"coordinates\":[1,2]}", 1, &i); dup(b, "]}", d, &i); }
    else if (f == 2) { while (i < (size_t)d * 9) { b[i++] = 1; le(b, &i, 7); le(b, &i, 1); } b[i++] = 1; le(b, &i, 1); memset(b + i, 0, 16); i += 16; }
    else if (f == 3) { b[0] = 3; b[1] = 0; i = 2; for (int k = 0; k < d; k++) { b[i++] = 4; b[i++] = 0; b[i++] = 0; le(b, &i, 1); } b[i++] = 1; b[i++] = 1; le(b, &i, 1); memset(b + i, 0, 16); i += 16; }
    else if (f == 4) { dup(b, "{\"type\":\"Point\",\"coordinates\":[1,2],\"x\":", 1, &i); int q = d > 400 && d < 1100 ? 400 : d; d = q; dup(b, "[", d, &i); dup(b, "]", d, &i); dup(b, "}", 1, &i); }
    else { dup(b, "(", d, &i); dup(b, "POINT(1 2)", 1, &i); dup(b, ")", d, &i); }
    char *c = malloc(i); memcpy(c, b, i); free(b);
    g = f == 2 ? tg_parse_wkb((uint8_t *)c, i) : f == 3 ? tg_parse_geobin((uint8_t *)c, i) : f == 1 || f == 4 ? tg_parse_geojsonn(c, i) : tg_parse_wktn(c, i);
    sx_assert(g != 0, "an object is returned"); int ok = !tg_geom_error(g);
    if (d > 1024 && f != 5) sx_assert(!ok, "input nested too deeply is an error");
    if (f == 5 || f == 3) { if (f == 5) sx_assert(!ok, "parens are not WKT"); }
    else if (d <= 1024) { sx_assert(ok, "input within the nesting limit is accepted"); int n = 0; const G *p = g; while (tg_geom_num_geometries(p) == 1) { p = tg_geom_geometry_at(p, 0); n++; } sx_assert(n == (f == 4 ? 0 : d), "nothing is lost"); sx_assert(tg_geom_typeof(p) == TG_POINT, "innermost"); sx_reach("deep"); }
    if (ok && d <= 40) { G *k = tg_geom_copy(g); sx_assert(k && deep_eq(g, k), "copy"); tg_geom_free(k); }
    sx_observe(ok); tg_geom_free(g); free(c); sx_assert(sx_live() == 0, "leak"); sx_reach("end");
}
