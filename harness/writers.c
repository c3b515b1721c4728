// every writer into a buffer of every size 0..len+1: returns the full length, writes a NUL-terminated prefix (text) or a prefix (binary),
// touches nothing past the stated size
#include "cat.h"
#ifndef KLO
#define KLO 0
#define KHI K_N
#endif
static size_t w(int k, const G *g, char *b, size_t n) { return k == 0 ? tg_geom_geojson(g, b, n) : k == 1 ? tg_geom_wkt(g, b, n) : k == 2 ? tg_geom_hex(g, b, n) : k == 3 ? W_WKB(g, b, n) : W_GEOBIN(g, b, n); }
static const char *J[] = { "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":{\"a\":[1,\"x\"]},\"id\":\"q\"}",
    "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"id\":7,\"geometry\":{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]]},\"properties\":null}],\"extra\":true}",
    "{\"type\":\"Polygon\",\"coordinates\":[[[0,0],[4,0],[4,4],[0,0]]],\"foo\":{\"b\":1}}", "{\"type\":\"FeatureCollection\",\"features\":[]}", "{\"type\":\"Feature\",\"geometry\":null,\"properties\":{}}" };
void harness(void) {
    tg_env_set_print_fixed_floats(sx_choose(2, "fixed"));
    G *g; int k = KLO + sx_choose(KHI - KLO + 6, "kind");
    if (k < KHI) g = cat(k); else if (k == KHI + 5) g = tg_geom_new_error("some error"); else g = tg_parse_geojson(J[k - KHI]);
    sx_assert(g != 0, "geometry");
    int f = sx_choose(5, "format"); size_t len = w(f, g, 0, 0);
    char *full = malloc(len + 1); size_t m = w(f, g, full, len + 1); sx_assert(m == len, "same length with a large enough buffer");
    if (f < 3) { sx_assert(full[len] == 0, "text is NUL terminated"); for (size_t i = 0; i < len; i++) sx_assert(full[i] != 0, "no NUL inside the text"); }
    static const int cand[] = { 0, 1, 2, 3, 5, 8, 9, 13, 20, 21, 33 };
    size_t n = cand[sx_choose(11, "n")]; int fe = sx_choose(2, "fromend"); if (fe) n = len + 1 > n ? len + 1 - n : 0; if (n > len + 1) n = len + 1;
    char *b = malloc(n); m = w(f, g, n ? b : 0, n); sx_assert(m == len, "length does not depend on the buffer size");
    if (f < 3) { size_t t = n == 0 ? 0 : n - 1 < len ? n - 1 : len; for (size_t i = 0; i < t; i++) sx_assert(b[i] == full[i], "a short buffer holds a prefix"); if (n) sx_assert(b[t] == 0, "a short buffer is NUL terminated"); }
    else for (size_t i = 0; i < n && i < len; i++) sx_assert(b[i] == full[i], "a short buffer holds a prefix");
    sx_observe(len); sx_observe(n); sx_reach("end");
    free(b); free(full); tg_geom_free(g); sx_assert(sx_live() == 0, "leak");
}
