// tg_parse reads any supported representation: for every catalogue geometry it gives what the named parser gives, and for
// arbitrary leading bytes it agrees with the parser of the format they select
#ifndef CO
#define CO 2
#endif
#include "cat.h"
static const char *const T[] = { "??", " ?{\"type\":\"Point\",\"coordinates\":[1,2]}", "?POINT(1 2)", "?", "01010000000000000000000000000000000000000?", "?101000000000000000000000000000000000000000", "POINT?1 2)", "P?", "?{}", "a?cdef", "0?" , "\n\t?POINT(1 2)", "abcdefabcdefabc?", "?\x01\x01\x01\x01", "FEDCBA98765432??",
    "                                        ?{\"type\":\"Point\",\"coordinates\":[1,2]}", "\n\t\r\v\f  \n\t\r \n\n\n\n\n\n\n\n\n\n\n\n?POINT(1 2)", "                                                                      ?" };
static int hexd(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int spc(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int same(const G *a, const G *b) { return a && b ? deep_eq(a, b) : a == b; }
void harness(void) {
    int k = sx_choose(K_N + 18, "t"); G *g, *h, *a;
    if (k < K_N) {
        g = cat(k); int f = sx_choose(5, "format"); size_t n; char *b = put(f == 0 ? W_WKB : f == 1 ? W_HEX : f == 2 ? W_GEOBIN : f == 3 ? W_WKT : W_JSON, g, 1, &n);
        a = tg_parse_ix(b, n, IX); h = f == 0 ? tg_parse_wkb_ix((uint8_t *)b, n, IX) : f == 1 ? tg_parse_hexn_ix(b, n, IX) : f == 2 ? tg_parse_geobin_ix((uint8_t *)b, n, IX) : f == 3 ? tg_parse_wktn_ix(b, n, IX) : tg_parse_geojsonn_ix(b, n, IX);
        sx_assert(a && !tg_geom_error(a) && same(a, h), "the representation is recognised");
        if (f == 1 || f > 2) { tg_geom_free(h); h = f == 1 ? tg_parse_hex_ix(b, IX) : f == 3 ? tg_parse_wkt_ix(b, IX) : tg_parse_geojson_ix(b, IX); sx_assert(same(a, h), "a terminated string is the same as its length"); }
        tg_geom_free(a); tg_geom_free(h); tg_geom_free(g); free(b); sx_reach("known");
    } else {
        const char *s = T[k - K_N]; int n = strlen(s); uint8_t *b = malloc(n); for (int i = 0; i < n; i++) b[i] = s[i] == '?' ? (uint8_t)sx_bits(8, "b") : (uint8_t)s[i];
        int i = 0; while (i < n && spc(b[i])) i++; int hx = 1; for (int q = 0; q < n && q < 16; q++) hx &= hexd(b[q]);
        int al = (b[0] >= 'a' && b[0] <= 'z') || (b[0] >= 'A' && b[0] <= 'Z') || hexd(b[0]);
        a = tg_parse_ix(b, n, IX);
        h = i < n && b[i] == '{' ? tg_parse_geojsonn((char *)b, n) : i ? tg_parse_wktn((char *)b, n) : hx ? tg_parse_hexn((char *)b, n) : al ? tg_parse_wktn((char *)b, n) : b[0] <= 1 ? tg_parse_wkb(b, n) : tg_parse_geobin(b, n);
        sx_assert(same(a, h), "the format is selected by the leading bytes"); sx_observe(tg_geom_error(a) != 0); tg_geom_free(a); tg_geom_free(h); free(b); sx_reach("unknown"); }
    sx_assert(sx_live() == 0, "leak");
}
