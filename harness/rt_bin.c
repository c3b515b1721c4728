// binary round trips for every catalogue geometry: WKB, hex, GeoBIN
#include "cat.h"
static int unhex(int c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : 999; }
#ifndef KLO
#define KLO 0
#define KHI K_N
#endif
void harness(void) {
    int k = KLO + sx_choose(KHI - KLO, "kind"); G *g = cat(k); sx_assert(g != 0, "constructor"); if (!g) return;
    sx_assert(tg_geom_error(g) == 0, "no error");
    size_t n; uint8_t *b = put(W_WKB, g, 0, &n);
    wr w = { b, n, 0, 1, 0 }; int d = wkb_describes(&w, g); sx_assert(d && !w.skip, "the WKB written describes the geometry"); sx_assert(w.i == n, "the WKB has no other bytes");
    G *p = tg_parse_wkb_ix(b, n, IX); sx_assert(p && !tg_geom_error(p), "the WKB written is accepted"); sx_assert(deep_eq(g, p), "WKB round trip");
    tg_geom_free(p);
    size_t hn; char *h = put(W_HEX, g, 1, &hn); sx_assert(hn == 2 * n && h[hn] == 0, "hex length");
    for (size_t i = 0; i < n; i++) { sx_assert(unhex(h[2 * i]) * 16 + unhex(h[2 * i + 1]) == b[i], "hex digits spell the WKB"); }
    free(h);
    size_t gn; uint8_t *gb = put(W_GEOBIN, g, 0, &gn);
    p = tg_parse_geobin_ix(gb, gn, IX); sx_assert(p && !tg_geom_error(p), "the GeoBIN written is accepted"); sx_assert(deep_eq(g, p), "GeoBIN round trip");
    sx_observe(n); sx_observe(gn); observe(p);
    tg_geom_free(p); free(gb); free(b); tg_geom_free(g); sx_assert(sx_live() == 0, "leak"); sx_reach("end");
}
