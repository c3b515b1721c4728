// tg_parse_wkb over N arbitrary bytes: no memory error, and whatever is accepted is what the bytes say (independent reader);
// the result survives every writer and accessor
#include "cat.h"
#ifndef N
#define N 21
#endif
void harness(void) {
    uint8_t *buf = malloc(N); for (int i = 0; i < N; i++) buf[i] = (uint8_t)sx_bits(8, "b");
#ifdef TYPE // byte order and dimensions chosen, the rest arbitrary
    int be = sx_choose(2, "be"), t = TYPE + 1000 * sx_choose(4, "dims"); memset(buf, 0, 5); buf[0] = !be; buf[be ? 4 : 1] = t & 255; buf[be ? 3 : 2] = t >> 8;
#endif
    G *g = tg_parse_wkb_ix(buf, N, IX);
    if (g) {
        if (tg_geom_error(g)) { sx_reach("err"); sx_observe(0); }
        else { sx_reach("ok"); observe(g);
#ifndef SAFETY
            wr w = { buf, N, 0, 1, 0 }; int d = wkb_describes(&w, g); sx_assert(d || w.skip, "accepted WKB describes the geometry");
#else
            size_t n; char *o = put(W_WKB, g, 0, &n); free(o); o = put(W_GEOBIN, g, 0, &n); free(o);
            double mn[4], mx[4]; tg_geom_fullrect(g, mn, mx); tg_geom_memsize(g);
            G *c = tg_geom_copy(g); if (c) sx_assert(deep_eq(g, c), "copy of the parsed geometry"); tg_geom_free(c);
#endif
        }
        tg_geom_free(g); }
    free(buf);
    sx_assert(sx_live() == 0, "leak");
}
