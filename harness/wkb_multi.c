// WKB collections: byte orders, dimensions, count fields, and child headers (right type, other dimensions, other type, bad type) vary;
// all coordinates and child counts are arbitrary bits; the buffer may end anywhere in a chosen set
#include "cat.h"
#ifndef TYPE
#define TYPE 4
#endif
#ifndef SLACK
#define SLACK 0
#endif
static uint8_t buf[400]; static int n;
static void u8(int v) { buf[n++] = (uint8_t)v; }
static void u32(int be, uint32_t v) { for (int i = 0; i < 4; i++) u8(v >> (be ? 24 - 8 * i : 8 * i)); }
static void any(int k) { for (int i = 0; i < k; i++) buf[n++] = (uint8_t)sx_bits(8, "b"); }
static int first = 1;
static void cnt(int be, int right) { int c = sx_choose(3, "cnt"); u32(be, c == 0 ? right : c == 1 ? 0 : 0x10000001); }
static int head(int base, int z) { // child header; returns the number of coordinate dimensions the child declares
    int be = sx_choose(2, "cbe"), h = first ? sx_choose(6, "ct") : 0, cz = h < 4 ? (z + h) & 3 : z; first = 0; u8(!be);
    u32(be, h < 4 ? base + 1000 * cz : h == 4 ? 1 + (base == 1) + 1000 * z : 9); return cz == 0 ? 2 : cz == 3 ? 4 : 3; }
void harness(void) {
    int be = sx_choose(2, "be"), z = sx_choose(4, "dims"), d;
    u8(!be); u32(be, TYPE + 1000 * z);
    int nc = TYPE == 6 ? 1 : 2; cnt(be, nc);
    for (int i = 0; i < nc; i++) {
        d = TYPE == 7 ? head(i ? 1 : 4, z) : head(TYPE - 3, z);
        if (TYPE == 4 || (TYPE == 7 && i)) any(8 * d);
        else if (TYPE == 5) { cnt(!buf[n - 5], 2); any(16 * d); }
        else if (TYPE == 6) { int e = !buf[n - 5]; cnt(e, 1); cnt(e, 3); any(8 * d * 3); }
        else { cnt(!buf[n - 5], 1); if (sx_choose(2, "one")) { d = head(1, z); any(8 * d); } }
    }
    static const int cut[] = { 0, 8, 17 }; n -= cut[sx_choose(3, "cut")];
    uint8_t *b = malloc(n); memcpy(b, buf, n);
    G *g = tg_parse_wkb_ix(b, n, IX);
    if (g) {
        if (tg_geom_error(g)) { sx_reach("err"); sx_observe(0); }
        else { sx_reach("ok"); observe(g); wr w = { b, n, 0, 1, 0 }; int k = wkb_describes(&w, g); sx_assert(k || w.skip, "accepted WKB describes the geometry"); }
        tg_geom_free(g); }
    free(b); sx_assert(sx_live() == 0, "leak");
}
