// deep copies and clones of every catalogue geometry: equal, independent of the original's lifetime, nothing leaked
#include "cat.h"
#ifndef KLO
#define KLO 0
#define KHI K_N
#endif
static const char *J[] = { "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":{\"a\":[1,\"x\"]},\"id\":\"q\"}",
    "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"id\":7,\"geometry\":{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]]},\"properties\":null}],\"extra\":true}",
    "{\"type\":\"Polygon\",\"coordinates\":[[[0,0],[4,0],[4,4],[0,0]]],\"foo\":{\"b\":1}}", "{\"type\":\"MultiPoint\",\"coordinates\":[[0,0,5],[4,0,6]],\"foo\":{\"b\":1}}" };
void harness(void) {
    int k = KLO + sx_choose(KHI - KLO + 5, "kind"); G *g = k < KHI ? cat(k) : k == KHI + 4 ? tg_geom_new_error("boom") : tg_parse_geojson(J[k - KHI]);
    sx_assert(g != 0, "geometry");
    int64_t l0 = sx_live();
    G *c = tg_geom_copy(g), *d = tg_geom_clone(g); sx_assert(c && d, "copy and clone succeed");
    sx_assert(c != g, "a copy is a new object"); sx_assert(deep_eq(g, c), "copy equals the original"); sx_assert(deep_eq(g, d), "clone equals the original");
    sx_assert(tg_geom_memsize(c) > 0, "memsize");
    int ord = sx_choose(3, "order");
    if (ord == 0) { tg_geom_free(g); sx_assert(deep_eq(c, d), "copy and clone outlive the original"); tg_geom_free(d); G *e = tg_geom_copy(c); sx_assert(deep_eq(c, e), "copy of a copy"); tg_geom_free(e); size_t n; char *b = put(W_GEOBIN, c, 0, &n); free(b); tg_geom_free(c); }
    else if (ord == 1) { tg_geom_free(c); sx_assert(deep_eq(g, d), "freeing the copy leaves the original"); tg_geom_free(d); size_t n; char *b = put(W_GEOBIN, g, 0, &n); free(b); tg_geom_free(g); }
    else { tg_geom_free(d); sx_assert(deep_eq(g, c), "freeing the clone leaves the original"); tg_geom_free(c); sx_assert(sx_live() == l0, "copy and clone fully released"); tg_geom_free(g); }
    sx_assert(sx_live() == 0, "leak"); sx_reach("end");
}
