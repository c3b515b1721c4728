// text round trips for every catalogue geometry: WKT and GeoJSON written, read back and compared
#ifndef CO
#define CO 3
#endif
#include "cat.h"
#ifndef KLO
#define KLO 0
#define KHI K_N
#endif
// GeoJSON has no M alone and no per-child dimensions: what is read back shows the same positions
static int m_only(const G *g) { if (tg_geom_has_m(g) && !tg_geom_has_z(g)) return 1; for (int i = 0; i < tg_geom_num_geometries(g); i++) if (m_only(tg_geom_geometry_at(g, i))) return 1; return 0; }
void harness(void) {
    tg_env_set_print_fixed_floats(sx_choose(2, "fixed")); // both number formats
    int k = KLO + sx_choose(KHI - KLO, "kind"); G *g = cat(k); sx_assert(g != 0, "constructor");
    size_t n; char *b = put(W_WKT, g, 1, &n);
    G *p = tg_parse_wktn_ix(b, n, IX); sx_assert(p && !tg_geom_error(p), "the WKT written is accepted"); sx_assert(deep_eq(g, p), "WKT round trip");
    size_t m; char *c = put(W_WKT, p, 1, &m); sx_assert(n == m && !memcmp(b, c, n), "WKT is canonical"); free(c); observe(p);
    tg_geom_free(p); p = tg_parse_ix(b, n, IX); sx_assert(p && deep_eq(g, p), "the WKT is recognised"); tg_geom_free(p); free(b);
    b = put(W_JSON, g, 1, &n); p = tg_parse_geojsonn_ix(b, n, IX); sx_assert(p && !tg_geom_error(p), "the GeoJSON written is accepted");
    if (!m_only(g)) sx_assert(deep_eq(g, p), "GeoJSON round trip"); else sx_assert(tg_geom_typeof(p) == tg_geom_typeof(g) && tg_geom_num_extra_coords(p) == tg_geom_num_extra_coords(g), "GeoJSON keeps the extra positions");
    c = put(W_JSON, p, 1, &m); sx_assert(n == m && !memcmp(b, c, n), "GeoJSON is canonical"); free(c);
    tg_geom_free(p); p = tg_parse_ix(b, n, IX); sx_assert(p && !tg_geom_error(p) && tg_geom_typeof(p) == tg_geom_typeof(g), "the GeoJSON is recognised"); tg_geom_free(p); free(b);
    tg_geom_free(g); sx_assert(sx_live() == 0, "leak"); sx_reach("end");
}
