// text parsers over templates in which every ? is an arbitrary byte: memory safe, nothing leaked, accepted input yields a usable geometry
#define CO 2
#include "cat.h"
#ifndef FMT
#define FMT 0
#endif
static const char *const T[] = {
#if FMT == 0 // WKT
    "?????", "POINT???", "POINT(1??", "POINT(1 ??)", "POINT ZM(1 2 3 ??", "LINESTRING(1 2,?? 4)?", "LINESTRING Z???", "POLYGON((0 0,1 0,1 1,0 0)??", "POLYGON((0 0,1 0,1 1,0 ??)",
    "MULTIPOINT(?? 2,(3 4)?", "MULTIPOINT((1 2)?(3 4)?", "MULTILINESTRING((1 2,3 4)???", "MULTIPOLYGON(((0 0,1 0,1 1,0 0))???", "GEOMETRYCOLLECTION(POINT(1 2)???", "GEOMETRYCOLLECTION(??POINT(1 2))", "point empty???",
    "POINT(1e?? 2)", "POINT(-?.? 2)", "LINESTRING(1 2 3,1 2??)", "POLYGON EMPTY??", "GEOMETRYCOLLECTION(LINESTRING EMPTY??POINT ?MPTY)", "MULTIPOLYGON?EMPTY", "POINT M(1 ? ?)", "  ?POINT(1 2)?",
#elif FMT == 1 // GeoJSON
    "??????", "{\"type\":\"Point\",\"coordinates\":[1,??]}", "{\"type\":\"Point\",\"coordinates\":[?,2?}", "{\"type\":\"Point\",\"coordinates\":[[1,2??]}", "{\"type\":\"P??nt\",\"coordinates\":[1,2]}", "{\"type\":\"LineString\",\"coordinates\":[[1,2]??[3,4]]}",
    "{\"type\":\"LineString\",\"coordinates\":[[1,2,3,4],[3,4,??]]}", "{\"type\":\"Polygon\",\"coordinates\":[[[0,0],[1,0],[1,1],[0,??]]}", "{\"type\":\"MultiPoint\",\"coordinates\":[[1,2]??]}", "{\"type\":\"MultiLineString\",\"coordinates\":[[[1,2],[3,4]]??]}",
    "{\"type\":\"MultiPolygon\",\"coordinates\":[[[[0,0],[1,0],[1,1],[0,0]]]??]}", "{\"type\":\"GeometryCollection\",\"geometries\":[??]}", "{\"type\":\"GeometryCollection\",\"geometries\":[{\"type\":\"Point\",\"coordinates\":[1,2]}??", "{\"type\":\"Feature\",\"geometry\":??,\"properties\":{}}",
    "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"id\":???}", "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"??\":1,\"properties\":\"?\"}", "{\"type\":\"FeatureCollection\",\"features\":[??]}",
    "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":null}??]}", "{\"t??e\":\"Point\",\"coordinates\":[1,2]}", "{\"type\":\"Point\",\"coordinates\":[]??", "{\"type\":\"Point\",\"coordinates\":[1,2],\"x\":\"\\u??\"}", "{\"type\":\"Point\",\"type\":\"?\",\"coordinates\":[1,2]?", "{\"coordinates\":[1,2],\"type\":\"Poin?\"?", "{\"type\":\"Point\",\"coordinates\":null?",
#elif FMT == 2 // hex
    "????????", "0101000000????????????????????????", "010100000000000000000000f03f00000000000000??", "000000000?0000000?", "0107000000010000000101000000000000000000f03f000000000000004?", "01030000000100000003000000??", "?",
#elif FMT == 3 // any format
    "?????", "{?????", " ?POINT?", "01????", "\x01??????", "\x02????????", "\x03??????", "\x04????????", "{\"type\":\"Point\",\"coordinates\":[1,2?}", "P?INT(1 2)", "0101000000000000000000f03f0000000000000?4?", "", "?", "\x01\x01\x01?", "\x00\x00\x00\x00\x01????????????????",
#endif
};
#define NT (int)(sizeof T / sizeof *T)
static const int L[] = { 0
#if FMT == 3
    , 0,0,0,0,0,0,0,0,0,0,0,0,0,0, 21
#endif
};
void harness(void) {
    int k = sx_choose(NT, "t"); size_t n = FMT == 3 && k == NT - 1 ? 21 : strlen(T[k]);
    char *b = malloc(n); for (size_t i = 0; i < n; i++) b[i] = T[k][i] == '?' ? (char)sx_bits(8, "b") : T[k][i];
#if FMT == 0
    G *g = tg_parse_wktn_ix(b, n, IX);
#elif FMT == 1
    G *g = tg_parse_geojsonn_ix(b, n, IX);
#elif FMT == 2
    G *g = tg_parse_hexn_ix(b, n, IX);
#else
    G *g = tg_parse_ix(b, n, IX);
#endif
    if (!g) { sx_assert(n == 0, "a parser returns an object when memory suffices"); free(b); return; }
    if (tg_geom_error(g)) { sx_reach("err"); sx_observe(0); const char *e = tg_geom_error(g); sx_assert(e[0] != 0, "an error has a message"); }
    else { sx_reach("ok"); observe(g); sx_assert(tg_geom_typeof(g) >= TG_POINT && tg_geom_typeof(g) <= TG_GEOMETRYCOLLECTION, "an accepted geometry has a type");
#ifdef BACK
        size_t m; uint8_t *w = put(W_GEOBIN, g, 0, &m); G *h = tg_parse_geobin_ix(w, m, IX); sx_assert(h && deep_eq(g, h), "what was parsed survives GeoBIN"); tg_geom_free(h); free(w);
#endif
    }
    tg_geom_free(g); free(b); sx_assert(sx_live() == 0, "leak");
}
