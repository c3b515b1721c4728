// every single allocation may fail (budget of B failures): no crash, no leak, and the result is NULL, an error or correct
#include "cat.h"
#ifndef B
#define B 1
#endif
#ifndef MODE
#define MODE 0
#endif
static const char *J[] = { "{\"type\":\"Feature\",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":{\"a\":[1,\"x\"]},\"id\":\"q\"}",
    "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"id\":7,\"geometry\":{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]]},\"properties\":null}],\"extra\":true}",
    "{\"type\":\"Polygon\",\"coordinates\":[[[0,0],[4,0],[4,4],[0,0]],[[1,1],[2,1],[2,2],[1,1]]],\"foo\":{\"b\":1}}", "{\"type\":\"MultiPoint\",\"coordinates\":[[0,0,5],[4,0,6]],\"foo\":{\"b\":1}}",
    "{\"type\":\"MultiPolygon\",\"coordinates\":[[[[0,0],[4,0],[4,4],[0,0]],[[1,1],[2,1],[2,2],[1,1]]]]}", "{\"type\":\"GeometryCollection\",\"geometries\":[{\"type\":\"Point\",\"coordinates\":[1,2,3]},{\"type\":\"MultiLineString\",\"coordinates\":[[[0,0],[4,0]]]}]}" };
static const char *T[] = { "POINT ZM(1 2 3 4)", "LINESTRING(1 2,3 4,5 6)", "POLYGON((0 0,4 0,4 4,0 0),(1 1,2 1,2 2,1 1))", "MULTIPOINT Z((1 2 3),(4 5 6))", "MULTILINESTRING((1 2,3 4),(5 6,7 8))",
    "MULTIPOLYGON(((0 0,4 0,4 4,0 0),(1 1,2 1,2 2,1 1)),((0 0,4 0,4 4,0 0)))", "GEOMETRYCOLLECTION(POINT(1 2),GEOMETRYCOLLECTION(LINESTRING(1 2,3 4)))", "POINT(1 2", "POLYGON((0 0,1 1))" };
void harness(void) {
    G *ref = 0, *g = 0; uint8_t bin[1024]; size_t n = 0; const char *src = 0;
    int f = MODE;
    if (f == 0) { src = J[sx_choose(6, "json")]; ref = tg_parse_geojson(src); }
    else if (f == 1) { src = T[sx_choose(9, "wkt")]; ref = tg_parse_wkt(src); }
    else { ref = sx_choose(2, "src") ? tg_parse_geojson(J[sx_choose(6, "json")]) : tg_parse_wkt(T[sx_choose(7, "wkt")]); n = f == 2 ? tg_geom_wkb(ref, bin, sizeof bin) : f == 3 ? tg_geom_geobin(ref, bin, sizeof bin) : f == 4 ? tg_geom_hex(ref, (char *)bin, sizeof bin) : 0;
        if (f == 2) { tg_geom_free(ref); ref = tg_parse_wkb(bin, n); } else if (f == 4) { tg_geom_free(ref); ref = tg_parse_hexn((char *)bin, n); } }
    sx_assert(ref != 0, "reference");
    int64_t l0 = sx_live();
    sx_fault(B);
    switch (f) {
    case 0: g = tg_parse_geojson(src); break;
    case 1: g = tg_parse_wkt(src); break;
    case 2: g = tg_parse_wkb(bin, n); break;
    case 3: g = tg_parse_geobin(bin, n); break;
    case 4: g = tg_parse_hexn((char *)bin, n); break;
    case 5: g = tg_geom_copy(ref); break;
    case 6: g = tg_geom_clone(ref); break;
    }
    sx_fault(0);
    if (!g) { sx_reach("null"); sx_observe(0); }
    else if (tg_geom_error(g) && !tg_geom_error(ref)) { sx_reach("err"); sx_observe(1); }
    else { sx_reach("ok"); sx_assert(deep_eq(g, ref), "a result under memory pressure is the right one"); sx_observe(2); }
    tg_geom_free(g);
    sx_assert(sx_live() == l0, "nothing leaked when an allocation failed");
    tg_geom_free(ref); sx_assert(sx_live() == 0, "leak");
}
