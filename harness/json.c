// GeoJSON is accepted only if the whole text is valid JSON (RFC 8259), and foreign members may be any JSON value
#define CO 2
#include "cat.h"
#include "jsonref.h"
#define PT "{\"type\":\"Point\",\"coordinates\":[1,2]"
static const char *const T[] = {
#if PART == 0 // the value of a foreign member
    PT ",\"x\":???}", PT ",\"x\":[?,??]}", PT ",\"x\":-????}", PT ",\"x\":1???}", PT ",\"x\":0???}", PT ",\"x\":1.??e??}", PT ",\"x\":{??}}", PT ",\"x\":{\"a\"??}}", PT ",\"x\":{\"a\":1???}}", PT ",\"x\":t??e}", PT ",\"x\":fa??e}", PT ",\"x\":n??l}", PT ",\"x\":[[]??]}", PT ",\"x\":[{}??{}]}", PT ",\"x\":[1,2??3]}", PT ",\"x\":1}???", PT ",\"x\":1???", "?" PT "}", "?" PT "??", PT "??\"x\":1}", PT ",\"x\"??1}", PT ",\"x\":[ ? ,? 5 ]}", PT ",\"x\":{\"a\": {? }?}}", PT ",\"x\":12345678901234567890123456789?????}", PT "}"
#elif PART == 1 // strings
    PT ",\"x\":\"????\"}", PT ",\"x\":\"\\????\"}", PT ",\"x\":\"\\u????\"}", PT ",\"x\":\"ab\\u00?\\?\"}", PT ",\"x??\":1}", PT ",\"x\\??\":1}", PT ",\"abcdefghijklmnopqrstuvw??z\":{\"abcdefghijklmnopqrstuvwxyz?bcdefghi\":1}}", PT ",\"x\":\"abcdefghijklmnopqrstuvw\xF4\x8F\xBF?\"}", PT ",\"x\":\"\xED??\"}", PT ",\"x\":\"\xE0??\"}", PT ",\"x\":\"\xF0???\"}", PT ",\"x\":\"\xF4???\"}", PT ",\"x\":\"\xC?\"}", PT ",\"x\":\"abcdefghijklm\\n0123456789\\??\",\"y\":1}", PT ",\"x\":\"\xF?", PT ",\"x\":\"\\", PT ",\"x\":\"\\u0?", PT ",\"x\":[\"?\",\"?\"]}"
#endif
};
void harness(void) {
    int k = sx_choose((int)(sizeof T / sizeof *T), "t"), n = strlen(T[k]); uint8_t *b = malloc(n);
    for (int i = 0; i < n; i++) b[i] = T[k][i] == '?' ? (uint8_t)sx_bits(8, "b") : (uint8_t)T[k][i];
    sx_assume(b[0] != '['); // a text whose root is an array is not GeoJSON
    G *g = tg_parse_geojsonn((char *)b, n); sx_assert(g != 0, "an object is returned"); int ok = !tg_geom_error(g);
    if (ok) { sx_reach("ok"); sx_assert(valid(b, n), "what is accepted is valid JSON"); sx_assert(tg_geom_typeof(g) == TG_POINT && tg_geom_point(g).x == 1 && tg_geom_point(g).y == 2, "the geometry is the one stated"); }
    else { sx_reach("err"); sx_assert(!valid(b, n), "valid JSON with a foreign member is accepted"); }
    sx_observe(ok); tg_geom_free(g); free(b); sx_assert(sx_live() == 0, "leak");
}
