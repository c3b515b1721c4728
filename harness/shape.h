// builds a text with a chosen structure: type, parts, dimensions of every part, one part or one position with other dimensions, one free byte
static char *sb_, *ss_; static int sf_, sc_;
static void sps(const char *s) { while (*s) *sb_++ = *s++; }
static void spos(int d, int x, int y, int freeb) {
    if (sf_) sps("["); for (int k = 0; k < d; k++) { if (k) sps(sf_ ? "," : " "); int v = k == 0 ? x : k == 1 ? y : 10 + sc_++; if (v >= 10) *sb_++ = (char)('0' + v / 10 % 10); *sb_++ = (char)('0' + v % 10); }
    if (freeb) *sb_++ = (char)sx_bits(8, "b"); if (sf_) sps("]"); }
static int sd_[8];     // dimensions of a group; of its last position
static int sl_[8];
static void sgroup(int ring, int n, int g, int last) { sps(sf_ ? "[" : "("); for (int k = 0; k < n; k++) { if (k) sps(","); int c = ring && k == n - 1 ? 0 : k; spos(k == n - 1 ? sl_[g] : sd_[g], g * 2 + (c & 1), g * 2 + (c > 1), last && k == n - 1); } sps(sf_ ? "]" : ")"); }
static int shape(char *b, int json) {
    static const int LAY[6][3] = { { 1, 0, 0 }, { 2, 0, 0 }, { 1, 1, 0 }, { 2, 1, 0 }, { 1, 2, 0 }, { 1, 1, 1 } };
    sb_ = ss_ = b; sf_ = json; sc_ = 0; int t = 1 + sx_choose(6, "type"), lay = 0, ng = 1;
    if (t == TG_MULTIPOLYGON) { lay = sx_choose(6, "lay"); ng = LAY[lay][0] + LAY[lay][1] + LAY[lay][2]; } else if (t == TG_POLYGON || t == TG_MULTILINESTRING) ng = 1 + sx_choose(3, "ng");
    int d0 = 2 + sx_choose(3, "d"), og = sx_choose(ng + 1, "odd") - 1; for (int g = 0; g < ng; g++) sd_[g] = sl_[g] = d0;
    if (og >= 0) { int d1 = 2 + (d0 - 1 + sx_choose(2, "d1")) % 3, w = sx_choose(2, "whole"); sl_[og] = d1; if (w) sd_[og] = d1; }
    if (json) { sps("{\"type\":\""); sps(t == 1 ? "Point" : t == 2 ? "LineString" : t == 3 ? "Polygon" : t == 4 ? "MultiPoint" : t == 5 ? "MultiLineString" : "MultiPolygon"); sps("\",\"coordinates\":"); }
    else { sps(t == 1 ? "POINT" : t == 2 ? "LINESTRING" : t == 3 ? "POLYGON" : t == 4 ? "MULTIPOINT" : t == 5 ? "MULTILINESTRING" : "MULTIPOLYGON"); int tag = sx_choose(4, "tag"); sps(tag == 0 ? "" : tag == 1 ? " Z" : tag == 2 ? " M" : " ZM"); }
    int fb = og < 0;
    switch (t) {
    case TG_POINT: if (!json) sps("("); spos(sl_[0], 1, 2, fb); if (!json) sps(")"); break;
    case TG_LINESTRING: sgroup(0, 3, 0, fb); break;
    case TG_MULTIPOINT: sgroup(0, 3, 0, fb); break;
    case TG_POLYGON: case TG_MULTILINESTRING: sps(json ? "[" : "("); for (int g = 0; g < ng; g++) { if (g) sps(","); sgroup(t == TG_POLYGON, t == TG_POLYGON ? 4 : 2, g, fb && g == ng - 1); } sps(json ? "]" : ")"); break;
    default: sps(json ? "[" : "("); for (int p = 0, g = 0; p < 3 && LAY[lay][p]; p++) { sps(p ? json ? ",[" : ",(" : json ? "[" : "("); for (int k = 0; k < LAY[lay][p]; k++, g++) { if (k) sps(","); sgroup(1, 4, g, fb && g == ng - 1); } sps(json ? "]" : ")"); } sps(json ? "]" : ")"); }
    if (json) sps("}"); return (int)(sb_ - b); }
