// independent JSON recogniser (RFC 8259 with RFC 3629)
#ifndef JSONREF_H
#define JSONREF_H
typedef struct { const uint8_t *b; int n, i; } js;
static int peek(js *j) { return j->i < j->n ? j->b[j->i] : -1; }
static void ws(js *j) { for (;;) { int c = peek(j); if (c == ' ' || c == '\t' || c == '\n' || c == '\r') j->i++; else return; } }
static int dig(int c) { return c >= '0' && c <= '9'; }
static int lit(js *j, const char *s) { for (; *s; s++, j->i++) if (peek(j) != *s) return 0; return 1; }
static int num(js *j) {
    if (peek(j) == '-') j->i++;
    if (!dig(peek(j))) return 0;
    if (peek(j) == '0') j->i++; else while (dig(peek(j))) j->i++;
    if (peek(j) == '.') { j->i++; if (!dig(peek(j))) return 0; while (dig(peek(j))) j->i++; }
    int c = peek(j); if (c == 'e' || c == 'E') { j->i++; c = peek(j); if (c == '+' || c == '-') j->i++; if (!dig(peek(j))) return 0; while (dig(peek(j))) j->i++; }
    return 1; }
static int cont(js *j, int lo, int hi) { int c = peek(j); if (c < lo || c > hi) return 0; j->i++; return 1; }
static int utf8(js *j) { // RFC 3629
    int c = j->b[j->i++];
    if (c < 0x80) return 1;
    if (c >= 0xC2 && c <= 0xDF) return cont(j, 0x80, 0xBF);
    if (c == 0xE0) return cont(j, 0xA0, 0xBF) && cont(j, 0x80, 0xBF);
    if (c == 0xED) return cont(j, 0x80, 0x9F) && cont(j, 0x80, 0xBF);
    if (c >= 0xE1 && c <= 0xEF) return cont(j, 0x80, 0xBF) && cont(j, 0x80, 0xBF);
    if (c == 0xF0) return cont(j, 0x90, 0xBF) && cont(j, 0x80, 0xBF) && cont(j, 0x80, 0xBF);
    if (c >= 0xF1 && c <= 0xF3) return cont(j, 0x80, 0xBF) && cont(j, 0x80, 0xBF) && cont(j, 0x80, 0xBF);
    if (c == 0xF4) return cont(j, 0x80, 0x8F) && cont(j, 0x80, 0xBF) && cont(j, 0x80, 0xBF);
    return 0; }
static int str(js *j) {
    if (peek(j) != '"') return 0; j->i++;
    for (;;) { int c = peek(j);
        if (c < 0x20) return 0; // end of input or control character
        if (c == '"') { j->i++; return 1; }
        if (c == '\\') { j->i++; c = peek(j); j->i++;
            if (c == 'u') { for (int k = 0; k < 4; k++) { int h = peek(j); if (!(dig(h) || (h >= 'a' && h <= 'f') || (h >= 'A' && h <= 'F'))) return 0; j->i++; } }
            else if (!(c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')) return 0; }
        else if (!utf8(j)) return 0; } }
static int val(js *j) {
    ws(j); int c = peek(j);
    if (c == '{') { j->i++; ws(j); if (peek(j) == '}') { j->i++; return 1; }
        for (;;) { ws(j); if (!str(j)) return 0; ws(j); if (peek(j) != ':') return 0; j->i++; if (!val(j)) return 0; ws(j); c = peek(j); j->i++; if (c == '}') return 1; if (c != ',') return 0; } }
    if (c == '[') { j->i++; ws(j); if (peek(j) == ']') { j->i++; return 1; }
        for (;;) { if (!val(j)) return 0; ws(j); c = peek(j); j->i++; if (c == ']') return 1; if (c != ',') return 0; } }
    if (c == '"') return str(j);
    if (c == 't') return lit(j, "true"); if (c == 'f') return lit(j, "false"); if (c == 'n') return lit(j, "null");
    return num(j); }
static int valid(const uint8_t *b, int n) { js j = { b, n, 0 }; if (!val(&j)) return 0; ws(&j); return j.i == n; }
#endif
