// Hash-consed bit-vector expressions, bit-blasting to MiniSat, z3 cross-check.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef int64_t s64;

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR,
    ASHR, CONCAT, EXTRACT, ZEXT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE, TABLE };
static const char *opname[] = {"const","var","bvadd","bvsub","bvmul","bvudiv","bvsdiv","bvurem",
    "bvsrem","bvand","bvor","bvxor","bvshl","bvlshr","bvashr","concat","extract","zext","sext",
    "ite","=","bvult","bvule","bvslt","bvsle","table"};

struct E;
struct TabData { std::vector<u64> v; };
struct Support { std::vector<E*> vars; int bits = 0; };
struct E {
    uint8_t op; uint8_t w; bool undef; bool havoc;
    uint32_t id;
    E *a, *b, *c;
    u128 v;              // CONST: value; EXTRACT: low bit; VAR: var index; TABLE: TabData*
    u64 lo, hi;          // unsigned range (w<=64)
    s64 slo, shi;        // signed range (w<=64)
    u64 evstamp; u128 ev;
    std::vector<int> *lits; // bit-blasted
    Support *sup;
    uint32_t hash;
};
static inline u128 mask(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline s128 sx128(u128 v, int w) { if (w >= 128) return (s128)v; v <<= (128 - w); return ((s128)v) >> (128 - w); }
static inline s64 sx64(u64 v, int w) { if (w >= 64) return (s64)v; return ((s64)(v << (64 - w))) >> (64 - w); }

struct ExprMgr {
    std::vector<E*> tab; size_t cnt = 0; uint32_t nid = 1;
    std::vector<E*> vars; std::vector<std::string> varnames;
    char *pool = nullptr; size_t pleft = 0;
    ExprMgr() { tab.assign(1 << 16, nullptr); }
    E *alloc() {
        if (pleft < sizeof(E)) { pleft = 1 << 20; pool = (char*)malloc(pleft); }
        E *e = (E*)pool; pool += sizeof(E); pleft -= sizeof(E); memset(e, 0, sizeof(E)); return e;
    }
    static uint32_t hsh(uint8_t op, uint8_t w, E *a, E *b, E *c, u128 v) {
        u64 h = op * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full;
        h ^= (u64)(a ? a->id : 0) * 0x165667B19E3779F9ull; h = (h << 13) | (h >> 51);
        h ^= (u64)(b ? b->id : 0) * 0x27D4EB2F165667C5ull; h = (h << 17) | (h >> 47);
        h ^= (u64)(c ? c->id : 0) * 0x85EBCA77C2B2AE63ull; h = (h << 11) | (h >> 53);
        h ^= (u64)v * 0x9FB21C651E98DF25ull ^ (u64)(v >> 64) * 0xD6E8FEB86659FD93ull;
        h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return (uint32_t)h;
    }
    void grow() {
        std::vector<E*> n(tab.size() * 2, nullptr);
        for (E *e : tab) if (e) { size_t i = e->hash & (n.size() - 1); while (n[i]) i = (i + 1) & (n.size() - 1); n[i] = e; }
        tab.swap(n);
    }
    E *mk(uint8_t op, uint8_t w, E *a, E *b, E *c, u128 v) {
        uint32_t h = hsh(op, w, a, b, c, v);
        size_t i = h & (tab.size() - 1);
        while (tab[i]) {
            E *e = tab[i];
            if (e->hash == h && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->v == v) return e;
            i = (i + 1) & (tab.size() - 1);
        }
        E *e = alloc(); e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->v = v; e->hash = h; e->id = nid++;
        e->undef = (a && a->undef) || (b && b->undef) || (c && c->undef);
        e->havoc = (a && a->havoc) || (b && b->havoc) || (c && c->havoc);
        ranges(e);
        tab[i] = e; if (++cnt * 2 > tab.size()) grow();
        return e;
    }
    static void full(E *e) { int w = e->w > 64 ? 64 : e->w; e->lo = 0; e->hi = mask64(w); e->slo = sx64(1ull << (w - 1), w); e->shi = (s64)(mask64(w) >> 1); }
    static void ranges(E *e) {
        full(e);
        if (e->w > 64) return;
        int w = e->w; E *a = e->a, *b = e->b, *c = e->c;
        s64 smin = e->slo, smax = e->shi; u64 um = e->hi;
        auto setS = [&](s128 l, s128 h) { if (l >= smin && h <= smax) { e->slo = (s64)l; e->shi = (s64)h; } };
        auto setU = [&](u128 l, u128 h) { if (h <= um) { e->lo = (u64)l; e->hi = (u64)h; } };
        switch (e->op) {
        case CONST: e->lo = e->hi = (u64)e->v; e->slo = e->shi = sx64((u64)e->v, w); return;
        case ADD: setU((u128)a->lo + b->lo, (u128)a->hi + b->hi); setS((s128)a->slo + b->slo, (s128)a->shi + b->shi); break;
        case SUB: if (a->lo >= b->hi) setU(a->lo - b->hi, a->hi - b->lo); setS((s128)a->slo - b->shi, (s128)a->shi - b->slo); break;
        case MUL: { setU((u128)a->lo * b->lo, (u128)a->hi * b->hi);
            s128 p[4] = {(s128)a->slo * b->slo, (s128)a->slo * b->shi, (s128)a->shi * b->slo, (s128)a->shi * b->shi};
            setS(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); break; }
        case UDIV: if (b->lo > 0) setU(a->lo / b->hi, a->hi / b->lo); break;
        case UREM: if (b->lo > 0) setU(0, std::min(a->hi, b->hi - 1)); break;
        case AND: setU(0, std::min(a->hi, b->hi)); break;
        case OR: { u64 m = a->hi | b->hi; int k = m ? 64 - __builtin_clzll(m) : 0; setU(std::max(a->lo, b->lo), mask64(k)); break; }
        case XOR: { u64 m = a->hi | b->hi; int k = m ? 64 - __builtin_clzll(m) : 0; setU(0, k ? mask64(k) : 0); break; }
        case SHL: if (b->op == CONST && b->v < (u128)w) { setU((u128)a->lo << (int)b->v, (u128)a->hi << (int)b->v); setS((s128)a->slo << (int)b->v, (s128)a->shi << (int)b->v); } break;
        case LSHR: if (b->op == CONST && b->v < (u128)w) setU(a->lo >> (int)b->v, a->hi >> (int)b->v); break;
        case ASHR: if (b->op == CONST && b->v < (u128)w) setS(a->slo >> (int)b->v, a->shi >> (int)b->v); break;
        case CONCAT: setU(((u128)a->lo << b->w) + b->lo, ((u128)a->hi << b->w) + b->hi); break;
        case EXTRACT: if (a->w <= 64 && (int)e->v == 0) { if (a->hi <= um) setU(a->lo, a->hi); setS(a->slo, a->shi); }
            else if (a->w <= 64) { u64 l = a->lo >> (int)e->v, h = a->hi >> (int)e->v; if (h <= um) setU(l, h); } break;
        case ZEXT: setU(a->lo, a->hi); break;
        case SEXT: setS(a->slo, a->shi); break;
        case ITE: setU(std::min(b->lo, c->lo), std::max(b->hi, c->hi)); setS(std::min(b->slo, c->slo), std::max(b->shi, c->shi)); break;
        case TABLE: { TabData *t = (TabData*)(u64)e->v; u64 l = ~0ull, h = 0; s64 sl = INT64_MAX, sh = INT64_MIN;
            for (u64 x : t->v) { l = std::min(l, x); h = std::max(h, x); s64 s = sx64(x, w); sl = std::min(sl, s); sh = std::max(sh, s); }
            e->lo = l; e->hi = h; e->slo = sl; e->shi = sh; break; }
        default: break;
        }
        // reconcile signed and unsigned
        if (e->hi <= (u64)smax) { e->slo = std::max(e->slo, (s64)e->lo); e->shi = std::min(e->shi, (s64)e->hi); }
        if (e->slo >= 0) { e->lo = std::max(e->lo, (u64)e->slo); e->hi = std::min(e->hi, (u64)e->shi); }
    }
    E *cst(u128 v, int w) { return mk(CONST, w, 0, 0, 0, v & mask(w)); }
    E *tru() { return cst(1, 1); }
    E *fls() { return cst(0, 1); }
    E *var(int w, const std::string &name, bool undef = false) {
        E *e = mk(VAR, w, 0, 0, 0, vars.size()); e->undef = undef; vars.push_back(e); varnames.push_back(name); return e;
    }
    bool isc(E *e) { return e->op == CONST; }
    E *bin(uint8_t op, E *a, E *b) {
        int w = a->w;
        if (a->w != b->w) { fprintf(stderr, "width mismatch op %s %d %d\n", opname[op], a->w, b->w); abort(); }
        if (isc(a) && isc(b)) return cst(fold(op, a->v, b->v, w), (op >= EQ && op <= SLE) ? 1 : w);
        bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
        if (comm && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
        switch (op) {
        case ADD: if (isc(b) && b->v == 0) return a;
            if (isc(b) && a->op == ADD && isc(a->b)) return bin(ADD, a->a, cst(a->b->v + b->v, w));
            break;
        case SUB: if (a == b) return cst(0, w); if (isc(b)) return bin(ADD, a, cst(-b->v, w)); break;
        case MUL: if (isc(b)) { if (b->v == 0) return b; if (b->v == 1) return a;
                if (w <= 64 && (b->v & (b->v - 1)) == 0) return bin(SHL, a, cst(__builtin_ctzll((u64)b->v), w)); } break;
        case UDIV: if (isc(b) && b->v == 1) return a;
            if (isc(b) && w <= 64 && b->v && (b->v & (b->v - 1)) == 0) return bin(LSHR, a, cst(__builtin_ctzll((u64)b->v), w)); break;
        case UREM: if (isc(b) && w <= 64 && b->v && (b->v & (b->v - 1)) == 0) return bin(AND, a, cst(b->v - 1, w)); break;
        case AND: if (isc(b)) { if (b->v == 0) return b; if (b->v == mask(w)) return a;
                if (w <= 64 && ((b->v & (b->v + 1)) == 0)) { // low mask
                    int k = 64 - __builtin_clzll((u64)b->v); if (a->hi <= (u64)b->v) return a; return zext(extract(a, 0, k), w); } }
            if (a == b) return a; if (w == 1 && (neg(a) == b)) return fls(); break;
        case OR: if (isc(b)) { if (b->v == 0) return a; if (b->v == mask(w)) return b; } if (a == b) return a;
            if (w == 1 && neg(a) == b) return tru(); break;
        case XOR: if (isc(b) && b->v == 0) return a; if (a == b) return cst(0, w);
            if (isc(b) && a->op == XOR && isc(a->b)) return bin(XOR, a->a, cst(a->b->v ^ b->v, w)); break;
        case SHL: if (isc(b)) { if (b->v == 0) return a; if (b->v >= (u128)w) return cst(0, w); 
                return concat(extract(a, 0, w - (int)b->v), cst(0, (int)b->v)); } break;
        case LSHR: if (isc(b)) { if (b->v == 0) return a; if (b->v >= (u128)w) return cst(0, w); return zext(extract(a, (int)b->v, w - (int)b->v), w); } break;
        case ASHR: if (isc(b)) { if (b->v == 0) return a; int s = b->v >= (u128)w ? w - 1 : (int)b->v; return sext(extract(a, s, w - s), w); } break;
        case EQ: if (a == b) return tru();
            if (w == 1 && isc(b)) return b->v ? a : neg(a);
            if (w <= 64 && (a->lo > b->hi || b->lo > a->hi || a->slo > b->shi || b->slo > a->shi)) return fls();
            if (isc(b)) {
                if (a->op == ZEXT) return (b->v >> a->a->w) ? fls() : bin(EQ, a->a, cst(b->v, a->a->w));
                if (a->op == SEXT && w <= 64) return bin(EQ, a->a, cst(b->v, a->a->w));
                if (a->op == ITE) { if (isc(a->b) && isc(a->c)) { bool t = a->b->v == b->v, f = a->c->v == b->v; return t ? (f ? tru() : a->a) : (f ? neg(a->a) : fls()); }
                    if (isc(a->b) && a->b->v != b->v) return bin(AND, neg(a->a), bin(EQ, a->c, b));
                    if (isc(a->c) && a->c->v != b->v) return bin(AND, a->a, bin(EQ, a->b, b));
                    if (isc(a->b) && a->b->v == b->v) return bin(OR, a->a, bin(EQ, a->c, b));
                    if (isc(a->c) && a->c->v == b->v) return bin(OR, neg(a->a), bin(EQ, a->b, b)); }
                if (a->op == CONCAT) return bin(AND, bin(EQ, a->a, cst(b->v >> a->b->w, a->a->w)), bin(EQ, a->b, cst(b->v, a->b->w)));
                if (a->op == ADD && isc(a->b)) return bin(EQ, a->a, cst(b->v - a->b->v, w));
                if (a->op == XOR && isc(a->b)) return bin(EQ, a->a, cst(b->v ^ a->b->v, w));
                if (a->op == TABLE && a->w <= 64) return tabmap1(a, [&](u64 x) { return (u64)(x == (u64)b->v); }, 1);
            }
            if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(EQ, a->a, b->a);
            if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return bin(EQ, a->a, b->a);
            break;
        case ULT: if (a == b) return fls(); if (w <= 64) { if (a->hi < b->lo) return tru(); if (a->lo >= b->hi) return fls(); }
            if (a->op == ZEXT && isc(b)) return (b->v >> a->a->w) ? tru() : bin(ULT, a->a, cst(b->v, a->a->w));
            if (b->op == ZEXT && isc(a)) return (a->v >> b->a->w) ? fls() : bin(ULT, cst(a->v, b->a->w), b->a);
            if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULT, a->a, b->a);
            if (w == 1) return bin(AND, neg(a), b);
            break;
        case ULE: return neg(bin(ULT, b, a));
        case SLT: if (a == b) return fls(); if (w <= 64) { if (a->shi < b->slo) return tru(); if (a->slo >= b->shi) return fls();
                if (a->slo >= 0 && b->slo >= 0) return bin(ULT, a, b); }
            if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return bin(SLT, a->a, b->a);
            if (w <= 64 && a->op == SEXT && isc(b)) return bin(SLT, a->a, cst(b->v, a->a->w)); // range check above guarantees fit
            if (w <= 64 && b->op == SEXT && isc(a)) return bin(SLT, cst(a->v, b->a->w), b->a);
            break;
        case SLE: return neg(bin(SLT, b, a));
        }
        return mk(op, (op >= EQ && op <= SLE) ? 1 : w, a, b, 0, 0);
    }
    template <class F> E *tabmap1(E *t, F f, int w) {
        TabData *d = (TabData*)(u64)t->v; std::vector<u64> r(d->v.size());
        for (size_t i = 0; i < r.size(); i++) r[i] = f(d->v[i]);
        return table(t->a, std::move(r), w);
    }
    std::unordered_map<u64, std::vector<TabData*>> tabs;
    E *table(E *idx, std::vector<u64> &&v, int w) {
        if (isc(idx)) return cst(v[(size_t)idx->v], w);
        bool same = true; u64 h = 1469598103934665603ull;
        for (u64 &x : v) { x &= mask64(w); if (x != v[0]) same = false; h = (h ^ x) * 1099511628211ull; h ^= h >> 31; }
        if (same) return cst(v[0], w);
        TabData *d = nullptr;
        for (TabData *t : tabs[h]) if (t->v == v) { d = t; break; }
        if (!d) { d = new TabData{std::move(v)}; tabs[h].push_back(d); }
        return mk(TABLE, w, idx, 0, 0, (u64)d);
    }
    E *neg(E *a) { return bin(XOR, a, cst(1, 1)); } // boolean not
    E *bvneg(E *a) { return bin(SUB, cst(0, a->w), a); }
    std::unordered_map<u64, E*> excache;
    E *extract(E *a, int lo, int w) {
        if (lo == 0 && w == a->w) return a;
        if (isc(a)) return cst(a->v >> lo, w);
        if (a->op == EXTRACT) return extract(a->a, (int)a->v + lo, w);
        if (a->op == CONCAT) { int lw = a->b->w;
            if (lo + w <= lw) return extract(a->b, lo, w); if (lo >= lw) return extract(a->a, lo - lw, w);
            return concat(extract(a->a, 0, lo + w - lw), extract(a->b, lo, lw - lo)); }
        if (a->op == ZEXT) { int iw = a->a->w; if (lo >= iw) return cst(0, w); if (lo + w <= iw) return extract(a->a, lo, w);
            return zext(extract(a->a, lo, iw - lo), w); }
        if (a->op == SEXT) { int iw = a->a->w; if (lo + w <= iw) return extract(a->a, lo, w); if (lo == 0) return sext(a->a, w); }
        if (a->op == AND || a->op == OR || a->op == XOR || a->op == TABLE || (a->op == ITE && (a->undef || isc(a->b) || isc(a->c))) ||
            (lo == 0 && (a->op == ADD || a->op == SUB || a->op == MUL))) {
            u64 key = ((u64)a->id << 16) | (u64)(lo << 8) | (u64)w;
            auto it = excache.find(key); if (it != excache.end()) return it->second;
            E *r;
            if (a->op == ITE) r = ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
            else if (a->op == TABLE) r = tabmap1(a, [&](u64 x) { return x >> lo; }, w);
            else r = bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
            excache[key] = r; return r;
        }
        return mk(EXTRACT, w, a, 0, 0, lo);
    }
    E *concat(E *h, E *l) {
        if (isc(h) && isc(l)) return cst((h->v << l->w) | l->v, h->w + l->w);
        if (isc(h) && h->v == 0) return zext(l, h->w + l->w);
        if (h->op == EXTRACT && l->op == EXTRACT && h->a == l->a && (int)h->v == (int)l->v + l->w) return extract(h->a, (int)l->v, h->w + l->w);
        if (h->op == EXTRACT && l->op == CONCAT && l->a->op == EXTRACT && l->a->a == h->a && (int)h->v == (int)l->a->v + l->a->w)
            return concat(extract(h->a, (int)l->a->v, h->w + l->a->w), l->b);
        if (h->op == EXTRACT && (int)h->v == l->w && h->a == l) return extract(l, 0, h->w + l->w);
        if (h->op == EXTRACT && h->a->w == h->w + l->w && (int)h->v == l->w && l->op == VAR && 0) return h->a;
        return mk(CONCAT, h->w + l->w, h, l, 0, 0);
    }
    E *zext(E *a, int w) { if (w == a->w) return a; if (isc(a)) return cst(a->v, w); if (a->op == ZEXT) return zext(a->a, w);
        return mk(ZEXT, w, a, 0, 0, 0); }
    E *sext(E *a, int w) { if (w == a->w) return a; if (isc(a)) return cst((u128)sx128(a->v, a->w), w); if (a->op == SEXT) return sext(a->a, w);
        if (a->op == ZEXT) return zext(a, w);
        if (a->w <= 64 && a->slo >= 0) return zext(a, w);
        return mk(SEXT, w, a, 0, 0, 0); }
    E *ite(E *c, E *a, E *b) {
        if (isc(c)) return c->v ? a : b;
        if (a == b) return a;
        if (c->op == XOR && isc(c->b) && c->b->v == 1) return ite(c->a, b, a);
        if (a->w == 1) {
            if (isc(a) && isc(b)) return a->v ? c : neg(c);
            if (isc(a)) return a->v ? bin(OR, c, b) : bin(AND, neg(c), b);
            if (isc(b)) return b->v ? bin(OR, neg(c), a) : bin(AND, c, a);
        }
        if (a->op == ITE && a->a == c) return ite(c, a->b, b);
        if (b->op == ITE && b->a == c) return ite(c, a, b->c);
        return mk(ITE, a->w, c, a, b, 0);
    }
    static u128 fold(uint8_t op, u128 a, u128 b, int w) {
        s128 sa = sx128(a, w), sb = sx128(b, w);
        switch (op) {
        case ADD: return a + b; case SUB: return a - b; case MUL: return a * b;
        case UDIV: return b ? a / b : mask(w); case UREM: return b ? a % b : a;
        case SDIV: return b ? (sb == -1 ? (u128)(-sa) : (u128)(sa / sb)) : (sa < 0 ? 1 : mask(w));
        case SREM: return b ? (sb == -1 ? 0 : (u128)(sa % sb)) : a;
        case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
        case SHL: return b >= (u128)w ? 0 : a << (int)b; case LSHR: return b >= (u128)w ? 0 : a >> (int)b;
        case ASHR: return (u128)(sa >> (b >= (u128)w ? w - 1 : (int)b));
        case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b; case SLT: return sa < sb; case SLE: return sa <= sb;
        }
        abort();
    }
    // evaluation under a model
    u64 evcounter = 1;
    u128 eval(E *e, const std::vector<u64> &m, u64 stamp) {
        if (e->op == CONST) return e->v;
        if (e->evstamp == stamp) return e->ev;
        u128 r;
        switch (e->op) {
        case VAR: r = (size_t)e->v < m.size() ? m[(size_t)e->v] & mask64(e->w) : 0; break;
        case CONCAT: r = (eval(e->a, m, stamp) << e->b->w) | eval(e->b, m, stamp); break;
        case EXTRACT: r = (eval(e->a, m, stamp) >> (int)e->v) & mask(e->w); break;
        case ZEXT: r = eval(e->a, m, stamp); break;
        case SEXT: r = (u128)sx128(eval(e->a, m, stamp), e->a->w) & mask(e->w); break;
        case ITE: r = eval(e->a, m, stamp) ? eval(e->b, m, stamp) : eval(e->c, m, stamp); break;
        case TABLE: { TabData *t = (TabData*)(u64)e->v; u64 i = (u64)eval(e->a, m, stamp); r = i < t->v.size() ? t->v[i] : 0; break; }
        case AND: { u128 x = eval(e->a, m, stamp); r = x ? x & eval(e->b, m, stamp) : 0; break; }
        default: r = fold(e->op, eval(e->a, m, stamp), eval(e->b, m, stamp), e->a->w) & mask(e->w);
        }
        e->evstamp = stamp; e->ev = r; return r;
    }
    Support *support(E *e) { // distinct vars, sorted
        if (e->sup) return e->sup;
        Support *s = new Support;
        if (e->op == VAR) { s->vars.push_back(e); s->bits = e->w; }
        else {
            for (E *k : {e->a, e->b, e->c}) if (k) { Support *q = support(k); for (E *v : q->vars) s->vars.push_back(v); }
            std::sort(s->vars.begin(), s->vars.end(), [](E *x, E *y) { return x->id < y->id; });
            s->vars.erase(std::unique(s->vars.begin(), s->vars.end()), s->vars.end());
            for (E *v : s->vars) s->bits += v->w;
            if (s->vars.size() > 24) { s->bits = 10000; s->vars.resize(24); }
        }
        return e->sup = s;
    }
};
extern ExprMgr X;
