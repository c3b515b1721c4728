// Bit-blasting to MiniSat (incremental, assumptions), optional z3 cross-check.
#pragma once
#include "expr.h"
#include <minisat/core/Solver.h>
#include <z3.h>
#include <chrono>
using Minisat::Lit; using Minisat::mkLit; using Minisat::lbool;
static inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// Reduced ordered BDDs with complement edges, used for BDD sweeping: two gates with the same function share one literal.
struct Bdd {
    typedef uint32_t u32; static constexpr u32 NONE = 0xffffffffu; // edge = node<<1 | complement; edge 0 = true, 1 = false
    struct N { u32 v, lo, hi; };
    std::vector<N> n; std::vector<u32> tab; u32 tmask; size_t lim = 0, cap = 24u << 20; size_t left = 0; bool over = false;
    struct C { u32 a, b, r; u32 op; }; std::vector<C> cache; u32 cmask; u32 nv = 0;
    std::vector<int> vlit; // BDD variable -> solver literal
    Bdd() { n.push_back({NONE, 0, 0}); tab.assign(1 << 12, 0); tmask = (1 << 12) - 1; cache.assign(1 << 16, C{NONE, NONE, NONE, 9}); cmask = (1 << 16) - 1; }
    static u32 h3(u32 a, u32 b, u32 c) { u64 x = a * 0x9E3779B97F4A7C15ull ^ (b * 0xC2B2AE3D27D4EB4Full) ^ (c * 0x165667B19E3779F9ull); x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return (u32)(x >> 32); }
    void grow() { std::vector<u32> t(tab.size() * 2, 0); tmask = t.size() - 1; for (u32 i = 1; i < n.size(); i++) { u32 h = h3(n[i].v, n[i].lo, n[i].hi) & tmask; while (t[h]) h = (h + 1) & tmask; t[h] = i; } tab.swap(t);
        if (cache.size() < tab.size() && cache.size() < (1u << 20)) { cache.assign(tab.size(), C{NONE, NONE, NONE, 9}); cmask = cache.size() - 1; } }
    u32 mk(u32 v, u32 lo, u32 hi) { if (lo == hi) return lo; u32 c = hi & 1; lo ^= c; hi ^= c;
        u32 h = h3(v, lo, hi) & tmask; while (tab[h]) { N &x = n[tab[h]]; if (x.v == v && x.lo == lo && x.hi == hi) return tab[h] << 1 | c; h = (h + 1) & tmask; }
        if (!left || n.size() >= cap) { over = true; return 0; } left--;
        n.push_back({v, lo, hi}); tab[h] = n.size() - 1; u32 r = (u32)(n.size() - 1) << 1 | c; if (n.size() * 2 > tab.size()) grow(); return r; }
    u32 var(int lit) { vlit.push_back(lit); left = 1; return mk(nv++, 1, 0); }
    u32 top(u32 f) { return n[f >> 1].v; }
    u32 rec(u32 a, u32 b, u32 op) { // 0 and, 1 xor
        if (over) return 0;
        u32 neg = 0;
        if (op == 0) { if (a == b || b == 0) return a; if (a == 0) return b; if (a == 1 || b == 1 || a == (b ^ 1)) return 1; }
        else { neg = (a ^ b) & 1; a &= ~1u; b &= ~1u; if (a == b) return 1 ^ neg; if (a == 0) return b ^ 1 ^ neg; if (b == 0) return a ^ 1 ^ neg; }
        if (a > b) std::swap(a, b);
        C *c = &cache[h3(a, b, op) & cmask]; if (c->a == a && c->b == b && c->op == op) return c->r ^ neg;
        u32 va = top(a), vb = top(b), v = va < vb ? va : vb;
        u32 al = a, ah = a, bl = b, bh = b;
        if (va == v) { al = n[a >> 1].lo ^ (a & 1); ah = n[a >> 1].hi ^ (a & 1); }
        if (vb == v) { bl = n[b >> 1].lo ^ (b & 1); bh = n[b >> 1].hi ^ (b & 1); }
        u32 l = rec(al, bl, op), h = rec(ah, bh, op); if (over) return 0;
        u32 r = mk(v, l, h); if (over) return 0;
        c = &cache[h3(a, b, op) & cmask]; *c = C{a, b, r, op}; return r ^ neg; }
    u32 op(u32 a, u32 b, u32 o) { if (a == NONE || b == NONE || !lim || n.size() >= cap) return NONE; left = lim; over = false; u32 r = rec(a, b, o); return over ? NONE : r; }
};

struct Blaster {
    Bdd D; std::vector<Bdd::u32> bd; // solver var -> BDD edge or NONE
    std::unordered_map<Bdd::u32, int> bl; // regular BDD edge -> literal
    Bdd::u32 bddOf(int l) { Bdd::u32 e = bd[l >> 1]; return e == Bdd::NONE ? e : e ^ (l & 1); }
    void setBdd(int var, Bdd::u32 e) { if ((size_t)var >= bd.size()) bd.resize(var + 1, Bdd::NONE); bd[var] = e; }
    // literal already standing for this function, or -1
    int known(Bdd::u32 e) { if (e == Bdd::NONE) return -1; auto it = bl.find(e & ~1u); return it == bl.end() ? -1 : it->second ^ (int)(e & 1); }
    int gate(Bdd::u32 e) { int o = newv(gdec); bd[o >> 1] = e; if (e != Bdd::NONE) bl[e & ~1u] = o ^ (int)(e & 1); return o; }
    int input() { int o = newv(); Bdd::u32 e = D.lim ? D.var(o) : Bdd::NONE; bd[o >> 1] = e; if (e != Bdd::NONE) bl[e & ~1u] = o ^ (int)(e & 1); return o; }
    Minisat::Solver *S;
    std::unordered_map<u64, int> ands, xors;
    int T; // literal code of true
    std::vector<std::pair<E*, int>> varbase;
    static Lit L(int x) { Lit l; l.x = x; return l; }
    int newv(bool dec = true) { int r = Minisat::toInt(mkLit(S->newVar(Minisat::lbool((uint8_t)2), dec))); setBdd(r >> 1, Bdd::NONE); return r; }
    bool gdec = false;
    static int nt(int a) { return a ^ 1; }
    void cl(int a) { S->addClause(L(a)); }
    void cl(int a, int b) { S->addClause(L(a), L(b)); }
    void cl(int a, int b, int c) { S->addClause(L(a), L(b), L(c)); }
    Blaster() { S = new Minisat::Solver; T = newv(); cl(T); bd[T >> 1] = T & 1; bl[0] = T; }
    int F() { return nt(T); }
    int And(int a, int b) {
        if (a > b) std::swap(a, b);
        if (a == F() || b == F() || a == nt(b)) return F();
        if (a == T) return b; if (b == T || a == b) return a;
        auto &r = ands[(u64)a << 32 | (u64)b]; if (r) return r - 1;
        Bdd::u32 e = D.op(bddOf(a), bddOf(b), 0); int k = known(e); if (k >= 0) { r = k + 1; return k; }
        int o = gate(e); cl(nt(o), a); cl(nt(o), b); cl(o, nt(a), nt(b)); ands[(u64)a << 32 | (u64)b] = o + 1; return o;
    }
    int Or(int a, int b) { return nt(And(nt(a), nt(b))); }
    int Xor(int a, int b) {
        int neg = 0; if (a & 1) { a ^= 1; neg ^= 1; } if (b & 1) { b ^= 1; neg ^= 1; }
        if (a > b) std::swap(a, b);
        if (a == b) return F() ^ neg;
        if (a == (T & ~1)) return (b ^ (T & 1 ? 0 : 1)) ^ neg; // T is positive literal of var0
        if (b == (T & ~1)) return (a ^ 1) ^ neg;
        auto &r = xors[(u64)a << 32 | (u64)b]; if (r) return (r - 1) ^ neg;
        Bdd::u32 e = D.op(bddOf(a), bddOf(b), 1); int k = known(e); if (k >= 0) { r = k + 1; return k ^ neg; }
        int o = gate(e); cl(nt(o), a, b); cl(nt(o), nt(a), nt(b)); cl(o, nt(a), b); cl(o, a, nt(b));
        xors[(u64)a << 32 | (u64)b] = o + 1; return o ^ neg;
    }
    int Mux(int c, int a, int b) { // c ? a : b
        if (c == T) return a; if (c == F()) return b; if (a == b) return a;
        if (a == T) return Or(c, b); if (a == F()) return And(nt(c), b);
        if (b == T) return Or(nt(c), a); if (b == F()) return And(c, a);
        if (a == nt(b)) return Xor(c, b);
        return Or(And(c, a), And(nt(c), b));
    }
    int Maj(int a, int b, int c) { return Or(And(a, b), And(c, Xor(a, b))); }
    typedef std::vector<int> V;
    V addv(const V &a, const V &b, int cin) { V r(a.size()); int c = cin;
        for (size_t i = 0; i < a.size(); i++) { int x = Xor(a[i], b[i]); r[i] = Xor(x, c); c = Or(And(a[i], b[i]), And(c, x)); } return r; }
    V notv(const V &a) { V r(a); for (int &x : r) x = nt(x); return r; }
    V muxv(int c, const V &a, const V &b) { V r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = Mux(c, a[i], b[i]); return r; }
    int ultv(const V &a, const V &b) { int lt = F(); for (size_t i = 0; i < a.size(); i++) { int x = Xor(a[i], b[i]); lt = Mux(x, b[i], lt); } return lt; }
    V mulv(const V &a, const V &b) { int n = a.size(); V r(n, F());
        // if both sign-extended copies exist the and-gates share anyway
        for (int i = 0; i < n; i++) { if (b[i] == F()) continue; V t(n, F()); for (int j = i; j < n; j++) t[j] = And(a[j - i], b[i]); r = addv(r, t, F()); } return r; }
    void divrem(const V &a, const V &b, V &q, V &r) { int n = a.size(); q.assign(n, F()); r.assign(n + 1, F());
        V bb(b); bb.push_back(F());
        for (int i = n - 1; i >= 0; i--) { r.insert(r.begin(), a[i]); r.pop_back();
            int ge = nt(ultv(r, bb)); V d = addv(r, notv(bb), T); q[i] = ge; r = muxv(ge, d, r); }
        r.pop_back(); }
    V shiftv(const V &a, const V &s, int kind) { // 0 shl 1 lshr 2 ashr
        int n = a.size(); V r = a; int fill = kind == 2 ? a[n - 1] : F(); int big = F();
        for (int k = 0; k < n && k < (int)s.size(); k++) { 
            if (k >= 7 || (1 << k) >= n) { for (size_t j = k; j < s.size(); j++) big = Or(big, s[j]); break; }
            int d = 1 << k; V t(n);
            for (int i = 0; i < n; i++) t[i] = kind == 0 ? (i >= d ? r[i - d] : F()) : (i + d < n ? r[i + d] : fill);
            r = muxv(s[k], t, r); }
        return muxv(big, V(n, fill), r); }
    V tabrec(const std::vector<u64> &v, const V &idx, size_t lo, int bit, int w, std::unordered_map<std::string, V> &memo) {
        size_t n = (size_t)1 << (bit + 1);
        if (lo >= v.size()) return V(w, F());
        bool same = true; for (size_t i = lo; i < lo + n && i < v.size(); i++) if (v[i] != v[lo]) { same = false; break; }
        if (same || bit < 0) { V r(w); for (int i = 0; i < w; i++) r[i] = (v[lo] >> i) & 1 ? T : F(); return r; }
        std::string key; if (n <= 4096) { size_t e = std::min(v.size(), lo + n); key.assign((const char*)&v[lo], (e - lo) * 8); key.push_back((char)bit); auto it = memo.find(key); if (it != memo.end()) return it->second; }
        V l = tabrec(v, idx, lo, bit - 1, w, memo), h = tabrec(v, idx, lo + n / 2, bit - 1, w, memo);
        if (lo + n / 2 >= v.size()) h = l;
        V r = muxv(idx[bit], h, l); if (!key.empty()) memo[key] = r; return r; }
    const V &blast(E *e) {
        if (e->lits) return *e->lits;
        V r; int w = e->w;
        switch (e->op) {
        case CONST: for (int i = 0; i < w; i++) r.push_back((e->v >> i) & 1 ? T : F()); break;
        case VAR: for (int i = 0; i < w; i++) r.push_back(input()); break;
        case ADD: r = addv(blast(e->a), blast(e->b), F()); break;
        case SUB: r = addv(blast(e->a), notv(blast(e->b)), T); break;
        case MUL: { const V &a = blast(e->a), &b = blast(e->b); int ca = 0, cb = 0; for (int x : a) ca += x == F(); for (int x : b) cb += x == F();
            r = cb >= ca ? mulv(a, b) : mulv(b, a); break; }
        case UDIV: case UREM: { V q, m; const V &b = blast(e->b); divrem(blast(e->a), b, q, m); r = e->op == UDIV ? q : m; break; }
        case SDIV: case SREM: { V a = blast(e->a), b = blast(e->b), q, m; int sa = a[w - 1], sb = b[w - 1]; V z(w, F());
            V na = addv(notv(a), z, T), nb = addv(notv(b), z, T); 
            divrem(muxv(sa, na, a), muxv(sb, nb, b), q, m);
            V nq = addv(notv(q), z, T), nm = addv(notv(m), z, T);
            r = e->op == SDIV ? muxv(Xor(sa, sb), nq, q) : muxv(sa, nm, m); break; }
        case AND: { const V &a = blast(e->a), &b = blast(e->b); for (int i = 0; i < w; i++) r.push_back(And(a[i], b[i])); break; }
        case OR: { const V &a = blast(e->a), &b = blast(e->b); for (int i = 0; i < w; i++) r.push_back(Or(a[i], b[i])); break; }
        case XOR: { const V &a = blast(e->a), &b = blast(e->b); for (int i = 0; i < w; i++) r.push_back(Xor(a[i], b[i])); break; }
        case SHL: r = shiftv(blast(e->a), blast(e->b), 0); break;
        case LSHR: r = shiftv(blast(e->a), blast(e->b), 1); break;
        case ASHR: r = shiftv(blast(e->a), blast(e->b), 2); break;
        case CONCAT: r = blast(e->b); { const V &h = blast(e->a); r.insert(r.end(), h.begin(), h.end()); } break;
        case EXTRACT: { const V &a = blast(e->a); r.assign(a.begin() + (int)e->v, a.begin() + (int)e->v + w); break; }
        case ZEXT: r = blast(e->a); r.resize(w, F()); break;
        case SEXT: r = blast(e->a); r.resize(w, r.back()); break;
        case ITE: { const V &c = blast(e->a); int cc = c[0]; V a = blast(e->b), b = blast(e->c); r = muxv(cc, a, b); break; }
        case EQ: { const V &a = blast(e->a), &b = blast(e->b); int o = T; for (size_t i = 0; i < a.size(); i++) o = And(o, nt(Xor(a[i], b[i]))); r.push_back(o); break; }
        case ULT: r.push_back(ultv(blast(e->a), blast(e->b))); break;
        case ULE: r.push_back(nt(ultv(blast(e->b), blast(e->a)))); break;
        case SLT: case SLE: { V a = blast(e->a), b = blast(e->b); a.back() = nt(a.back()); b.back() = nt(b.back());
            r.push_back(e->op == SLT ? ultv(a, b) : nt(ultv(b, a))); break; }
        case TABLE: { V idx = blast(e->a); TabData *t = (TabData*)(u64)e->v; std::unordered_map<std::string, V> memo;
            // trim index to needed bits; out of range index is excluded by construction
            int bits = 0; while (((size_t)1 << bits) < t->v.size()) bits++;
            if ((int)idx.size() < bits) idx.resize(bits, F());
            r = tabrec(t->v, idx, 0, bits - 1, w, memo); break; }
        default: abort();
        }
        e->lits = new V(std::move(r)); return *e->lits;
    }
    int lit(E *e) { return blast(e)[0]; }
};

struct Stats { // lives in shared memory
    std::atomic<u64> paths, pathsKilled, errors, branches, forks, merges, mergepaths, queries, qbdd, qsat, qunsat, qunk, solver_us, instrs,
        incomplete, unsupported, xcheck, xbad, asserts, assertq, tabs, havocs, procs;
};
extern Stats *ST;

std::string where_();
struct Solver {
    Blaster B; double budget_s = 20; int xevery = 0; u64 qn = 0;
    struct CE { E *e; Bdd::u32 b; bool all; }; std::vector<CE> chain;
    std::vector<E*> base; // permanently asserted
    void assertBase(E *c) { base.push_back(c); B.cl(B.lit(c)); }
    // 1 sat, 0 unsat, -1 unknown
    int check(const std::vector<E*> &assume, size_t from, E *extra, std::vector<u64> *model) {
        double t0 = now(); qn++;
        Minisat::vec<Lit> as;
        for (size_t i = from; i < assume.size(); i++) as.push(Blaster::L(B.lit(assume[i])));
        if (extra) as.push(Blaster::L(B.lit(extra)));
        int res; Bdd::u32 bm = Bdd::NONE;
        if (B.D.lim) { // conjunction of the BDDs; prefix shared with the previous query
            size_t k = 0; bool all = true; size_t nb = base.size(), na = nb + assume.size() - from + (extra ? 1 : 0);
            auto get = [&](size_t i) { return i < nb ? base[i] : i - nb + from < assume.size() ? assume[i - nb + from] : extra; };
            while (k < chain.size() && k < na && chain[k].e == get(k)) k++;
            chain.resize(k); Bdd::u32 cur = k ? chain[k - 1].b : 0; all = k ? chain[k - 1].all : true;
            for (; k < na && cur != 1; k++) { Bdd::u32 e = B.bddOf(B.lit(get(k))); Bdd::u32 r = B.D.op(cur, e, 0);
                if (r == Bdd::NONE) all = false; else cur = r; chain.push_back({get(k), cur, all}); }
            if (cur == 1) bm = 1; else if (all) bm = cur;
        }
        if (bm != Bdd::NONE) { ST->qbdd++;
            if (bm == 1) res = 0;
            else { res = 1; if (model) { model->assign(X.vars.size(), 0); std::unordered_map<int, int> val; Bdd::u32 f = bm;
                while (f > 1) { auto &x = B.D.n[f >> 1]; Bdd::u32 h = x.hi ^ (f & 1), l = x.lo ^ (f & 1); int lv = B.D.vlit[x.v];
                    if (l != 1) f = l; else { val[lv] = 1; f = h; } }
                for (size_t i = 0; i < X.vars.size(); i++) { E *v = X.vars[i]; if (!v->lits) continue; u64 x = 0;
                    for (int b = 0; b < v->w; b++) if (val.count((*v->lits)[b])) x |= 1ull << b; (*model)[i] = x; } model = 0; } }
        } else if (!B.S->okay()) res = 0;
        else { res = -1;
            for (int it = 0; it < 1000; it++) {
                B.S->setConfBudget(20000);
                lbool r = B.S->solveLimited(as);
                if (r == Minisat::lbool((uint8_t)0)) { res = 1; break; }
                if (r == Minisat::lbool((uint8_t)1)) { res = 0; break; }
                if (now() - t0 > budget_s) break;
            }
        }
        if (res == 1 && model) {
            model->assign(X.vars.size(), 0);
            for (size_t i = 0; i < X.vars.size(); i++) { E *v = X.vars[i]; if (!v->lits) continue; u64 x = 0;
                for (int b = 0; b < v->w; b++) { int l = (*v->lits)[b]; lbool q = B.S->modelValue(Blaster::L(l)); if (q == Minisat::lbool((uint8_t)0)) x |= 1ull << b; }
                (*model)[i] = x; }
        }
        { static bool dbg = getenv("SXSLOW"); if (dbg && now() - t0 > 0.3) fprintf(stderr, "SLOW %.2fs res=%d bdd=%d pc=%zu %s\n", now() - t0, res, bm != Bdd::NONE, assume.size() - from, where_().c_str()); }
        ST->queries++; ST->solver_us += (u64)((now() - t0) * 1e6);
        (res == 1 ? ST->qsat : res == 0 ? ST->qunsat : ST->qunk)++;
        if (xevery && res == 0 && (qn * 2654435761u ^ (u64)getpid() * 40503u) % 4096 * (u64)xevery < 4096) { u64 n = ST->xcheck.load(), q = 1 + n * n / 900; if ((qn * 0x9e3779b97f4a7c15ull >> 20) % q == 0) xcheck(assume, from, extra, res); } // ever more rarely
        return res;
    }
    // ---- z3 cross-check of UNSAT verdicts
    void xcheck(const std::vector<E*> &assume, size_t from, E *extra, int res) {
        Z3_config cfg = Z3_mk_config(); Z3_context c = Z3_mk_context(cfg); Z3_del_config(cfg);
        Z3_solver s = Z3_mk_solver(c); Z3_solver_inc_ref(c, s);
        Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), 10000); Z3_solver_set_params(c, s, p);
        std::unordered_map<E*, Z3_ast> m;
        for (E *e : base) Z3_solver_assert(c, s, tob(c, e, m));
        for (size_t i = from; i < assume.size(); i++) Z3_solver_assert(c, s, tob(c, assume[i], m));
        if (extra) Z3_solver_assert(c, s, tob(c, extra, m));
        Z3_lbool r = Z3_solver_check(c, s);
        ST->xcheck++;
        if (r == Z3_L_TRUE && res == 0) { ST->xbad++; fprintf(stderr, "symx: z3 DISAGREES on an unsat query\n"); }
        Z3_solver_dec_ref(c, s); Z3_del_context(c);
    }
    Z3_ast num(Z3_context c, u128 v, int w) { char b[64]; std::string s; if (!v) s = "0"; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } (void)b; return Z3_mk_numeral(c, s.c_str(), Z3_mk_bv_sort(c, w)); }
    Z3_ast tob(Z3_context c, E *e, std::unordered_map<E*, Z3_ast> &m) { return Z3_mk_eq(c, tz(c, e, m), num(c, 1, 1)); }
    Z3_ast b2v(Z3_context c, Z3_ast b) { return Z3_mk_ite(c, b, num(c, 1, 1), num(c, 0, 1)); }
    Z3_ast tz(Z3_context c, E *e, std::unordered_map<E*, Z3_ast> &m) {
        auto it = m.find(e); if (it != m.end()) return it->second;
        Z3_ast a = e->a ? tz(c, e->a, m) : 0, b = e->b ? tz(c, e->b, m) : 0, d = e->c ? tz(c, e->c, m) : 0, r = 0;
        switch (e->op) {
        case CONST: r = num(c, e->v, e->w); break;
        case VAR: r = Z3_mk_const(c, Z3_mk_int_symbol(c, (int)e->v), Z3_mk_bv_sort(c, e->w)); break;
        case ADD: r = Z3_mk_bvadd(c, a, b); break; case SUB: r = Z3_mk_bvsub(c, a, b); break; case MUL: r = Z3_mk_bvmul(c, a, b); break;
        case UDIV: r = Z3_mk_bvudiv(c, a, b); break; case SDIV: r = Z3_mk_bvsdiv(c, a, b); break;
        case UREM: r = Z3_mk_bvurem(c, a, b); break; case SREM: r = Z3_mk_bvsrem(c, a, b); break;
        case AND: r = Z3_mk_bvand(c, a, b); break; case OR: r = Z3_mk_bvor(c, a, b); break; case XOR: r = Z3_mk_bvxor(c, a, b); break;
        case SHL: r = Z3_mk_bvshl(c, a, b); break; case LSHR: r = Z3_mk_bvlshr(c, a, b); break; case ASHR: r = Z3_mk_bvashr(c, a, b); break;
        case CONCAT: r = Z3_mk_concat(c, a, b); break;
        case EXTRACT: r = Z3_mk_extract(c, (int)e->v + e->w - 1, (int)e->v, a); break;
        case ZEXT: r = Z3_mk_zero_ext(c, e->w - e->a->w, a); break; case SEXT: r = Z3_mk_sign_ext(c, e->w - e->a->w, a); break;
        case ITE: r = Z3_mk_ite(c, Z3_mk_eq(c, a, num(c, 1, 1)), b, d); break;
        case EQ: r = b2v(c, Z3_mk_eq(c, a, b)); break; case ULT: r = b2v(c, Z3_mk_bvult(c, a, b)); break; case ULE: r = b2v(c, Z3_mk_bvule(c, a, b)); break;
        case SLT: r = b2v(c, Z3_mk_bvslt(c, a, b)); break; case SLE: r = b2v(c, Z3_mk_bvsle(c, a, b)); break;
        case TABLE: { TabData *t = (TabData*)(u64)e->v; r = ztab(c, t->v, a, e->a->w, 0, t->v.size(), e->w); break; }
        }
        m[e] = r; return r;
    }
    Z3_ast ztab(Z3_context c, const std::vector<u64> &v, Z3_ast idx, int iw, size_t lo, size_t hi, int w) {
        bool same = true; for (size_t i = lo; i < hi; i++) if (v[i] != v[lo]) { same = false; break; }
        if (same) return num(c, v[lo], w);
        size_t mid = (lo + hi) / 2;
        return Z3_mk_ite(c, Z3_mk_bvult(c, idx, num(c, mid, iw)), ztab(c, v, idx, iw, lo, mid, w), ztab(c, v, idx, iw, mid, hi, w));
    }
};
