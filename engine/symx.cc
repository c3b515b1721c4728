// symx: symbolic executor for LLVM bitcode of C code (clang 18), used by /verif checks.
//  - bit-precise integers, byte-accurate memory with bounds / lifetime / initialisation checks
//  - doubles: concrete IEEE, exact dyadic rationals over bit-vectors, tabulated, or havoc'd
//  - path forking by fork(2); memory-pure calls are explored by re-execution and merged
//  - branch feasibility and assertions decided by SAT (MiniSat) over the bit-blasted encoding
#include <atomic>
#include <atomic>
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <cmath>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <ucontext.h>
#include <fcntl.h>
#include <errno.h>

ExprMgr X;
Stats *ST;
static Solver *SV;

// ---------------------------------------------------------------- options / shared state
struct Opts { std::string bc, entry = "harness", out = "."; double timeout = 600; u64 steps = 200000000; int jobs = 8; bool merge = true; int tabmax = 14;
    bool fpstrict = false; int wit = 12; int maxviol = 8; int xevery = 0; bool verbose = false; u64 seed = 1; bool nomalloc = false; int mergecap = 4000; bool keep = true; bool undefhavoc = false; bool mw = false; int bdd = 0; } O;
enum { MAXF = 8192, MAXREACH = 256 };
struct Shared { Stats st; std::atomic<int> tokens, live, stop, nviol, nwit, nreach; std::atomic<u64> witseq; std::atomic<uint8_t> cov[MAXF]; char reach[MAXREACH][64]; std::atomic<uint8_t> reachhit[MAXREACH]; std::atomic<int> lock; char viol[64][256]; char unsup[16][200]; std::atomic<int> nunsup; char inc[16][200]; std::atomic<int> ninc; };
static Shared *SH;
static double T0, DEADLINE;
struct Locker { Locker() { int z = 0; while (!SH->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(10); } } ~Locker() { SH->lock = 0; } };

// ---------------------------------------------------------------- values
struct Q { E *num; s64 lo, hi; int sc; E *den; s64 dlo, dhi; E *nz; struct Val *alt; int altop; }; // alt: only the sign is exact; value = alt[0] altop alt[1]
//  // num * 2^sc / den ; nz: value is -0
enum : uint8_t { VC, VE, VQ };
struct Val { u128 c; void *p; uint8_t k;
    Val() : c(0), p(0), k(VC) {}
    Val(u128 v) : c(v), p(0), k(VC) {}
    static Val ex(E *e) { if (e->op == CONST) return Val(e->v); Val v; v.k = VE; v.p = e; return v; }
    static Val qq(Q *q) { Val v; v.k = VQ; v.p = q; return v; }
    E *e() const { return (E*)p; } Q *q() const { return (Q*)p; }
    bool conc() const { return k == VC; } };
struct PathEnd { int why; };          // 0 killed, 1 error, 2 finished(exit), 3 incomplete
struct Impure { struct Ctx *c; };
[[noreturn]] static void endPath(int why) { throw PathEnd{why}; }

enum TK : uint8_t { TI, TF, TD, TP };
struct Leaf { TK k; int bits; int off; int bytes() const { return (bits + 7) / 8; } };
typedef std::vector<Leaf> Ty;

// ---------------------------------------------------------------- program representation
struct Opd { int r; }; // >=0 register, <0 constant ~r
struct Inst {
    uint16_t op; uint8_t pred = 0; uint8_t n = 0; int dst = -1; int nl = 1; int bits = 0, bits2 = 0;
    std::vector<Opd> ops; std::vector<int> aux; std::vector<s64> sc; s64 off = 0; u64 sz = 0; Ty ty; struct Func *fn = nullptr; int line = 0; 
    std::vector<std::pair<u128, int>> cases; std::string name; TK tk = TI; bool nsw = false, nuw = false; };
struct PhiMove { int dst; Opd src; int n; };
struct Block { std::vector<Inst> ins; std::map<int, std::vector<PhiMove>> phis; };
struct Func { std::string name; int id = 0; std::vector<Block> bl; int nregs = 0; std::vector<int> argn; int retn = 0; Ty retty; bool decl = true; u64 addr = 0; bool vararg = false;
    int impure = 0; bool nomerge = false; int bi = -1; const llvm::Function *lf = nullptr; std::string file; bool target = false; };
static std::vector<Func*> funcs; static std::unordered_map<u64, Func*> faddr; static std::map<std::string, Func*> fname;
static std::vector<Val> consts;
static const llvm::DataLayout *DL;

// ---------------------------------------------------------------- memory
struct Obj { u64 base, size; uint8_t kind; bool ro, freed; uint32_t *sh; uint8_t *init; }; // kind 0 global 1 heap 2 stack
struct SymV { Val v; uint8_t n; };
static std::vector<SymV> symvs(1);
static const u64 HEAPSZ = 3ull << 30, STKSZ = 1ull << 30;
static char *arena; static uint32_t *gmap; // granule -> obj index+1 (heap) / stack uses separate vector with high bit
static u64 hbump, sbump, hbase, sbase;
static std::vector<Obj> hobj, sobj; static size_t firstHeap = 0; static long liveHeap = 0;

static void gset(u64 base, u64 size, uint32_t v) { u64 g0 = (base - hbase) >> 4, g1 = (base + (size ? size : 1) - 1 - hbase) >> 4; for (u64 g = g0; g <= g1; g++) gmap[g] = v; }
static inline Obj *findObj(u64 a) {
    if (a - hbase >= HEAPSZ + STKSZ) return nullptr;
    uint32_t v = gmap[(a - hbase) >> 4]; if (!v) return nullptr;
    if (v & 0x80000000u) return &sobj[v & 0x7fffffffu]; return &hobj[v - 1];
}
static u64 allocObj(u64 size, int kind, bool trackinit) {
    u64 sz = (size + 15) & ~15ull; if (!sz) sz = 16;
    Obj o; o.size = size; o.kind = kind; o.ro = false; o.freed = false; o.sh = nullptr; o.init = nullptr;
    if (kind == 2) { o.base = sbump; sbump += sz + 16; if (sbump > sbase + STKSZ) return 0; gset(o.base, size, 0x80000000u | (uint32_t)sobj.size()); }
    else { o.base = hbump; hbump += sz + 16; if (hbump > hbase + HEAPSZ) return 0; gset(o.base, size, (uint32_t)hobj.size() + 1); }
    if (trackinit) { o.init = (uint8_t*)calloc(1, size ? size : 1); }
    (kind == 2 ? sobj : hobj).push_back(o);
    return o.base;
}
static void dropObj(Obj &o) { if (o.sh) free(o.sh); if (o.init) free(o.init); gset(o.base, o.size, 0); }
static void popStack(size_t mark) { while (sobj.size() > mark) { Obj &o = sobj.back(); sbump = o.base; dropObj(o); sobj.pop_back(); } }
static void popHeap(size_t mark) { while (hobj.size() > mark) { Obj &o = hobj.back(); hbump = o.base; if (o.kind == 1 && !o.freed) liveHeap--; dropObj(o); hobj.pop_back(); } }

// ---------------------------------------------------------------- path state
struct Model { std::vector<u64> v; u64 stamp; };
static std::vector<Model*> pool; // models satisfying the path condition
static u64 stampCtr = 1;
static std::vector<E*> pc; static size_t pcBase = 0; // pc[0..pcBase) asserted permanently
struct Dec { E *cond; bool taken, pending, implied; u128 aux; E *src; Model *mt = nullptr, *mf = nullptr; };
struct JEnt { u64 a; uint32_t n; uint8_t k; bool stk; size_t idx; std::vector<uint8_t> by, in; std::vector<uint32_t> sh; };
struct Ctx { std::vector<JEnt> jr; Ctx *parent; Func *f; size_t hmark, smark, inmark, obsmark; std::vector<Dec> dec; size_t pos = 0; bool wrote = false, dead = false; long live; };
static Ctx *ctx; // innermost merge context
struct Input { E *e; std::string name; };
static std::vector<Input> inputs; static std::map<std::pair<size_t, std::string>, E*> inIntern;
struct Obs { std::string n; Val v; int bits; }; static std::vector<Obs> observes;
static std::vector<std::pair<Func*, const Inst*>> callStack;
static u64 stepCount; static int faultBudget = 0; static u64 undefCtr = 0;
static int mergeOff = 0; static const Inst *curInst; static u64 lastTimeCheck;

static Ctx *liveCtx() { Ctx *k = ctx; while (k && (k->dead || (k->wrote && k->dec.empty()))) { k->dead = true; k = k->parent; } return k; }
static void flushBase() { if (liveCtx()) return; extern void assertBaseUpTo(); assertBaseUpTo(); }
static u128 evalM(E *e, Model *m) { return X.eval(e, m->v, m->stamp); }
static E *toE(const Val &v, int bits);

static std::string where() { std::string s; int k = 0;
    for (size_t i = callStack.size(); i-- > 0 && k < 8; k++) { const Inst *in = (i + 1 == callStack.size()) ? curInst : callStack[i + 1].second; char b[200]; snprintf(b, sizeof b, "%s%s:%d", k ? " < " : "", callStack[i].first->name.c_str(), in ? in->line : 0); s += b; } return s; }
static void noteIncomplete(const char *what) { ST->incomplete++; int i = SH->ninc.load(); if (i < 16) { Locker l; for (int j = 0; j < SH->ninc; j++) if (!strncmp(SH->inc[j], what, 100)) return; i = SH->ninc; if (i < 16) { snprintf(SH->inc[i], 200, "%s", what); SH->ninc++; } } }
std::string where_() { return where(); }
[[noreturn]] static void unsupported(const std::string &s) { ST->unsupported++; std::string w = s + " @ " + where(); { Locker l; int i = SH->nunsup; bool dup = false; for (int j = 0; j < i; j++) if (!strncmp(SH->unsup[j], w.c_str(), 80)) dup = true; if (!dup && i < 16) { snprintf(SH->unsup[i], 200, "%s", w.c_str()); SH->nunsup++; } } if (O.verbose) fprintf(stderr, "unsupported: %s\n", w.c_str()); endPath(3); }
static void checkStop() { if (SH->stop) endPath(3); if (now() > DEADLINE) { SH->stop = 1; noteIncomplete("time limit"); endPath(3); } }

static void writeInputs(FILE *f, Model *m) { for (auto &in : inputs) fprintf(f, "in %s %d %llu\n", in.name.c_str(), in.e->w, (unsigned long long)(u64)evalM(in.e, m)); }
static void violation(const std::string &kind, const std::string &msg, Model *m) {
    ST->errors++;
    std::string loc = callStack.empty() ? "?" : where(); std::string fn = callStack.empty() ? "?" : callStack.back().first->name;
    std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : fn); int id;
    { Locker l; int n = SH->nviol; for (int i = 0; i < n; i++) if (!strncmp(SH->viol[i], key.c_str(), 255)) return; if (n >= O.maxviol || n >= 64) { SH->stop = 1; return; } id = n; strncpy(SH->viol[n], key.c_str(), 255); SH->nviol++; }
    char fnm[600]; snprintf(fnm, sizeof fnm, "%s/viol.%d.txt", O.out.c_str(), id); FILE *f = fopen(fnm, "w");
    fprintf(f, "kind %s\nmsg %s\nloc %s\n", kind.c_str(), msg.c_str(), loc.c_str()); writeInputs(f, m); fclose(f);
    if (O.verbose) fprintf(stderr, "VIOL %s: %s @ %s\n", kind.c_str(), msg.c_str(), loc.c_str());
    if (!O.keep) SH->stop = 1;
}
[[noreturn]] static void memError(const std::string &kind, const std::string &msg) { violation(kind, msg, pool[0]); endPath(1); }

static void addModel(Model *m) { pool.insert(pool.begin(), m); if (pool.size() > 12) pool.pop_back(); }
void assertBaseUpTo() { for (size_t i = pcBase; i < pc.size(); i++) SV->assertBase(pc[i]); pcBase = pc.size(); }
static int solve(E *cond, Model **out) {
    std::vector<u64> mv; int r = SV->check(pc, pcBase, cond, &mv);
    if (r == 1) { Model *m = new Model{std::move(mv), ++stampCtr}; if (out) *out = m;
        if (cond && !evalM(cond, m)) { fprintf(stderr, "symx: internal: model does not satisfy cond\n"); abort(); } }
    return r;
}
static void filterPool(E *c) { size_t j = 0; for (size_t i = 0; i < pool.size(); i++) if (evalM(c, pool[i])) pool[j++] = pool[i]; pool.resize(j); }
static void addPC(E *c) { // caller guarantees satisfiable; pool filtered
    if (X.isc(c)) return;
    // split conjunctions
    pc.push_back(c); filterPool(c);
    flushBase();
}
struct QC { u64 h2; Model *t, *f; };
// feasibility of both sides: bit0 = true feasible, bit1 = false feasible
static int feas(E *c, Model **mt, Model **mf) {
    Model *t = 0, *f = 0; for (Model *m : pool) { if (evalM(c, m)) { if (!t) t = m; } else if (!f) f = m; if (t && f) break; }
    if (!t && !f) { fprintf(stderr, "symx: internal: empty model pool\n"); abort(); }
    int r = (t ? 1 : 0) | (f ? 2 : 0);
    if (r == 3) { *mt = t; *mf = f; return r; }
    u64 h1 = 0x9e3779b97f4a7c15ull, h2 = c->id; for (E *e : pc) { h1 = (h1 ^ e->id) * 0xff51afd7ed558ccdull; h1 ^= h1 >> 29; h2 = (h2 + e->id) * 0xc4ceb9fe1a85ec53ull; h2 ^= h2 >> 32; }
    static std::unordered_map<u64, QC> qcache; h1 = h1 * 31 + c->id; auto it = qcache.find(h1);
    if (it != qcache.end() && it->second.h2 == h2) { QC &q = it->second; if (!t) t = q.t; if (!f) f = q.f; r = (t ? 1 : 0) | (f ? 2 : 0); *mt = t; *mf = f; return r; }
    if (!t) { int s = solve(c, &t); if (s == 1) { r |= 1; } else if (s < 0) noteIncomplete("solver budget"); }
    if (!f) { int s = solve(X.neg(c), &f); if (s == 1) { r |= 2; } else if (s < 0) noteIncomplete("solver budget"); }
    if (qcache.size() < 3000000) qcache[h1] = QC{h2, t, f};
    *mt = t; *mf = f; return r;
}
static void take(E *c, bool side, Model *m) { E *k = side ? c : X.neg(c); addPC(k); if (pool.empty()) { pool.push_back(m); } else { bool has = false; for (Model *q : pool) if (q == m) has = true; if (!has) addModel(m); } }

static bool doFork(E *c, Model *mt, Model *mf) { // returns side taken by this process
    checkStop();
    while (waitpid(-1, nullptr, WNOHANG) > 0) {}
    ST->forks++; static bool dbg = getenv("SXFORKS"); if (dbg) fprintf(stderr, "FORK %s\n", where().c_str());
    bool par = false; int t = SH->tokens.load(); while (t > 0) { if (SH->tokens.compare_exchange_weak(t, t - 1)) { par = true; break; } }
    SH->live++;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { SH->live--; if (par) SH->tokens++; noteIncomplete("fork failed"); take(c, true, mt); return true; }
    if (pid == 0) { ST->procs++; extern bool ownToken; ownToken = par; extern bool isChild; isChild = true; SV->qn = 0; take(c, false, mf); return false; }
    if (!par) { int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->live--; noteIncomplete("explorer process died"); } checkStop(); }
    take(c, true, mt); return true;
}
bool ownToken = false, isChild = false;

// Uninitialised bytes are variables. A decision that mentions them is an error only if some value of them changes it: padding that is
// copied around and masked off again is not. The decision then goes on without them.
static std::unordered_map<E*, E*> usub[2];
static E *substUndef(E *e, int alt) {
    if (!e || !e->undef) return e;
    auto it = usub[alt].find(e); if (it != usub[alt].end()) return it->second;
    E *r;
    if (e->op == VAR) r = alt ? X.var(e->w, X.varnames[(size_t)e->v] + "'") : X.cst(0, e->w);
    else { E *a = substUndef(e->a, alt), *b = substUndef(e->b, alt), *c = substUndef(e->c, alt);
        switch (e->op) { case CONCAT: r = X.concat(a, b); break; case EXTRACT: r = X.extract(a, (int)e->v, e->w); break; case ZEXT: r = X.zext(a, e->w); break; case SEXT: r = X.sext(a, e->w); break;
        case ITE: r = X.ite(a, b, c); break; case TABLE: { std::vector<u64> t = ((TabData*)(u64)e->v)->v; r = X.table(a, std::move(t), e->w); break; } default: r = X.bin(e->op, a, b); } }
    usub[alt][e] = r; return r; }
static E *defined(E *c, const char *what, const std::string &msg = "") {
    if (!c->undef) return c;
    E *z = substUndef(c, 0), *o = substUndef(c, 1), *d = X.neg(X.bin(EQ, z, o));
    if (X.isc(d) && !d->v) return z;
    Model *m = nullptr; int s = X.isc(d) ? 1 : solve(d, &m);
    if (s < 0) noteIncomplete("solver budget");
    if (s == 1) { violation("uninit", std::string(what) + msg, m ? m : pool[0]); endPath(1); }
    return z; }
static bool branch(E *c) {
    if (X.isc(c)) return c->v != 0;
    if (c->undef) { c = defined(c, "branch depends on uninitialised memory"); if (X.isc(c)) return c->v != 0; }
    ST->branches++;
    Ctx *k = liveCtx();
    if (k) {
        if (k->pos < k->dec.size()) { Dec &d = k->dec[k->pos++]; if (d.cond != c) { fprintf(stderr, "symx: internal: replay divergence in %s at %s\n", k->f->name.c_str(), where().c_str()); abort(); }
            if (d.implied) return d.taken;
            E *kk = d.taken ? c : X.neg(c);
            pc.push_back(kk); filterPool(kk); if (pool.empty()) { Model *m = d.taken ? d.mt : d.mf; if (!m) { int s = solve(nullptr, &m); if (s != 1) { if (s < 0) noteIncomplete("solver budget"); endPath(0); } } pool.push_back(m); }
            return d.taken; }
        if ((k->dec.size() & 15) == 0) checkStop();
        Model *mt, *mf; int r = feas(c, &mt, &mf);
        if (r == 0) endPath(3);
        if (r != 3) { // implied: record so that replays skip the solver
            bool s = r == 1; k->dec.push_back(Dec{c, s, false, true, 0, nullptr}); k->pos++; return s; }
        k->dec.push_back(Dec{c, true, true, false, 0, nullptr, mt, mf}); k->pos++; take(c, true, mt); return true;
    }
    Model *mt, *mf; int r = feas(c, &mt, &mf);
    if (r == 0) endPath(3);
    if (r == 1) return true; if (r == 2) return false;
    return doFork(c, mt, mf);
}
static void assume(E *c) {
    if (X.isc(c)) { if (!c->v) { ST->pathsKilled++; endPath(0); } return; }
    Model *m = 0; for (Model *q : pool) if (evalM(c, q)) { m = q; break; }
    if (!m) { int s = solve(c, &m); if (s == 0) { ST->pathsKilled++; endPath(0); } if (s < 0) { noteIncomplete("solver budget"); endPath(3); } }
    pc.push_back(c); filterPool(c); if (pool.empty()) pool.push_back(m);
    flushBase();
}
// assert-like: report if violable, continue under the condition
static void require(E *c, const std::string &kind, const std::string &msg) {
    ST->asserts++;
    if (X.isc(c)) { if (!c->v) memError(kind, msg); return; }
    if (c->undef) { c = defined(c, "assertion depends on uninitialised memory: ", msg); if (X.isc(c)) { if (!c->v) memError(kind, msg); return; } }
    Model *f = 0, *t = 0; for (Model *m : pool) { if (evalM(c, m)) t = m; else f = m; }
    if (!f) { ST->assertq++; int s = solve(X.neg(c), &f); if (s < 0) noteIncomplete("solver budget on assertion"); }
    if (f) { violation(kind, msg, f); if (!t) { int s = solve(c, &t); if (s != 1) endPath(1); }
        pc.push_back(c); filterPool(c); if (pool.empty()) pool.push_back(t);
        flushBase(); }
}
static u128 concretize(E *e) {
    if (X.isc(e)) return e->v;
    if (e->undef) { e = defined(e, "address or size depends on uninitialised memory"); if (X.isc(e)) return e->v; }
    for (int i = 0; i < 100000; i++) {
        Ctx *k = liveCtx();
        u128 v; if (k && k->pos < k->dec.size() && k->dec[k->pos].src == e) v = k->dec[k->pos].aux; else v = evalM(e, pool[0]);
        E *c = X.bin(EQ, e, X.cst(v, e->w)); size_t p = k ? k->pos : 0; 
        if (X.isc(c)) { if (c->v) return v; unsupported("concretize"); }
        size_t before = k ? k->dec.size() : 0; bool s = branch(c);
        if (k && k->dec.size() > before) { k->dec[p].aux = v; k->dec[p].src = e; }
        if (s) return v;
    }
    unsupported("concretize: too many values");
}
static u128 cval(const Val &v, int bits) { if (v.k == VC) return v.c; return concretize(toE(v, bits)); }

// ---------------------------------------------------------------- floating point
static double bd(u64 b) { double d; memcpy(&d, &b, 8); return d; } static u64 db(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static float bf(u64 b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; } static u64 fb(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static double vd(u64 c, bool dbl) { return dbl ? bd(c) : (double)bf(c); } static u64 dv(double d, bool dbl) { return dbl ? db(d) : fb((float)d); }
static int sbits(s64 lo, s64 hi) { u64 m = std::max(lo < 0 ? ~(u64)lo : (u64)lo, hi < 0 ? ~(u64)hi : (u64)hi); return (m ? 64 - __builtin_clzll(m) : 0) + 1; }
static E *sfit(E *e, int w) { if (e->w == w) return e; if (e->w < w) return X.sext(e, w); return X.extract(e, 0, w); }
static Q *newQ(E *num, s64 lo, s64 hi, int sc, E *den = nullptr, s64 dlo = 1, s64 dhi = 1, E *nz = nullptr) {
    Q *q = new Q(); q->num = sfit(num, sbits(lo, hi)); q->lo = std::max(lo, q->num->slo); q->hi = std::min(hi, q->num->shi); q->sc = sc; q->den = den; q->dlo = dlo; q->dhi = dhi; q->nz = nz && X.isc(nz) && !nz->v ? nullptr : nz; return q; }
static bool dToQ(double d, Q &q) { if (!std::isfinite(d)) return false; if (d == 0) { q = Q{X.cst(0, 1), 0, 0, 0, nullptr, 1, 1, std::signbit(d) ? X.tru() : nullptr}; return true; }
    int e; double m = frexp(d, &e); s64 n = (s64)ldexp(m, 53); e -= 53; while (!(n & 1)) { n >>= 1; e++; } q = Q{X.cst((u128)(s128)n, sbits(n, n)), n, n, e, nullptr, 1, 1, nullptr}; return true; }
static E *isneg(Q *q) { E *s = q->num->shi < 0 ? X.tru() : q->num->slo >= 0 ? X.fls() : X.extract(q->num, q->num->w - 1, 1); 
    if (q->den) { E *ds = q->den->slo >= 0 ? X.fls() : X.extract(q->den, q->den->w - 1, 1); s = X.bin(XOR, s, ds); s = X.bin(AND, s, X.neg(X.bin(EQ, q->num, X.cst(0, q->num->w)))); }
    if (q->nz) s = X.bin(OR, s, q->nz); return s; } // sign bit
static E *isz(Q *q) { return X.bin(EQ, q->num, X.cst(0, q->num->w)); }
static E *qbits(Q *q, bool dbl);
static E *toE(const Val &v, int bits) { if (v.k == VC) return X.cst(v.c, bits); if (v.k == VE) return v.e(); return qbits(v.q(), bits == 64); }

// tabulation: evaluate expression for every assignment of the support variables
struct EvalVec { std::vector<u64> v; };
static std::unordered_map<E*, EvalVec> evmemo; static std::vector<E*> evvars; static int evbits;
static const std::vector<u64> &evalVec(E *e) {
    auto it = evmemo.find(e); if (it != evmemo.end()) return it->second.v;
    size_t n = (size_t)1 << evbits; std::vector<u64> r(n);
    if (e->op == CONST) { std::fill(r.begin(), r.end(), (u64)e->v); }
    else if (e->op == VAR) { int sh = 0; for (E *v : evvars) { if (v == e) break; sh += v->w; } for (size_t i = 0; i < n; i++) r[i] = (i >> sh) & mask64(e->w); }
    else { std::vector<u64> A, B, C; if (e->a) A = evalVec(e->a); if (e->b) B = evalVec(e->b); if (e->c) C = evalVec(e->c);
        u64 mk = mask64(e->w > 64 ? 64 : e->w); TabData *t = e->op == TABLE ? (TabData*)(u64)e->v : nullptr;
        for (size_t i = 0; i < n; i++) { u64 x;
            switch (e->op) { case CONCAT: x = (A[i] << e->b->w) | B[i]; break; case EXTRACT: x = A[i] >> (int)e->v; break; case ZEXT: x = A[i]; break;
            case SEXT: x = (u64)sx64(A[i], e->a->w); break; case ITE: x = A[i] ? B[i] : C[i]; break; case TABLE: x = A[i] < t->v.size() ? t->v[A[i]] : 0; break;
            default: x = (u64)ExprMgr::fold(e->op, A[i], B[i], e->a->w); }
            r[i] = x & mk; } }
    auto &slot = evmemo[e]; slot.v = std::move(r); return slot.v;
}
static bool unionSupport(const std::vector<E*> &es) { std::vector<E*> vs; for (E *e : es) { if (!e) continue; if (e->w > 64) return false; Support *s = X.support(e); if (s->bits > O.tabmax) return false; vs.insert(vs.end(), s->vars.begin(), s->vars.end()); }
    std::sort(vs.begin(), vs.end(), [](E *x, E *y) { return x->id < y->id; }); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
    int b = 0; for (E *v : vs) b += v->w; if (b > O.tabmax) return false;
    if (vs != evvars || evmemo.size() > 20000) { evmemo.clear(); evvars = vs; } evbits = b; return true; }
static E *tabIdx() { E *i = nullptr; for (E *v : evvars) i = i ? X.concat(v, i) : v; return i; }
static std::vector<E*> fpDeps(const Val &v) { if (v.k == VQ && v.q()->alt) { std::vector<E*> a = fpDeps(v.q()->alt[0]), b = fpDeps(v.q()->alt[1]); a.insert(a.end(), b.begin(), b.end()); return a; } if (v.k == VE) return {v.e()}; if (v.k == VQ) return {v.q()->num, v.q()->den, v.q()->nz}; return {}; }
static Val fpbin(int op, const Val &a, const Val &b, bool dbl);
static std::vector<u64> fpVec(const Val &v, bool dbl) { size_t n = (size_t)1 << evbits; if (v.k == VC) return std::vector<u64>(n, (u64)v.c); if (v.k == VE) return evalVec(v.e());
    Q *q = v.q(); if (q->alt) { std::vector<u64> a = fpVec(q->alt[0], dbl), b = fpVec(q->alt[1], dbl); for (size_t i = 0; i < n; i++) a[i] = (u64)fpbin(q->altop, Val((u128)a[i]), Val((u128)b[i]), dbl).c; return a; }
    std::vector<u64> r(n), N = evalVec(q->num), D, Z; if (q->den) D = evalVec(q->den); if (q->nz) Z = evalVec(q->nz);
    for (size_t i = 0; i < n; i++) { double x = ldexp((double)sx64(N[i], q->num->w), q->sc); if (q->den) { double d = (double)sx64(D[i], q->den->w); x = d != 0 ? x / d : 0; } if (q->nz && Z[i]) x = -0.0; r[i] = dv(x, dbl); } return r; }
// generic tabulated op; f: raw inputs -> raw output
template <class F> static E *tabulate(const std::vector<std::pair<Val, bool>> &in, int outw, F f) {
    std::vector<E*> deps; for (auto &p : in) for (E *e : fpDeps(p.first)) if (e) deps.push_back(e);
    if (!unionSupport(deps)) return nullptr;
    std::vector<std::vector<u64>> cols; for (auto &p : in) cols.push_back(fpVec(p.first, p.second));
    size_t n = (size_t)1 << evbits; std::vector<u64> r(n); u64 a[4];
    for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < cols.size(); j++) a[j] = cols[j][i]; r[i] = f(a); }
    ST->tabs++;
    return X.table(tabIdx(), std::move(r), outw);
}
static Val havocV(int bits, const char *what) { ST->havocs++; static bool dbg = getenv("SXHAVOC"); if (dbg) fprintf(stderr, "HAVOC %s %s\n", what, where().c_str()); if (O.fpstrict) unsupported(std::string("inexact floating point: ") + what);
    char b[64]; snprintf(b, sizeof b, "havoc%llu", (unsigned long long)undefCtr++); E *e = X.var(bits, b); e->havoc = true; return Val::ex(e); }
// the same inexact operation on the same operands is the same (unknown) value
static std::map<std::vector<u64>, E*> havocMemo;
static void hkey(std::vector<u64> &k, const Val &a) { if (a.k == VC) { k.push_back(1); k.push_back((u64)a.c); } else if (a.k == VQ) { Q *q = a.q(); k.insert(k.end(), {2, (u64)q->num, (u64)q->den, (u64)q->nz, (u64)q->sc, (u64)q->lo, (u64)q->hi, (u64)q->altop}); if (q->alt) { hkey(k, q->alt[0]); hkey(k, q->alt[1]); } } else { k.push_back(3); k.push_back((u64)a.e()); } }
static Val havocM(int bits, const char *what, int op, const Val &a, const Val *b = nullptr) {
    std::vector<u64> k, x, y; hkey(x, a); if (b) hkey(y, *b); if (b && (op == llvm::Instruction::FAdd || op == llvm::Instruction::FMul) && y < x) x.swap(y);
    k = {(u64)bits, (u64)op, (u64)what[0], (u64)what[1]}; k.insert(k.end(), x.begin(), x.end()); k.insert(k.end(), y.begin(), y.end());
    E *&e = havocMemo[k]; if (!e) e = havocV(bits, what).e(); return Val::ex(e); }
static E *qbits(Q *q, bool dbl) { // raw IEEE bits of an exact value
    Val v = Val::qq(q);
    if (!q->alt && !q->den && !q->nz && q->hi - q->lo <= 65536) { size_t n = (size_t)(q->hi - q->lo + 1); std::vector<u64> r(n); for (size_t i = 0; i < n; i++) r[i] = dv(ldexp((double)(q->lo + (s64)i), q->sc), dbl);
        int w = q->num->w; E *idx = X.bin(SUB, X.sext(q->num, w + 1), X.cst((u128)(s128)q->lo, w + 1)); return X.table(idx, std::move(r), dbl ? 64 : 32); }
    E *t = tabulate({{v, dbl}}, dbl ? 64 : 32, [](u64 *a) { return a[0]; });
    if (!t) unsupported("bits of symbolic float"); return t;
}
static const s64 LIM53 = 1ll << 53, LIM24 = 1ll << 24, LIMQ = 1ll << 25;
static s64 maxabs(s64 lo, s64 hi) { return std::max(lo < 0 ? -lo : lo, hi < 0 ? -hi : hi); }
static Val shrinkQ(Q *q) { if (!q->den && X.isc(q->num) && (!q->nz || X.isc(q->nz))) { double d = ldexp((double)sx64((u64)q->num->v, q->num->w), q->sc); if (q->nz && q->nz->v) d = -0.0; return Val((u128)db(d)); } return Val::qq(q); }
static Val finishQ(Q *q, bool dbl) { Val v = shrinkQ(q); if (v.k == VC && !dbl) return Val((u128)fb((float)bd((u64)v.c))); return v; }
static Val fpneg(const Val &a, bool dbl);
static bool asQ(const Val &v, bool dbl, Q &q) { if (v.k == VQ) { q = *v.q(); return !q.alt; } if (v.k == VC) return dToQ(vd((u64)v.c, dbl), q); return false; }
static Val fpbin(int op, const Val &a, const Val &b, bool dbl) {
    using namespace llvm;
    if (a.k == VC && b.k == VC) {
        if (dbl) { double x = bd(a.c), y = bd(b.c), r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; } return Val((u128)db(r)); }
        float x = bf(a.c), y = bf(b.c), r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmodf(x, y); break; } return Val((u128)fb(r));
    }
    s64 LIM = dbl ? LIM53 : LIM24; Q p, q;
    if (asQ(a, dbl, p) && asQ(b, dbl, q)) {
        if (op == Instruction::FMul) {
            // multiplication by a power of two keeps fractions exact; otherwise both must be integers
            s128 c[4] = {(s128)p.lo * q.lo, (s128)p.lo * q.hi, (s128)p.hi * q.lo, (s128)p.hi * q.hi}; s128 lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4);
            bool pow2 = (q.lo == q.hi && (q.lo == 1 || q.lo == -1)) || (p.lo == p.hi && (p.lo == 1 || p.lo == -1));
            if (lo >= -LIM && hi <= LIM && ((!p.den && !q.den) || pow2) && abs(p.sc + q.sc) < 300) {
                int w = sbits((s64)lo, (s64)hi); w = std::max(w, 1); E *n = X.bin(MUL, sfit(p.num, w), sfit(q.num, w)); 
                E *den = p.den ? p.den : q.den; s64 dlo = p.den ? p.dlo : q.dlo, dhi = p.den ? p.dhi : q.dhi;
                E *rz = X.bin(EQ, n, X.cst(0, w)); E *nz = X.bin(AND, rz, X.bin(XOR, isneg(&p), isneg(&q)));
                return finishQ(newQ(n, (s64)lo, (s64)hi, p.sc + q.sc, den, dlo, dhi, nz), dbl); }
        } else if (op == Instruction::FAdd || op == Instruction::FSub) {
            if (!p.den && !q.den && abs(p.sc - q.sc) < 54) {
                if (p.lo == 0 && p.hi == 0) p.sc = q.sc; if (q.lo == 0 && q.hi == 0) q.sc = p.sc;
                int sc = std::min(p.sc, q.sc); int s1 = p.sc - sc, s2 = q.sc - sc; s128 l1 = (s128)p.lo << s1, h1 = (s128)p.hi << s1, l2 = (s128)q.lo << s2, h2 = (s128)q.hi << s2;
                s128 lo, hi; if (op == Instruction::FAdd) { lo = l1 + l2; hi = h1 + h2; } else { lo = l1 - h2; hi = h1 - l2; }
                if (lo >= -LIM && hi <= LIM && l1 >= -LIM * 4 && h1 <= LIM * 4 && l2 >= -LIM * 4 && h2 <= LIM * 4) {
                    int w = std::max({sbits((s64)lo, (s64)hi), sbits((s64)l1, (s64)h1), sbits((s64)l2, (s64)h2)}) + 0;
                    E *x = sfit(p.num, w), *y = sfit(q.num, w); if (s1) x = X.bin(SHL, x, X.cst(s1, w)); if (s2) y = X.bin(SHL, y, X.cst(s2, w));
                    E *n = X.bin(op == Instruction::FAdd ? ADD : SUB, x, y); 
                    E *nz = nullptr; // -0 only from (-0)+(-0) or (-0)-(+0)
                    if (p.nz) nz = op == Instruction::FAdd ? (q.nz ? X.bin(AND, p.nz, q.nz) : nullptr) : X.bin(AND, p.nz, X.bin(AND, isz(&q), X.neg(isneg(&q))));
                    return finishQ(newQ(n, (s64)lo, (s64)hi, sc, nullptr, 1, 1, nz), dbl); }
            }
            if (dbl && (p.den || q.den)) { // fl(a/b) -+ c: the sign of the result is the sign of the exact value
                if (p.lo == 0 && p.hi == 0) p.sc = q.sc; if (q.lo == 0 && q.hi == 0) q.sc = p.sc;
                int sc = std::min(p.sc, q.sc), s1 = p.sc - sc, s2 = q.sc - sc;
                if (s1 < 25 && s2 < 25 && (maxabs(p.lo, p.hi) << s1) < LIMQ && (maxabs(q.lo, q.hi) << s2) < LIMQ && maxabs(p.dlo, p.dhi) < LIMQ && maxabs(q.dlo, q.dhi) < LIMQ) {
                    auto mulq = [](E *a, s64 al, s64 ah, E *b, s64 bl, s64 bh, s64 &lo, s64 &hi) { s64 c[4] = {al * bl, al * bh, ah * bl, ah * bh}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); int w = sbits(lo, hi); return X.bin(MUL, sfit(a, w), sfit(b, w)); };
                    E *x = p.num, *y = q.num; s64 xl = p.lo, xh = p.hi, yl = q.lo, yh = q.hi;
                    if (q.den) x = mulq(p.num, p.lo, p.hi, q.den, q.dlo, q.dhi, xl, xh); if (p.den) y = mulq(q.num, q.lo, q.hi, p.den, p.dlo, p.dhi, yl, yh);
                    s64 ml = std::max(maxabs(xl, xh) << s1, maxabs(yl, yh) << s2) * 2; int w = sbits(-ml, ml); x = sfit(x, w); y = sfit(y, w); if (s1) x = X.bin(SHL, x, X.cst(s1, w)); if (s2) y = X.bin(SHL, y, X.cst(s2, w));
                    E *n = X.bin(op == Instruction::FAdd ? ADD : SUB, x, y); E *den = p.den ? p.den : q.den; s64 dl = p.den ? p.dlo : q.dlo, dh = p.den ? p.dhi : q.dhi;
                    if (p.den && q.den) den = mulq(p.den, p.dlo, p.dhi, q.den, q.dlo, q.dhi, dl, dh);
                    if (X.isc(n) && n->v == 0) return Val(0); // exact zero (sign +: round to nearest)
                    Q *r = newQ(n, -ml, ml, sc, den, dl, dh); r->alt = new Val[2]{a, b}; r->altop = op; return Val::qq(r); } }
        } else if (op == Instruction::FDiv) {
            if (!p.den && !q.den && maxabs(p.lo, p.hi) < LIMQ && maxabs(q.lo, q.hi) < LIMQ && dbl && !(X.isc(p.num) && X.isc(q.num))) {
                E *bz = isz(&q);
                if (branch(bz)) { if (branch(isz(&p))) return Val((u128)0x7ff8000000000000ull); bool ng = branch(X.bin(XOR, isneg(&p), isneg(&q))); return Val((u128)db(ng ? -INFINITY : INFINITY)); }
                if (q.lo == 0) q.lo = 1; if (q.hi == 0) q.hi = -1;
                E *nz = X.bin(AND, isz(&p), X.bin(XOR, isneg(&p), isneg(&q)));
                if (X.isc(q.num)) { s64 d = sx64((u64)q.num->v, q.num->w); s64 ad = d < 0 ? -d : d;
                    if ((ad & (ad - 1)) == 0) { int sh = __builtin_ctzll(ad); E *n = p.num; s64 lo = p.lo, hi = p.hi; if (d < 0) { lo = -p.hi; hi = -p.lo; int w = sbits(lo, hi); w = std::max(w, (int)n->w) ; n = X.bvneg(sfit(n, w)); }
                        return finishQ(newQ(n, lo, hi, p.sc - q.sc - sh, nullptr, 1, 1, nz), dbl); } }
                return Val::qq(newQ(p.num, p.lo, p.hi, p.sc - q.sc, q.num, q.lo, q.hi, nz)); }
        }
    }
    E *t = tabulate({{a, dbl}, {b, dbl}}, dbl ? 64 : 32, [&](u64 *v) { Val r = fpbin(op, Val((u128)v[0]), Val((u128)v[1]), dbl); return (u64)r.c; });
    if (t) return Val::ex(t);
    return havocM(dbl ? 64 : 32, "arith", op, a, &b);
}
// ordered compare on raw bits
static E *rawLess(E *a, E *b, bool eq) { int w = a->w; E *sa = X.extract(a, w - 1, 1), *sb = X.extract(b, w - 1, 1), *ma = X.extract(a, 0, w - 1), *mb = X.extract(b, 0, w - 1);
    E *bothz = X.bin(AND, X.bin(EQ, ma, X.cst(0, w - 1)), X.bin(EQ, mb, X.cst(0, w - 1)));
    E *lt = X.ite(sa, X.ite(sb, X.bin(ULT, mb, ma), X.tru()), X.ite(sb, X.fls(), X.bin(ULT, ma, mb)));
    E *same = X.bin(EQ, a, b); lt = X.bin(AND, lt, X.neg(bothz)); return eq ? X.bin(OR, lt, X.bin(OR, bothz, same)) : lt; }
static E *rawNan(E *a) { int w = a->w; u64 inf = w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull; return X.bin(ULT, X.cst(inf, w - 1), X.extract(a, 0, w - 1)); }
static bool cmpConc(int pred, double x, double y) { using P = llvm::CmpInst; bool u = std::isnan(x) || std::isnan(y);
    switch (pred) { case P::FCMP_OEQ: return !u && x == y; case P::FCMP_OGT: return !u && x > y; case P::FCMP_OGE: return !u && x >= y; case P::FCMP_OLT: return !u && x < y; case P::FCMP_OLE: return !u && x <= y; case P::FCMP_ONE: return !u && x != y; case P::FCMP_ORD: return !u;
    case P::FCMP_UNO: return u; case P::FCMP_UEQ: return u || x == y; case P::FCMP_UGT: return u || x > y; case P::FCMP_UGE: return u || x >= y; case P::FCMP_ULT: return u || x < y; case P::FCMP_ULE: return u || x <= y; case P::FCMP_UNE: return u || x != y; case P::FCMP_TRUE: return true; default: return false; } }
static E *qless(const Q &p, const Q &q, bool eq, bool &ok) { // p < q (or <=)
    ok = false; Q a = p, b = q;
    if (a.lo == 0 && a.hi == 0) a.sc = b.sc; if (b.lo == 0 && b.hi == 0) b.sc = a.sc;
    int sc = std::min(a.sc, b.sc); int s1 = a.sc - sc, s2 = b.sc - sc; if (s1 > 60 || s2 > 60) return nullptr;
    s128 L1 = (s128)a.lo << s1, H1 = (s128)a.hi << s1, L2 = (s128)b.lo << s2, H2 = (s128)b.hi << s2; const s128 LM = (s128)1 << 62;
    if (L1 < -LM || H1 > LM || L2 < -LM || H2 > LM) return nullptr;
    int w = std::max(sbits((s64)L1, (s64)H1), sbits((s64)L2, (s64)H2));
    E *x = sfit(a.num, w), *y = sfit(b.num, w); if (s1) x = X.bin(SHL, x, X.cst(s1, w)); if (s2) y = X.bin(SHL, y, X.cst(s2, w));
    if (a.den || b.den) {
        bool zero = (L1 == 0 && H1 == 0) || (L2 == 0 && H2 == 0);
        if (!zero && (maxabs((s64)L1, (s64)H1) >= LIMQ || maxabs((s64)L2, (s64)H2) >= LIMQ)) return nullptr;
        if (zero && (L1 == 0 && H1 == 0 ? (bool)a.den : (bool)b.den)) return nullptr;
        s64 m1 = b.den ? maxabs(b.dlo, b.dhi) : 1, m2 = a.den ? maxabs(a.dlo, a.dhi) : 1; if (!zero && (m1 >= LIMQ || m2 >= LIMQ)) return nullptr;
        if (zero) { // only signs matter
            E *flip = X.fls(); for (const Q *z : {&a, &b}) if (z->den) flip = z->dlo > 0 ? X.fls() : z->dhi < 0 ? X.tru() : X.extract(z->den, z->den->w - 1, 1);
            ok = true; E *l = X.bin(eq ? SLE : SLT, x, y), *g = X.bin(eq ? SLE : SLT, y, x); return X.ite(flip, g, l); }
        s64 t = std::max(maxabs((s64)L1, (s64)H1) * m1, maxabs((s64)L2, (s64)H2) * m2); w = sbits(-t, t); x = sfit(x, w); y = sfit(y, w);
        if (b.den) x = X.bin(MUL, x, sfit(b.den, w)); if (a.den) y = X.bin(MUL, y, sfit(a.den, w));
        E *flip = X.fls(); for (const Q *z : {&a, &b}) if (z->den) flip = X.bin(XOR, flip, z->dlo > 0 ? X.fls() : z->dhi < 0 ? X.tru() : X.extract(z->den, z->den->w - 1, 1));
        ok = true; E *l = X.bin(eq ? SLE : SLT, x, y), *g = X.bin(eq ? SLE : SLT, y, x); return X.ite(flip, g, l);
    }
    ok = true; return X.bin(eq ? SLE : SLT, x, y);
}
static E *fpcmp(int pred, const Val &a, const Val &b, bool dbl) {
    using P = llvm::CmpInst;
    if (a.k == VC && b.k == VC) return cmpConc(pred, vd(a.c, dbl), vd(b.c, dbl)) ? X.tru() : X.fls();
    if (pred == P::FCMP_TRUE) return X.tru(); if (pred == P::FCMP_FALSE) return X.fls();
    // constant inf/nan against an exact value
    for (int s = 0; s < 2; s++) { const Val &k = s ? b : a, &o = s ? a : b; if (k.k == VC && o.k == VQ) { double d = vd(k.c, dbl); if (!std::isfinite(d)) { double z = 0; return cmpConc(pred, s ? z : d, s ? d : z) ? X.tru() : X.fls(); } } }
    Q p, q;
    bool aq = asQ(a, dbl, p), bq = asQ(b, dbl, q);
    if (a.k == VQ && !aq && b.k == VC && vd(b.c, dbl) == 0) aq = true; if (b.k == VQ && !bq && a.k == VC && vd(a.c, dbl) == 0) bq = true;
    if (aq && bq) { bool ok; E *r = nullptr; bool o1;
        switch (pred) {
        case P::FCMP_OLT: case P::FCMP_ULT: r = qless(p, q, false, ok); if (ok) return r; break;
        case P::FCMP_OLE: case P::FCMP_ULE: r = qless(p, q, true, ok); if (ok) return r; break;
        case P::FCMP_OGT: case P::FCMP_UGT: r = qless(q, p, false, ok); if (ok) return r; break;
        case P::FCMP_OGE: case P::FCMP_UGE: r = qless(q, p, true, ok); if (ok) return r; break;
        case P::FCMP_OEQ: case P::FCMP_UEQ: case P::FCMP_ONE: case P::FCMP_UNE: {
            E *l = qless(p, q, true, ok), *g = qless(q, p, true, o1); if (ok && o1) { E *e = X.bin(AND, l, g); return pred == P::FCMP_OEQ || pred == P::FCMP_UEQ ? e : X.neg(e); } break; }
        case P::FCMP_ORD: return X.tru(); case P::FCMP_UNO: return X.fls(); }
    }
    E *t = tabulate({{a, dbl}, {b, dbl}}, 1, [&](u64 *v) { return (u64)cmpConc(pred, vd(v[0], dbl), vd(v[1], dbl)); });
    if (t) return t;
    E *x = toE(a, dbl ? 64 : 32), *y = toE(b, dbl ? 64 : 32); E *un = X.bin(OR, rawNan(x), rawNan(y)); E *od = X.neg(un);
    switch (pred) {
    case P::FCMP_OLT: return X.bin(AND, od, rawLess(x, y, false)); case P::FCMP_OLE: return X.bin(AND, od, rawLess(x, y, true));
    case P::FCMP_OGT: return X.bin(AND, od, rawLess(y, x, false)); case P::FCMP_OGE: return X.bin(AND, od, rawLess(y, x, true));
    case P::FCMP_ULT: return X.bin(OR, un, rawLess(x, y, false)); case P::FCMP_ULE: return X.bin(OR, un, rawLess(x, y, true));
    case P::FCMP_UGT: return X.bin(OR, un, rawLess(y, x, false)); case P::FCMP_UGE: return X.bin(OR, un, rawLess(y, x, true));
    case P::FCMP_OEQ: case P::FCMP_ONE: case P::FCMP_UEQ: case P::FCMP_UNE: { E *eq = X.bin(AND, rawLess(x, y, true), rawLess(y, x, true));
        if (pred == P::FCMP_OEQ) return X.bin(AND, od, eq); if (pred == P::FCMP_ONE) return X.bin(AND, od, X.neg(eq)); if (pred == P::FCMP_UEQ) return X.bin(OR, un, eq); return X.bin(OR, un, X.neg(eq)); }
    case P::FCMP_ORD: return od; case P::FCMP_UNO: return un; }
    abort();
}
template <class F> static Val fpun(const Val &a, bool dbl, bool outdbl, F f, const char *nm) { // f: double->double
    if (a.k == VC) return Val((u128)dv(f(vd(a.c, dbl)), outdbl));
    E *t = tabulate({{a, dbl}}, outdbl ? 64 : 32, [&](u64 *v) { return dv(f(vd(v[0], dbl)), outdbl); });
    if (t) return Val::ex(t); return havocM(outdbl ? 64 : 32, nm, 1, a); }
static Val fpneg(const Val &a, bool dbl) { if (a.k == VC) return Val(a.c ^ ((u128)1 << (dbl ? 63 : 31)));
    if (a.k == VQ && !a.q()->alt) { Q q = *a.q(); s64 lo = -q.hi, hi = -q.lo; int w = std::max((int)q.num->w, sbits(lo, hi)); E *nz = X.bin(AND, isz(&q), X.neg(isneg(&q))); return finishQ(newQ(X.bvneg(sfit(q.num, w)), lo, hi, q.sc, q.den, q.dlo, q.dhi, nz), dbl); }
    E *e = toE(a, dbl ? 64 : 32); int w = e->w; return Val::ex(X.concat(X.neg(X.extract(e, w - 1, 1)), X.extract(e, 0, w - 1))); }
static Val fpabs(const Val &a, bool dbl) { if (a.k == VC) return Val(a.c & mask(dbl ? 63 : 31));
    if (a.k == VQ && !a.q()->den && !a.q()->alt) { Q q = *a.q(); s64 m = maxabs(q.lo, q.hi); int w = std::max((int)q.num->w, sbits(-m, m)); E *x = sfit(q.num, w); E *n = X.ite(X.bin(SLT, x, X.cst(0, w)), X.bvneg(x), x); s64 lo = q.lo > 0 ? q.lo : q.hi < 0 ? -q.hi : 0; return finishQ(newQ(n, lo, m, q.sc), dbl); }
    if (a.k == VQ) return fpun(a, dbl, dbl, [](double x) { return fabs(x); }, "fabs");
    E *e = a.e(); return Val::ex(X.zext(X.extract(e, 0, e->w - 1), e->w)); }
static Val fpsel(E *c, const Val &a, const Val &b, TK k) { // select of float values
    bool dbl = k == TD; if (X.isc(c)) return c->v ? a : b; if (a.k == VC && b.k == VC && a.c == b.c) return a; if (a.k == b.k && a.p == b.p && a.k != VC) return a;
    Q p, q; if ((a.k == VQ || b.k == VQ) && asQ(a, dbl, p) && asQ(b, dbl, q)) {
        if (p.lo == 0 && p.hi == 0) p.sc = q.sc; if (q.lo == 0 && q.hi == 0) q.sc = p.sc; int sc = std::min(p.sc, q.sc), s1 = p.sc - sc, s2 = q.sc - sc;
        if (s1 < 54 && s2 < 54) { s128 l1 = (s128)p.lo << s1, h1 = (s128)p.hi << s1, l2 = (s128)q.lo << s2, h2 = (s128)q.hi << s2; s128 lo = std::min(l1, l2), hi = std::max(h1, h2), LM = (s128)1 << 60;
            if (lo > -LM && hi < LM) { int w = sbits((s64)lo, (s64)hi); E *x = sfit(p.num, w), *y = sfit(q.num, w); if (s1) x = X.bin(SHL, x, X.cst(s1, w)); if (s2) y = X.bin(SHL, y, X.cst(s2, w));
                E *den = nullptr; s64 dlo = 1, dhi = 1; if (p.den || q.den) { dlo = std::min(p.den ? p.dlo : 1, q.den ? q.dlo : 1); dhi = std::max(p.den ? p.dhi : 1, q.den ? q.dhi : 1); int dw = sbits(dlo, dhi); den = X.ite(c, p.den ? sfit(p.den, dw) : X.cst(1, dw), q.den ? sfit(q.den, dw) : X.cst(1, dw)); }
                E *nz = X.ite(c, p.nz ? p.nz : X.fls(), q.nz ? q.nz : X.fls()); return finishQ(newQ(X.ite(c, x, y), (s64)lo, (s64)hi, sc, den, dlo, dhi, nz), dbl); } } }
    return Val::ex(X.ite(c, toE(a, dbl ? 64 : 32), toE(b, dbl ? 64 : 32))); }
static Val intToFp(const Val &a, int bits, bool sign, bool dbl) {
    if (a.k == VC) { if (sign) { s128 v = sx128(a.c, bits); return Val((u128)(dbl ? db((double)(s64)v) : fb((float)(s64)v))); } return Val((u128)(dbl ? db((double)(u64)a.c) : fb((float)(u64)a.c))); }
    E *e = toE(a, bits); s64 LIM = dbl ? LIM53 : LIM24; s64 lo, hi;
    if (bits <= 64) { if (sign) { lo = e->slo; hi = e->shi; } else { if (e->hi > (u64)LIM) { lo = 0; hi = INT64_MAX; } else { lo = (s64)e->lo; hi = (s64)e->hi; } }
        if (lo >= -LIM && hi <= LIM) { E *n = sign ? e : X.zext(e, bits + 1); return finishQ(newQ(n, lo, hi, 0), dbl); } }
    E *t = tabulate({{Val::ex(e), false}}, dbl ? 64 : 32, [&](u64 *v) { if (sign) { s64 s = sx64(v[0], bits); return dbl ? db((double)s) : fb((float)s); } return dbl ? db((double)v[0]) : fb((float)v[0]); });
    if (t) return Val::ex(t); return havocM(dbl ? 64 : 32, "itofp", bits * 2 + sign, a); }
static Val fpToInt(const Val &a, bool dbl, int bits, bool sign) {
    if (a.k == VC) { double d = vd(a.c, dbl); double lo = sign ? -ldexp(1, bits - 1) : 0, hi = sign ? ldexp(1, bits - 1) : ldexp(1, bits); double t = trunc(d);
        if (!(t >= lo && t < hi)) return Val((u128)0); // poison: the sanitizer branch ahead of an executed conversion reports it
        if (sign) return Val((u128)(s128)(s64)t & mask(bits)); return Val((u128)(u64)t & mask(bits)); }
    if (a.k == VQ && !a.q()->den) { Q *q = a.q(); int w = std::max((int)q->num->w, bits) + 1; if (q->sc > 0 && q->sc < 40) w += q->sc; 
        if (abs(q->sc) < 40) { E *n = X.sext(q->num, w); E *r; if (q->sc >= 0) r = q->sc ? X.bin(SHL, n, X.cst(q->sc, w)) : n; else { E *neg = X.bin(SLT, n, X.cst(0, w)); E *ab = X.ite(neg, X.bvneg(n), n); E *s = X.bin(LSHR, ab, X.cst(-q->sc, w)); r = X.ite(neg, X.bvneg(s), s); }
            return Val::ex(X.extract(r, 0, bits)); } }
    E *t = tabulate({{a, dbl}}, bits, [&](u64 *v) { double d = trunc(vd(v[0], dbl)); double lo = sign ? -ldexp(1, bits - 1) : 0, hi = sign ? ldexp(1, bits - 1) : ldexp(1, bits); if (!(d >= lo && d < hi)) return (u64)0; return sign ? (u64)(s64)d : (u64)d; }); if (t) return Val::ex(t);
    return havocM(bits, "toint", sign, a); }
static Val fpConv(const Val &a, bool fromdbl, bool todbl) { if (a.k == VC) return Val((u128)dv(vd(a.c, fromdbl), todbl));
    if (a.k == VQ && !a.q()->alt) { if (todbl) return a; Q *q = a.q(); if (!q->den && maxabs(q->lo, q->hi) <= LIM24 && abs(q->sc) < 60) return a; }
    return fpun(a, fromdbl, todbl, [](double x) { return x; }, "fpconv"); }

// ---------------------------------------------------------------- loads / stores
[[noreturn]] static void throwImpure() { Ctx *t = nullptr; for (Ctx *c = ctx; c; c = c->parent) if (!c->dead && !c->dec.empty()) t = c; throw Impure{t}; }
static void jRestore(const JEnt &e) { Obj *o = findObj(e.a); u64 off = e.a - o->base; memcpy((void*)e.a, e.by.data(), e.n);
    if (o->init) { if (e.in.empty()) memset(o->init + off, 1, e.n); else memcpy(o->init + off, e.in.data(), e.n); }
    if (o->sh) { if (e.sh.empty()) memset(o->sh + off, 0, 4ull * e.n); else memcpy(o->sh + off, e.sh.data(), 4ull * e.n); } }
static void jUndo(std::vector<JEnt> &j) { for (size_t i = j.size(); i-- > 0;) jRestore(j[i]); j.clear(); }
static JEnt jCapture(Obj *o, bool stk, size_t idx, u64 a, u64 n, uint8_t k) { JEnt e; e.a = a; e.n = (uint32_t)n; e.k = k; e.stk = stk; e.idx = idx; u64 off = a - o->base; e.by.assign((uint8_t*)a, (uint8_t*)a + n); if (o->init) e.in.assign(o->init + off, o->init + off + n); if (o->sh) e.sh.assign(o->sh + off, o->sh + off + n); return e; }
static void outsideWrite(Obj *o, bool isStack, u64 a, u64 n, uint8_t k) {
    if (O.mw) { size_t idx = isStack ? (size_t)(o - &sobj[0]) : (size_t)(o - &hobj[0]); Ctx *c = ctx; if (idx < (isStack ? c->smark : c->hmark)) c->jr.push_back(jCapture(o, isStack, idx, a, n, k)); return; }
    size_t idx = isStack ? (size_t)(o - &sobj[0]) : (size_t)(o - &hobj[0]); Ctx *bad = nullptr;
    for (Ctx *c = ctx; c; c = c->parent) { if (idx >= (isStack ? c->smark : c->hmark)) break; if (!c->dead) { if (c->dec.empty()) c->wrote = true; else { bad = c; c->f->impure++; } } }
    if (bad) throwImpure(); }
static void outsideFree(Obj *o) { size_t idx = (size_t)(o - &hobj[0]); Ctx *bad = nullptr;
    for (Ctx *c = ctx; c; c = c->parent) { if (idx >= c->hmark) break; if (!c->dead) { if (c->dec.empty()) c->wrote = true; else { bad = c; c->f->impure++; } } }
    if (bad) throwImpure(); }
static void noteSideEffect() { Ctx *bad = nullptr; for (Ctx *c = ctx; c; c = c->parent) if (!c->dead) { if (c->dec.empty()) c->wrote = true; else { bad = c; c->f->impure++; } } if (bad) throwImpure(); }
static void ensureShadow(Obj *o) { if (!o->sh) o->sh = (uint32_t*)calloc(o->size ? o->size : 1, 4); }
static Obj *access(u64 a, u64 n, bool wr) { Obj *o = findObj(a);
    if (!o) { char b[100]; if (a < 4096) snprintf(b, sizeof b, "null pointer %s", wr ? "write" : "read"); else snprintf(b, sizeof b, "out-of-bounds %s of %llu bytes", wr ? "write" : "read", (unsigned long long)n); memError(a < 4096 ? "null" : "oob", b); }
    if (o->freed) memError("uaf", wr ? "write to freed memory" : "read of freed memory");
    if (a < o->base || a + n > o->base + o->size) { char b[120]; snprintf(b, sizeof b, "out-of-bounds %s of %llu bytes past a %s object", wr ? "write" : "read", (unsigned long long)n, o->kind == 0 ? "global" : o->kind == 1 ? "heap" : "stack"); memError("oob", b); }
    if (wr && o->ro) memError("oob", "write to constant memory"); return o; }
static Val loadLeaf(u64 a, const Leaf &l) {
    int n = l.bytes(); Obj *o = access(a, n, false); u64 off = a - o->base;
    bool sym = false; if (o->sh) for (int i = 0; i < n; i++) if (o->sh[off + i]) { sym = true; break; }
    bool uninit = false; if (o->init) for (int i = 0; i < n; i++) if (!o->init[off + i]) { uninit = true; break; }
    if (!sym && !uninit) { u128 v = 0; memcpy(&v, (void*)a, n); if (l.bits < n * 8) v &= mask(l.bits); return Val(v); }
    if (sym && !uninit) { uint32_t id = o->sh[off] >> 4; if (id) { SymV &s = symvs[id]; bool all = s.n == n && (o->sh[off] & 15) == 0; for (int i = 1; all && i < n; i++) if (o->sh[off + i] != (id << 4 | (uint32_t)i)) all = false;
            if (all) { if (s.v.k == VE && l.bits < n * 8) return Val::ex(X.extract(s.v.e(), 0, l.bits)); return s.v; } } }
    E *r = nullptr; static std::unordered_map<u64, E*> qb;
    for (int i = 0; i < n; i++) { E *b;
        if (o->init && !o->init[off + i]) { char nm[32]; snprintf(nm, sizeof nm, "undef%llu", (unsigned long long)undefCtr++); b = X.var(8, nm, true); }
        else if (o->sh && o->sh[off + i]) { SymV &s = symvs[o->sh[off + i] >> 4]; int bi = o->sh[off + i] & 15; E *e = s.v.k == VE ? s.v.e() : toE(s.v, s.n * 8); if (e->w < s.n * 8) e = X.zext(e, s.n * 8); b = X.extract(e, bi * 8, 8); }
        else b = X.cst(*(uint8_t*)(a + i), 8);
        r = r ? X.concat(b, r) : b; }
    if (l.bits < n * 8) r = X.extract(r, 0, l.bits);
    return Val::ex(r); }
static void storeLeaf(u64 a, const Leaf &l, const Val &v) {
    int n = l.bytes(); Obj *o = access(a, n, true); if (ctx) outsideWrite(o, o->kind == 2, a, n, l.k); u64 off = a - o->base;
    if (o->init) memset(o->init + off, 1, n);
    if (v.k == VC) { u128 c = v.c; memcpy((void*)a, &c, n); if (o->sh) memset(o->sh + off, 0, 4 * n); return; }
    ensureShadow(o); Val w = v; if (w.k == VE && w.e()->w < n * 8) w = Val::ex(X.zext(w.e(), n * 8));
    if (n > 8 && w.k == VE && n == 16) { E *e = w.e(); Leaf h{TI, 64, 0}; storeLeaf(a, h, Val::ex(X.extract(e, 0, 64))); storeLeaf(a + 8, h, Val::ex(X.extract(e, 64, 64))); return; }
    uint32_t id = (uint32_t)symvs.size(); symvs.push_back(SymV{w, (uint8_t)n}); for (int i = 0; i < n; i++) o->sh[off + i] = id << 4 | (uint32_t)i; }
static u64 resolve(E *e, u64 n, bool wr, bool fixed) { // symbolic address -> make it lie in one object; returns object base via model
    e = defined(e, "address depends on uninitialised memory"); if (X.isc(e)) { access((u64)e->v, n, wr); return findObj((u64)e->v)->base; }
    for (int it = 0; it < 64; it++) {
        Ctx *k = liveCtx();
        u64 v; bool rep = k && k->pos < k->dec.size() && k->dec[k->pos].src == e; v = rep ? (u64)k->dec[k->pos].aux : (u64)evalM(e, pool[0]);
        Obj *o = findObj(v);
        if (!o || o->freed || v + n > o->base + o->size) { access(v, n, wr); unsupported("resolve"); }
        E *inb = X.bin(ULE, X.bin(SUB, e, X.cst(o->base, 64)), X.cst(o->size - n, 64));
        if (X.isc(inb)) return o->base;
        u64 base0 = o->base; size_t p = k ? k->pos : 0, before = k ? k->dec.size() : 0; bool s = branch(inb); if (k && k->dec.size() > before) { k->dec[p].aux = v; k->dec[p].src = e; }
        if (s) return base0; }
    unsupported("resolve: too many objects"); }
static E *iteVal(E *c, E *a, E *b) { return X.ite(c, a, b); }
static Val loadSym(E *addr, const Leaf &l) {
    addr = defined(addr, "address depends on uninitialised memory"); if (X.isc(addr)) return loadLeaf((u64)addr->v, l);
    int n = l.bytes(); u64 base = resolve(addr, n, false, false); Obj *o = findObj(base);
    E *off = X.bin(SUB, addr, X.cst(base, 64)); if (X.isc(off)) return loadLeaf(base + (u64)off->v, l);
    int sh = 0; while (sh < 4) { E *lowb = X.extract(off, 0, sh + 1); if (X.isc(lowb) && lowb->v == 0) sh++; else break; }
    u64 maxoff = std::min(off->hi, o->size - n); size_t cnt = (size_t)(maxoff >> sh) + 1; E *idx = X.extract(off, sh, 64 - sh);
    { int w = 1; while (((u64)1 << w) < cnt) w++; idx = X.extract(idx, 0, w); }
    bool conc = true; if (o->sh) for (u64 i = 0; i < o->size; i++) if (o->sh[i]) { conc = false; break; } if (o->init) for (u64 i = 0; i < o->size; i++) if (!o->init[i]) { conc = false; break; }
    if (conc && l.bits <= 64 && cnt <= 65536) { std::vector<u64> t(cnt); for (size_t i = 0; i < cnt; i++) { u64 v = 0; memcpy(&v, (void*)(base + (i << sh)), n); t[i] = v & mask64(l.bits); } 
        size_t p2 = 1; while (p2 < cnt) p2 <<= 1; t.resize(p2, t.back()); return Val::ex(X.table(idx, std::move(t), l.bits)); }
    if (cnt <= 64 && l.k == TI) { E *r = nullptr; for (size_t i = cnt; i-- > 0;) { E *v = toE(loadLeaf(base + (i << sh), l), l.bits); r = r ? iteVal(X.bin(EQ, idx, X.cst(i, idx->w)), v, r) : v; } return Val::ex(r); }
    u64 a = (u64)concretize(addr); return loadLeaf(a, l); }
static Val loadAny(const Val &p, const Leaf &l) { if (p.k == VC) return loadLeaf((u64)p.c, l); return loadSym(toE(p, 64), l); }
static u64 caddr(const Val &p, u64 n, bool wr) { if (p.k == VC) return (u64)p.c; E *e = toE(p, 64); resolve(e, n, wr, true); return (u64)concretize(e); }
static void doMemcpy(u64 d, u64 s, u64 n) { if (!n) return; Obj *so = access(s, n, false), *dof = access(d, n, true); if (ctx) outsideWrite(dof, dof->kind == 2, d, n, 9);
    bool ss = so->sh != nullptr; u64 so_ = s - so->base, do_ = d - dof->base;
    std::vector<uint32_t> tmp; if (ss) tmp.assign(so->sh + so_, so->sh + so_ + n);
    std::vector<uint8_t> ti; if (so->init) ti.assign(so->init + so_, so->init + so_ + n);
    memmove((void*)d, (void*)s, n);
    if (ss) { bool any = false; for (uint32_t x : tmp) if (x) any = true; if (any) ensureShadow(dof); if (dof->sh) memcpy(dof->sh + do_, tmp.data(), 4 * n); } else if (dof->sh) memset(dof->sh + do_, 0, 4 * n);
    if (so->init) { bool all = true; for (uint8_t x : ti) if (!x) all = false; if (!all && !dof->init) { dof->init = (uint8_t*)malloc(dof->size); memset(dof->init, 1, dof->size); } if (dof->init) memcpy(dof->init + do_, ti.data(), n); } else if (dof->init) memset(dof->init + do_, 1, n); }

#include "interp.h"
