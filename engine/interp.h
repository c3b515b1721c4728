// decoding of LLVM IR and the interpreter loop
using namespace llvm;
enum BI { B_NONE = -1, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_BITS, B_ASSUME, B_ASSERT, B_REACH, B_OBSERVE, B_OBSD, B_LIVE, B_SYMBOLIC, B_CONC, B_FAULT, B_MERGE,
    B_SQRT, B_SIN, B_COS, B_POW, B_FLOOR, B_CEIL, B_FABS, B_NEXT, B_TRUNC, B_ATAN2, B_STRTOD, B_ABORT, B_EXIT, B_PRINT, B_GETENV, B_CTYPE, B_IGNORE, B_SQRTF, B_NEXTF, B_FMIN, B_FMAX, B_TARGET, B_LOG, B_ISFEAS, B_IBIN, B_ASIN, B_ROUND, B_MUST, B_FMA };
static const std::map<std::string, int> BIS = {{"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
    {"sx_bits", B_BITS}, {"sx_assume", B_ASSUME}, {"sx_assert_", B_ASSERT}, {"sx_reach", B_REACH}, {"sx_observe", B_OBSERVE}, {"sx_observe_d", B_OBSD}, {"sx_live", B_LIVE}, {"sx_symbolic", B_SYMBOLIC}, {"sx_concretize", B_CONC}, {"sx_fault", B_FAULT}, {"sx_nomerge", B_MERGE},
    {"sqrt", B_SQRT}, {"sin", B_SIN}, {"cos", B_COS}, {"pow", B_POW}, {"floor", B_FLOOR}, {"ceil", B_CEIL}, {"fabs", B_FABS}, {"nexttoward", B_NEXT}, {"nextafter", B_NEXT}, {"trunc", B_TRUNC}, {"round", B_ROUND}, {"atan2", B_ATAN2}, {"asin", B_ASIN}, {"strtod", B_STRTOD}, {"abort", B_ABORT}, {"__assert_fail", B_ABORT}, {"exit", B_EXIT},
    {"printf", B_PRINT}, {"fprintf", B_PRINT}, {"puts", B_PRINT}, {"putchar", B_PRINT}, {"getenv", B_GETENV}, {"__ctype_b_loc", B_CTYPE}, {"fmin", B_FMIN}, {"fmax", B_FMAX}, {"sx_log", B_LOG}, {"sx_target", B_TARGET}, {"fma", B_FMA}};

static void flat(Type *t, int off, Ty &out) {
    if (t->isIntegerTy()) out.push_back(Leaf{TI, (int)t->getIntegerBitWidth(), off});
    else if (t->isFloatTy()) out.push_back(Leaf{TF, 32, off}); else if (t->isDoubleTy()) out.push_back(Leaf{TD, 64, off});
    else if (t->isPointerTy()) out.push_back(Leaf{TP, 64, off});
    else if (auto *s = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), off + (int)l->getElementOffset(i), out); }
    else if (auto *a = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), off + (int)(i * DL->getTypeAllocSize(a->getElementType())), out); }
    else if (auto *v = dyn_cast<FixedVectorType>(t)) { for (u64 i = 0; i < v->getNumElements(); i++) flat(v->getElementType(), off + (int)(i * DL->getTypeStoreSize(v->getElementType())), out); }
    else if (t->isVoidTy()) {} else if (t->isMetadataTy() || t->isLabelTy()) {}
    else if (t->isX86_FP80Ty()) out.push_back(Leaf{TI, 80, off});
    else { std::string s; raw_string_ostream os(s); t->print(os); fprintf(stderr, "symx: type %s\n", s.c_str()); exit(3); } }
static Ty flatTy(Type *t) { Ty r; flat(t, 0, r); return r; }
static std::unordered_map<const Value*, u64> gaddr;
static void constLeaves(const Constant *c, std::vector<Val> &out);
static Val constScalar(const Constant *c) {
    if (auto *i = dyn_cast<ConstantInt>(c)) { u128 v = 0; const uint64_t *d = i->getValue().getRawData(); v = d[0]; if (i->getBitWidth() > 64) v |= (u128)d[1] << 64; return Val(v); }
    if (auto *f = dyn_cast<ConstantFP>(c)) { if (f->getType()->isX86_FP80Ty()) { APFloat d = f->getValueAPF(); bool lose; d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose); if (lose) { fprintf(stderr, "symx: long double\n"); exit(3); } return Val((u128)d.bitcastToAPInt().getRawData()[0]); } // long double values are only passed on: kept as doubles
        u64 b = f->getValueAPF().bitcastToAPInt().getRawData()[0]; return Val((u128)b); }
    if (isa<ConstantPointerNull>(c)) return Val(0); if (isa<ConstantAggregateZero>(c)) return Val(0);
    if (isa<GlobalValue>(c)) { auto it = gaddr.find(c); if (it == gaddr.end()) { fprintf(stderr, "symx: no address for %s\n", c->getName().str().c_str()); exit(3); } return Val((u128)it->second); }
    if (isa<UndefValue>(c)) { Val v; v.k = 7; return v; } // materialised as fresh undef on read
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); auto *g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "symx: const gep\n"); exit(3); } return Val((u128)(u64)((u64)constScalar(cast<Constant>(g->getPointerOperand())).c + off.getSExtValue())); }
        if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::PtrToInt) return constScalar(ce->getOperand(0));
    }
    std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "symx: const %s\n", s.c_str()); exit(3); }
static void constLeaves(const Constant *c, std::vector<Val> &out) {
    Type *t = c->getType(); if (!t->isAggregateType() && !t->isVectorTy()) { out.push_back(constScalar(c)); return; }
    u64 n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (u64 i = 0; i < n; i++) constLeaves(c->getAggregateElement((unsigned)i), out); }
static void initMem(const Constant *c, char *p) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *s = dyn_cast<ConstantDataSequential>(c)) { StringRef r = s->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
    Type *t = c->getType();
    if (t->isStructTy()) { auto *l = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) initMem(c->getAggregateElement(i), p + l->getElementOffset(i)); return; }
    if (t->isArrayTy()) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (u64 i = 0; i < t->getArrayNumElements(); i++) initMem(c->getAggregateElement((unsigned)i), p + i * es); return; }
    Val v = constScalar(c); if (v.k == 7) return; memcpy(p, &v.c, DL->getTypeStoreSize(t)); }

struct Decoder { Func *F; std::map<const Value*, std::pair<int, int>> reg; std::map<const BasicBlock*, int> bb; std::map<const Constant*, int> cc;
    Opd opd(const Value *v) {
        auto it = reg.find(v); if (it != reg.end()) return Opd{it->second.first};
        if (auto *c = dyn_cast<Constant>(v)) { auto q = cc.find(c); if (q != cc.end()) return Opd{~q->second}; int at = (int)consts.size(); std::vector<Val> l; constLeaves(c, l); for (auto &x : l) consts.push_back(x); cc[c] = at; return Opd{~at}; }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return Opd{~0};
        fprintf(stderr, "symx: operand\n"); exit(3); }
    void run(const Function &f) {
        int nr = 0; for (auto &a : f.args()) { int n = (int)flatTy(a.getType()).size(); reg[&a] = {nr, n}; F->argn.push_back(n); nr += n; }
        int bi = 0; for (auto &b : f) { bb[&b] = bi++; for (auto &i : b) if (!i.getType()->isVoidTy()) { int n = (int)flatTy(i.getType()).size(); reg[&i] = {nr, n}; nr += n; } }
        F->nregs = nr; F->bl.resize(bi);
        for (auto &b : f) { Block &B = F->bl[bb[&b]];
            for (auto &i : b) {
                if (auto *p = dyn_cast<PHINode>(&i)) { for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { int from = bb[p->getIncomingBlock(k)]; auto &mv = B.phis[from]; bool dup = false; for (auto &x : mv) if (x.dst == reg[p].first) dup = true; if (!dup) mv.push_back(PhiMove{reg[p].first, opd(p->getIncomingValue(k)), reg[p].second}); } continue; }
                if (isa<DbgInfoIntrinsic>(&i)) continue;
                Inst I; I.op = i.getOpcode(); if (auto &dl = i.getDebugLoc()) I.line = dl.getLine();
                if (!i.getType()->isVoidTy()) { I.dst = reg[&i].first; I.nl = reg[&i].second; I.ty = flatTy(i.getType()); if (I.ty.size()) { I.bits = I.ty[0].bits; I.tk = I.ty[0].k; } }
                if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&i)) { I.nsw = ob->hasNoSignedWrap(); I.nuw = ob->hasNoUnsignedWrap(); }
                switch (i.getOpcode()) {
                case Instruction::Br: { auto *br = cast<BranchInst>(&i); if (br->isConditional()) { I.ops = {opd(br->getCondition())}; I.aux = {bb[br->getSuccessor(0)], bb[br->getSuccessor(1)]}; } else I.aux = {bb[br->getSuccessor(0)]}; break; }
                case Instruction::Switch: { auto *s = cast<SwitchInst>(&i); I.ops = {opd(s->getCondition())}; I.bits = s->getCondition()->getType()->getIntegerBitWidth(); I.aux = {bb[s->getDefaultDest()]}; for (auto &c : s->cases()) I.cases.push_back({(u128)c.getCaseValue()->getZExtValue(), bb[c.getCaseSuccessor()]}); break; }
                case Instruction::Ret: if (i.getNumOperands()) { I.ops = {opd(i.getOperand(0))}; I.nl = (int)flatTy(i.getOperand(0)->getType()).size(); } else I.nl = 0; break;
                case Instruction::Alloca: { auto *a = cast<AllocaInst>(&i); I.sz = DL->getTypeAllocSize(a->getAllocatedType()); I.ops = {opd(a->getArraySize())}; I.bits2 = a->getArraySize()->getType()->getIntegerBitWidth(); break; }
                case Instruction::GetElementPtr: { auto *g = cast<GetElementPtrInst>(&i); MapVector<Value*, APInt> vo; APInt co(64, 0); if (!g->collectOffset(*DL, 64, vo, co)) { fprintf(stderr, "symx: gep\n"); exit(3); }
                    I.ops.push_back(opd(g->getPointerOperand())); I.off = co.getSExtValue(); for (auto &p : vo) { I.ops.push_back(opd(p.first)); I.sc.push_back(p.second.getSExtValue()); I.aux.push_back(p.first->getType()->getIntegerBitWidth()); } break; }
                case Instruction::Store: I.ops = {opd(i.getOperand(0)), opd(i.getOperand(1))}; I.ty = flatTy(i.getOperand(0)->getType()); break;
                case Instruction::ICmp: case Instruction::FCmp: I.pred = cast<CmpInst>(&i)->getPredicate(); I.ops = {opd(i.getOperand(0)), opd(i.getOperand(1))}; { Ty t = flatTy(i.getOperand(0)->getType()); I.bits2 = t[0].bits; I.tk = t[0].k; I.nl = (int)t.size(); } break;
                case Instruction::Call: { auto *c = cast<CallInst>(&i); const Value *cv = c->getCalledOperand();
                    if (auto *ia = dyn_cast<InlineAsm>(cv)) { I.name = ia->getAsmString(); I.op = 1000; }
                    else if (auto *fn = dyn_cast<Function>(cv)) { I.name = fn->getName().str(); if (fn->isIntrinsic()) { I.op = 1001; } else { I.fn = fname[I.name]; } }
                    else I.ops.push_back(opd(cv));
                    bool ind = !I.fn && I.op == Instruction::Call; (void)ind;
                    for (unsigned k = 0; k < c->arg_size(); k++) { Type *t = c->getArgOperand(k)->getType(); if (t->isMetadataTy()) continue; Ty ft = flatTy(t); I.ops.push_back(opd(c->getArgOperand(k))); I.aux.push_back((int)ft.size() | (c->isByValArgument(k) ? 1 << 16 : 0)); I.sc.push_back(c->isByValArgument(k) ? (s64)DL->getTypeAllocSize(c->getParamByValType(k)) : (s64)ft[0].bits); I.cases.push_back({ft.size() ? ft[0].k : 0, 0}); }
                    break; }
                case Instruction::ExtractValue: { auto *e = cast<ExtractValueInst>(&i); Type *t = e->getAggregateOperand()->getType(); int at = 0; for (unsigned ix : e->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) at += (int)flatTy(st->getElementType(q)).size(); t = st->getElementType(ix); } else { t = t->getArrayElementType(); at += (int)(ix * flatTy(t).size()); } } I.ops = {opd(e->getAggregateOperand())}; I.off = at; break; }
                case Instruction::InsertValue: { auto *e = cast<InsertValueInst>(&i); Type *t = e->getType(); int at = 0; for (unsigned ix : e->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) at += (int)flatTy(st->getElementType(q)).size(); t = st->getElementType(ix); } else { t = t->getArrayElementType(); at += (int)(ix * flatTy(t).size()); } } I.ops = {opd(e->getAggregateOperand()), opd(e->getInsertedValueOperand())}; I.off = at; I.sz = flatTy(t).size(); break; }
                case Instruction::ShuffleVector: { auto *s = cast<ShuffleVectorInst>(&i); I.ops = {opd(i.getOperand(0)), opd(i.getOperand(1))}; I.sz = flatTy(i.getOperand(0)->getType()).size(); for (int m : s->getShuffleMask()) I.aux.push_back(m); break; }
                case Instruction::AtomicRMW: I.pred = (uint8_t)cast<AtomicRMWInst>(&i)->getOperation(); I.ops = {opd(i.getOperand(0)), opd(i.getOperand(1))}; break;
                case Instruction::AtomicCmpXchg: I.ops = {opd(i.getOperand(0)), opd(i.getOperand(1)), opd(i.getOperand(2))}; break;
                default: for (auto &o : i.operands()) I.ops.push_back(opd(o.get())); if (i.getNumOperands()) { Ty t = flatTy(i.getOperand(0)->getType()); I.bits2 = t.size() ? t[0].bits : 0; I.pred = t.size() ? (uint8_t)t[0].k : 0; I.sz = t.size(); }
                }
                B.ins.push_back(std::move(I));
            } }
        reg.clear(); } };

static Val *regs; static size_t rsp; static const size_t REGCAP = 1ull << 25;
static inline const Val &rd(Val *R, Opd o, int i = 0) { const Val &v = o.r >= 0 ? R[o.r + i] : consts[~o.r + i]; if (__builtin_expect(v.k == 7, 0)) { static Val u[8]; static int un; Val &t = u[un++ & 7]; char nm[32]; snprintf(nm, sizeof nm, "undef%llu", (unsigned long long)undefCtr++); t = Val::ex(X.var(64, nm, true)); return t; } return v; }
static Val fitw(const Val &v, int bits) { if (v.k == VE && v.e()->w != bits) return Val::ex(v.e()->w > bits ? X.extract(v.e(), 0, bits) : X.zext(v.e(), bits)); return v; }
static void callMerged(Func *f, std::vector<Val> &args, Val *ret);
static void callRaw(Func *f, std::vector<Val> &args, Val *ret);
static u64 ctypePtr;
static E *boolE(const Val &v) { return v.k == VC ? X.cst(v.c & 1, 1) : (v.e()->w == 1 ? v.e() : X.extract(v.e(), 0, 1)); }
static std::string cstr(u64 p) { std::string s; for (;; p++) { Leaf l{TI, 8, 0}; Val v = loadLeaf(p, l); u128 c = cval(v, 8); if (!c) return s; s += (char)c; if (s.size() > 4096) return s; } }
static bool allocFails() { if (faultBudget <= 0) return false; size_t idx = inputs.size(); auto key = std::make_pair(idx, std::string("allocfail#1")); E *&v = inIntern[key]; if (!v) v = X.var(1, "allocfail"); inputs.push_back({v, "allocfail"}); if (ctx) {} if (branch(v)) { faultBudget--; return true; } return false; }
static u64 doMalloc(u128 sz) { if (allocFails()) return 0; if (sz > (256u << 20)) return 0; u64 a = allocObj((u64)sz, 1, true); if (!a) unsupported("heap exhausted"); liveHeap++; return a; }
static void doFree(u64 p) { if (!p) return; Obj *o = findObj(p); if (!o || o->kind != 1 || o->base != p) memError("badfree", "free of a pointer that is not an allocation"); if (o->freed) memError("doublefree", "double free"); if (ctx) outsideFree(o); o->freed = true; liveHeap--; }

static void builtin(Func *f, const Inst &I, std::vector<Val> &a, Val *ret) {
    switch (f->bi) {
    case B_MALLOC: { u128 n = cval(a[0], 64); ret[0] = Val((u128)doMalloc(n)); return; }
    case B_CALLOC: { u128 n = cval(a[0], 64), m = cval(a[1], 64); u64 p = doMalloc(n * m); if (p) { Obj *o = findObj(p); memset(o->init, 1, o->size); memset((void*)p, 0, o->size); } ret[0] = Val((u128)p); return; }
    case B_REALLOC: { u64 p = (u64)cval(a[0], 64); u64 n = (u64)cval(a[1], 64); u64 q = doMalloc(n); if (!q) { ret[0] = Val(0); return; } if (p) { Obj *o = findObj(p); if (!o || o->kind != 1 || o->base != p) memError("badfree", "realloc of a pointer that is not an allocation"); if (o->freed) memError("uaf", "realloc of freed memory"); u64 k = std::min(o->size, n); if (k) doMemcpy(q, p, k); doFree(p); } ret[0] = Val((u128)q); return; }
    case B_FREE: doFree((u64)cval(a[0], 64)); return;
    case B_MEMCPY: { u64 n = (u64)cval(a[2], 64); u64 d = caddr(a[0], n, true), s = caddr(a[1], n, false); doMemcpy(d, s, n); ret[0] = Val((u128)d); return; }
    case B_MEMSET: { u64 n = (u64)cval(a[2], 64); u64 d = caddr(a[0], n, true); Leaf l{TI, 8, 0}; Val v = fitw(a[1], 8); if (v.k == VC) v.c &= 255; 
        if (n) { Obj *o = access(d, n, true); if (ctx) outsideWrite(o, o->kind == 2, d, n, 9); if (v.k == VC) { memset((void*)d, (int)v.c, n); if (o->sh) memset(o->sh + (d - o->base), 0, 4 * n); if (o->init) memset(o->init + (d - o->base), 1, n); } else for (u64 i = 0; i < n; i++) storeLeaf(d + i, l, v); } ret[0] = Val((u128)d); return; }
    case B_BITS: { int n = (int)cval(a[0], 32); std::string nm = cstr((u64)a[1].c); size_t idx = inputs.size(); auto key = std::make_pair(idx, nm + "#" + std::to_string(n)); E *&v = inIntern[key]; if (!v) v = X.var(n, nm); inputs.push_back({v, nm}); ret[0] = Val::ex(X.zext(v, 64)); return; }
    case B_ASSUME: { Val c = a[0]; assume(c.k == VC ? X.cst(c.c & 0xffffffff ? 1 : 0, 1) : X.neg(X.bin(EQ, toE(c, 32), X.cst(0, toE(c, 32)->w)))); return; }
    case B_ASSERT: { Val c = a[0]; std::string m = cstr((u64)a[1].c); require(c.k == VC ? X.cst(c.c & 0xffffffff ? 1 : 0, 1) : X.neg(X.bin(EQ, toE(c, 32), X.cst(0, toE(c, 32)->w))), "assert", m); return; }
    case B_REACH: { std::string m = cstr((u64)a[0].c); Locker l; int n = SH->nreach; int i; for (i = 0; i < n; i++) if (m == SH->reach[i]) break; if (i == n && n < MAXREACH) { strncpy(SH->reach[n], m.c_str(), 63); SH->nreach++; } if (i < MAXREACH) SH->reachhit[i] = 1; return; }
    case B_OBSERVE: if (ctx) noteSideEffect(); observes.push_back({"", a[0], 64}); return;
    case B_OBSD: if (ctx) noteSideEffect(); observes.push_back({"", a[0], 64}); return;
    case B_LIVE: ret[0] = Val((u128)(u64)liveHeap & mask(64)); return;
    case B_SYMBOLIC: ret[0] = Val(1); return;
    case B_CONC: ret[0] = Val(cval(a[0], 64)); return;
    case B_FAULT: if (ctx) noteSideEffect(); faultBudget = (int)cval(a[0], 32); return;
    case B_MERGE: if (ctx) noteSideEffect(); mergeOff = (int)cval(a[0], 32); return;
    case B_SQRT: ret[0] = fpun(a[0], true, true, [](double x) { return sqrt(x); }, "sqrt"); return;
    case B_SIN: ret[0] = fpun(a[0], true, true, [](double x) { return sin(x); }, "sin"); return;
    case B_COS: ret[0] = fpun(a[0], true, true, [](double x) { return cos(x); }, "cos"); return;
    case B_ASIN: ret[0] = fpun(a[0], true, true, [](double x) { return asin(x); }, "asin"); return;
    case B_FLOOR: ret[0] = fpun(a[0], true, true, [](double x) { return floor(x); }, "floor"); return;
    case B_CEIL: ret[0] = fpun(a[0], true, true, [](double x) { return ceil(x); }, "ceil"); return;
    case B_TRUNC: ret[0] = fpun(a[0], true, true, [](double x) { return trunc(x); }, "trunc"); return;
    case B_ROUND: ret[0] = fpun(a[0], true, true, [](double x) { return round(x); }, "round"); return;
    case B_FABS: ret[0] = fpabs(a[0], true); return;
    case B_FMIN: case B_FMAX: { E *l = f->bi == B_FMIN ? fpcmp(CmpInst::FCMP_OLT, a[0], a[1], true) : fpcmp(CmpInst::FCMP_OGT, a[0], a[1], true); ret[0] = fpsel(l, a[0], a[1], TD); return; }
    case B_POW: case B_ATAN2: case B_NEXT: { int b = f->bi; auto g = [b](double x, double y) { return b == B_POW ? pow(x, y) : b == B_ATAN2 ? atan2(x, y) : nextafter(x, y); };
        if (a[0].k == VC && a[1].k == VC) { ret[0] = Val((u128)db(g(bd(a[0].c), bd(a[1].c)))); return; } E *t = tabulate({{a[0], true}, {a[1], true}}, 64, [&](u64 *v) { return db(g(bd(v[0]), bd(v[1]))); }); ret[0] = t ? Val::ex(t) : havocM(64, "math", f->bi, a[0], &a[1]); return; }
    case B_STRTOD: { std::string s; u64 p = (u64)cval(a[0], 64); for (u64 q = p;; q++) { Leaf l{TI, 8, 0}; Val v = loadLeaf(q, l); if (v.k != VC) { E *x = toE(v, 8); auto rng = [&](int a, int b) { return X.bin(AND, X.bin(ULE, X.cst(a, 8), x), X.bin(ULE, x, X.cst(b, 8))); };
        if (!branch(X.bin(OR, X.bin(OR, rng('0', '9'), rng('a', 'z')), X.bin(OR, rng('A', 'Z'), X.bin(OR, rng('-', '.'), rng('+', '+')))))) break; }
        u128 c = cval(v, 8); if (!(c >= '0' && c <= '9') && !(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && c != '-' && c != '+' && c != '.') { if (!s.empty() || !(c == ' ' || (c >= 9 && c <= 13))) break; } s += (char)c; if (s.size() > 1000) break; } char *e; double d = strtod(s.c_str(), &e); u64 ep = (u64)cval(a[1], 64); if (ep) { Leaf l{TP, 64, 0}; storeLeaf(ep, l, Val((u128)(p + (e - s.c_str())))); } ret[0] = Val((u128)db(d)); return; }
    case B_ABORT: memError("abort", f->name == "abort" ? "abort called" : "assertion in the library failed");
    case B_EXIT: memError("abort", "exit called");
    case B_PRINT: ret[0] = Val(0); return;
    case B_LOG: fprintf(stderr, "log:"); for (auto &v : a) { if (v.k == VC) fprintf(stderr, " %lld", (long long)v.c); else fprintf(stderr, " <sym %d: %lld>", v.k, (long long)evalM(toE(v, 64), pool[0])); } fprintf(stderr, "\n"); return;
    case B_GETENV: ret[0] = Val(0); return;
    case B_CTYPE: ret[0] = Val((u128)ctypePtr); return;
    case B_TARGET: return;
    }
    unsupported("call of external function " + f->name);
}

static void callAny(Func *f, const Inst &I, std::vector<Val> &args, Val *ret) {
    if (f->decl) { if (f->bi < 0) unsupported("call of external function " + f->name); builtin(f, I, args, ret); return; }
    if (O.merge && !mergeOff && f->impure < 1 && !f->nomerge && !f->vararg) callMerged(f, args, ret); else callRaw(f, args, ret);
}

static Val binop(const Inst &I, const Val &a, const Val &b) {
    int w = I.bits; u128 m = mask(w);
    if (a.k == VC && b.k == VC) { u128 x = a.c, y = b.c;
        switch (I.op) {
        case Instruction::Add: if (I.nsw && w <= 64) { s128 r = sx128(x, w) + sx128(y, w); if (r != sx128((u128)r & m, w)) memError("ub", "signed integer overflow"); } return Val((x + y) & m);
        case Instruction::Sub: if (I.nsw && w <= 64) { s128 r = sx128(x, w) - sx128(y, w); if (r != sx128((u128)r & m, w)) memError("ub", "signed integer overflow"); } return Val((x - y) & m);
        case Instruction::Mul: if (I.nsw && w <= 64) { s128 r = sx128(x, w) * sx128(y, w); if (r != sx128((u128)r & m, w)) memError("ub", "signed integer overflow"); } return Val((x * y) & m);
        case Instruction::And: return Val(x & y); case Instruction::Or: return Val(x | y); case Instruction::Xor: return Val(x ^ y);
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: if (y >= (u128)w) memError("ub", "shift amount out of range"); return Val(ExprMgr::fold(I.op == Instruction::Shl ? SHL : I.op == Instruction::LShr ? LSHR : ASHR, x, y, w) & m);
        default: if (y == 0) memError("ub", "division by zero"); return Val(ExprMgr::fold(I.op == Instruction::UDiv ? UDIV : I.op == Instruction::SDiv ? SDIV : I.op == Instruction::URem ? UREM : SREM, x, y, w) & m); } }
    E *x = toE(fitw(a, w), w), *y = toE(fitw(b, w), w);
    uint8_t op; switch (I.op) {
    case Instruction::Add: case Instruction::Sub: op = I.op == Instruction::Add ? ADD : SUB;
        if (I.nsw && w <= 64) { s128 lo, hi; if (op == ADD) { lo = (s128)x->slo + y->slo; hi = (s128)x->shi + y->shi; } else { lo = (s128)x->slo - y->shi; hi = (s128)x->shi - y->slo; } s128 mn = sx64(1ull << (w - 1), w), mx = (s64)(mask64(w) >> 1);
            if (lo < mn || hi > mx) { E *r = X.bin(op, X.sext(x, w + 1), X.sext(y, w + 1)); E *ok = X.bin(EQ, X.extract(r, w, 1), X.extract(r, w - 1, 1)); require(ok, "ub", "signed integer overflow"); } } break;
    case Instruction::Mul: op = MUL; if (I.nsw && w <= 64) { s128 p[4] = {(s128)x->slo * y->slo, (s128)x->slo * y->shi, (s128)x->shi * y->slo, (s128)x->shi * y->shi}; s128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4); s128 mn = sx64(1ull << (w - 1), w), mx = (s64)(mask64(w) >> 1);
            if ((lo < mn || hi > mx) && 2 * w <= 128) { E *r = X.bin(MUL, X.sext(x, 2 * w), X.sext(y, 2 * w)); require(X.bin(EQ, r, X.sext(X.extract(r, 0, w), 2 * w)), "ub", "signed integer overflow"); } } break;
    case Instruction::And: op = AND; break; case Instruction::Or: op = OR; break; case Instruction::Xor: op = XOR; break;
    case Instruction::Shl: op = SHL; break; case Instruction::LShr: op = LSHR; break; case Instruction::AShr: op = ASHR; break;
    case Instruction::UDiv: op = UDIV; break; case Instruction::SDiv: op = SDIV; break; case Instruction::URem: op = UREM; break; default: op = SREM; }
    if (op == SHL || op == LSHR || op == ASHR) require(X.bin(ULT, y, X.cst(w, w)), "ub", "shift amount out of range");
    if (op == UDIV || op == SDIV || op == UREM || op == SREM) require(X.neg(X.bin(EQ, y, X.cst(0, w))), "ub", "division by zero");
    return Val::ex(X.bin(op, x, y)); }
static E *icmp(int pred, const Val &a, const Val &b, int w) {
    if (a.k == VC && b.k == VC) { u128 x = a.c, y = b.c; s128 sx = sx128(x, w), sy = sx128(y, w); bool r; switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; default: r = sx <= sy; } return r ? X.tru() : X.fls(); }
    E *x = toE(fitw(a, w), w), *y = toE(fitw(b, w), w);
    switch (pred) { case CmpInst::ICMP_EQ: return X.bin(EQ, x, y); case CmpInst::ICMP_NE: return X.neg(X.bin(EQ, x, y)); case CmpInst::ICMP_UGT: return X.bin(ULT, y, x); case CmpInst::ICMP_UGE: return X.bin(ULE, y, x); case CmpInst::ICMP_ULT: return X.bin(ULT, x, y); case CmpInst::ICMP_ULE: return X.bin(ULE, x, y); case CmpInst::ICMP_SGT: return X.bin(SLT, y, x); case CmpInst::ICMP_SGE: return X.bin(SLE, y, x); case CmpInst::ICMP_SLT: return X.bin(SLT, x, y); default: return X.bin(SLE, x, y); } }
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

static void intrinsic(Val *R, const Inst &I, std::vector<Val> &va) {
    const std::string &n = I.name; auto A = [&](int k) -> const Val& { return rd(R, I.ops[k]); }; int w = I.bits;
    if (starts(n, "llvm.lifetime") || starts(n, "llvm.dbg") || starts(n, "llvm.assume") || starts(n, "llvm.va_end") || starts(n, "llvm.stackrestore") || starts(n, "llvm.experimental.noalias") || starts(n, "llvm.prefetch")) return;
    if (starts(n, "llvm.stacksave")) { R[I.dst] = Val(0); return; }
    if (starts(n, "llvm.memcpy") || starts(n, "llvm.memmove")) { u64 len = (u64)cval(A(2), 64); if (len) { u64 d = caddr(A(0), len, true), s = caddr(A(1), len, false); doMemcpy(d, s, len); } return; }
    if (starts(n, "llvm.memset")) { u64 len = (u64)cval(A(2), 64); if (!len) return; u64 d = caddr(A(0), len, true); Val v = A(1); Leaf l{TI, 8, 0}; Obj *o = access(d, len, true); if (ctx) outsideWrite(o, o->kind == 2, d, len, 9);
        if (v.k == VC) { memset((void*)d, (int)v.c, len); if (o->sh) memset(o->sh + (d - o->base), 0, 4 * len); if (o->init) memset(o->init + (d - o->base), 1, len); } else for (u64 i = 0; i < len; i++) storeLeaf(d + i, l, v); return; }
    if (starts(n, "llvm.fabs")) { R[I.dst] = fpabs(A(0), I.tk == TD); return; }
    if (starts(n, "llvm.sqrt")) { R[I.dst] = fpun(A(0), I.tk == TD, I.tk == TD, [](double x) { return sqrt(x); }, "sqrt"); return; }
    if (starts(n, "llvm.floor")) { R[I.dst] = fpun(A(0), I.tk == TD, I.tk == TD, [](double x) { return floor(x); }, "floor"); return; }
    if (starts(n, "llvm.ceil")) { R[I.dst] = fpun(A(0), I.tk == TD, I.tk == TD, [](double x) { return ceil(x); }, "ceil"); return; }
    if (starts(n, "llvm.trunc")) { R[I.dst] = fpun(A(0), I.tk == TD, I.tk == TD, [](double x) { return trunc(x); }, "trunc"); return; }
    if (starts(n, "llvm.round")) { R[I.dst] = fpun(A(0), I.tk == TD, I.tk == TD, [](double x) { return round(x); }, "round"); return; }
    if (starts(n, "llvm.sin")) { R[I.dst] = fpun(A(0), true, true, [](double x) { return sin(x); }, "sin"); return; }
    if (starts(n, "llvm.cos")) { R[I.dst] = fpun(A(0), true, true, [](double x) { return cos(x); }, "cos"); return; }
    if (starts(n, "llvm.minnum") || starts(n, "llvm.maxnum")) { bool d = I.tk == TD; E *l = fpcmp(starts(n, "llvm.minnum") ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, A(0), A(1), d); R[I.dst] = fpsel(l, A(0), A(1), I.tk); return; }
    if (starts(n, "llvm.fmuladd")) { bool d = I.tk == TD; R[I.dst] = fpbin(Instruction::FAdd, fpbin(Instruction::FMul, A(0), A(1), d), A(2), d); return; }
    if (starts(n, "llvm.copysign")) { bool d = I.tk == TD; Val a = A(0), b = A(1); if (a.k == VC && b.k == VC) { R[I.dst] = Val((u128)db(copysign(bd(a.c), bd(b.c)))); return; } int bw = d ? 64 : 32; R[I.dst] = Val::ex(X.concat(X.extract(toE(b, bw), bw - 1, 1), X.extract(toE(a, bw), 0, bw - 1))); return; }
    if (starts(n, "llvm.is.fpclass")) { Val a = A(0); int bw = n.find("f32") != std::string::npos ? 32 : 64; unsigned t = (unsigned)A(1).c; int mb = bw == 64 ? 52 : 23; E *e = toE(a, bw); E *sg = X.extract(e, bw - 1, 1), *ex = X.extract(e, mb, bw - 1 - mb), *mn = X.extract(e, 0, mb);
        E *exz = X.bin(EQ, ex, X.cst(0, ex->w)), *exf = X.bin(EQ, ex, X.cst(mask(ex->w), ex->w)), *mz = X.bin(EQ, mn, X.cst(0, mb)); E *q = X.extract(mn, mb - 1, 1), *ng = X.neg(sg); E *r = X.fls();
        auto add = [&](unsigned bit, E *c) { if (t & bit) r = X.bin(OR, r, c); }; E *nan = X.bin(AND, exf, X.neg(mz)), *inf = X.bin(AND, exf, mz), *norm = X.bin(AND, X.neg(exz), X.neg(exf)), *sub = X.bin(AND, exz, X.neg(mz)), *zero = X.bin(AND, exz, mz);
        add(1, X.bin(AND, nan, X.neg(q))); add(2, X.bin(AND, nan, q)); add(4, X.bin(AND, inf, sg)); add(8, X.bin(AND, norm, sg)); add(16, X.bin(AND, sub, sg)); add(32, X.bin(AND, zero, sg)); add(64, X.bin(AND, zero, ng)); add(128, X.bin(AND, sub, ng)); add(256, X.bin(AND, norm, ng)); add(512, X.bin(AND, inf, ng)); R[I.dst] = Val::ex(r); return; }
    if (starts(n, "llvm.bswap")) { Val a = A(0); if (a.k == VC) { u128 r = 0; for (int i = 0; i < w; i += 8) r |= ((a.c >> i) & 255) << (w - 8 - i); R[I.dst] = Val(r); } else { E *e = toE(a, w), *r = nullptr; for (int i = 0; i < w; i += 8) { E *b = X.extract(e, i, 8); r = r ? X.concat(r, b) : b; } R[I.dst] = Val::ex(r); } return; }
    if (starts(n, "llvm.smax") || starts(n, "llvm.smin") || starts(n, "llvm.umax") || starts(n, "llvm.umin")) { bool mx = n[7] == 'a' && n[6] == 'm'; mx = n.compare(6, 3, "max") == 0; bool s = n[5] == 's'; E *l = icmp(s ? (mx ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT) : (mx ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT), A(0), A(1), w); if (X.isc(l)) R[I.dst] = l->v ? A(0) : A(1); else R[I.dst] = Val::ex(X.ite(l, toE(A(0), w), toE(A(1), w))); return; }
    if (starts(n, "llvm.abs")) { Val a = A(0); E *e = toE(a, w); R[I.dst] = Val::ex(X.ite(X.bin(SLT, e, X.cst(0, w)), X.bvneg(e), e)); return; }
    if (starts(n, "llvm.expect")) { R[I.dst] = A(0); return; }
    if (starts(n, "llvm.ctpop")) { E *e = toE(A(0), w), *r = X.cst(0, w); for (int i = 0; i < w; i++) r = X.bin(ADD, r, X.zext(X.extract(e, i, 1), w)); R[I.dst] = Val::ex(r); return; }
    if (starts(n, "llvm.ctlz") || starts(n, "llvm.cttz")) { bool lz = starts(n, "llvm.ctlz"); E *e = toE(A(0), w), *r = X.cst(w, w); for (int i = 0; i < w; i++) { int b = lz ? i : w - 1 - i; r = X.ite(X.extract(e, b, 1), X.cst(lz ? w - 1 - b : b, w), r); } R[I.dst] = Val::ex(r); return; }
    if (starts(n, "llvm.fshl") || starts(n, "llvm.fshr")) { Val a = A(0), b = A(1), s = A(2); u128 k = cval(s, w) % w; E *cat = X.concat(toE(a, w), toE(b, w)); if (n[8] == 'l') R[I.dst] = Val::ex(X.extract(cat, (int)(w - k), w)); else R[I.dst] = Val::ex(X.extract(cat, (int)k, w)); return; }
    if (n.find(".with.overflow") != std::string::npos) { int bw = I.ty[0].bits; E *a = toE(A(0), bw), *b = toE(A(1), bw); bool s = n[5] == 's'; int op = n.compare(6, 3, "add") == 0 ? ADD : n.compare(6, 3, "sub") == 0 ? SUB : MUL; int ww = std::min(128, 2 * bw); E *x = s ? X.sext(a, ww) : X.zext(a, ww), *y = s ? X.sext(b, ww) : X.zext(b, ww); E *r = X.bin(op, x, y); E *lo = X.extract(r, 0, bw); R[I.dst] = Val::ex(lo); R[I.dst + 1] = Val::ex(X.neg(X.bin(EQ, r, s ? X.sext(lo, ww) : X.zext(lo, ww)))); return; }
    if (starts(n, "llvm.objectsize")) { R[I.dst] = Val(mask(64)); return; }
    if (starts(n, "llvm.trap") || starts(n, "llvm.ubsantrap")) memError("abort", starts(n, "llvm.ubsantrap") ? "undefined behaviour (sanitizer trap: float to integer conversion out of range)" : "trap");
    if (starts(n, "llvm.va_start")) { u64 p = (u64)cval(A(0), 64); u64 ar = allocObj(8 * (va.size() + 1), 2, false); Leaf l4{TI, 32, 0}, l8{TI, 64, 0}; storeLeaf(p, l4, Val(48)); storeLeaf(p + 4, l4, Val(176)); storeLeaf(p + 8, l8, Val((u128)ar)); storeLeaf(p + 16, l8, Val(0)); for (size_t i = 0; i < va.size(); i++) { Val v = va[i]; if (v.k == VE && v.e()->w < 64) v = Val::ex(X.zext(v.e(), 64)); storeLeaf(ar + 8 * i, l8, v); } return; }
    if (starts(n, "llvm.va_copy")) { doMemcpy((u64)cval(A(0), 64), (u64)cval(A(1), 64), 24); return; }
    unsupported("intrinsic " + n);
}

static void callRaw(Func *f, std::vector<Val> &args, Val *ret) {
    SH->cov[f->id].store(1, std::memory_order_relaxed);
    if (callStack.size() > 20000) memError("stack", "unbounded recursion");
    Val *R = regs + rsp; rsp += f->nregs; if (rsp > REGCAP) memError("stack", "register stack overflow");
    size_t na = 0; for (int n : f->argn) na += n; if (args.size() < na) unsupported("argument count " + f->name);
    for (size_t i = 0; i < na; i++) R[i] = args[i];
    for (size_t i = na; i < (size_t)f->nregs; i++) R[i] = Val();
    std::vector<Val> va; if (f->vararg) va.assign(args.begin() + na, args.end());
    size_t smark = sobj.size(); callStack.push_back({f, curInst});
    int cur = 0, prev = -1; std::vector<Val> tmp;
    for (;;) {
        Block &B = f->bl[cur];
        if (prev >= 0 && !B.phis.empty()) { auto it = B.phis.find(prev); if (it != B.phis.end()) { auto &mv = it->second; if (mv.size() == 1 && mv[0].n == 1) { Val t = rd(R, mv[0].src); R[mv[0].dst] = t; } else { tmp.clear(); for (auto &m : mv) for (int k = 0; k < m.n; k++) tmp.push_back(rd(R, m.src, k)); size_t q = 0; for (auto &m : mv) for (int k = 0; k < m.n; k++) R[m.dst + k] = tmp[q++]; } } }
        int next = -1;
        for (const Inst &I : B.ins) {
            curInst = &I; 
            if (++stepCount > O.steps) memError("hang", "step limit exceeded (possible non-termination)");
            if ((stepCount & 0xfffff) == 0) checkStop();
            switch (I.op) {
            case Instruction::Br: if (I.ops.empty()) next = I.aux[0]; else { const Val &c = rd(R, I.ops[0]); next = (c.k == VC ? (c.c & 1) : branch(boolE(c))) ? I.aux[0] : I.aux[1]; } break;
            case Instruction::Switch: { const Val c = rd(R, I.ops[0]); if (c.k == VC) { next = I.aux[0]; for (auto &k : I.cases) if (k.first == c.c) { next = k.second; break; } }
                else { E *e = toE(c, I.bits); std::vector<std::pair<int, E*>> grp; E *any = X.fls(); for (auto &k : I.cases) { E *q = X.bin(EQ, e, X.cst(k.first, I.bits)); any = X.bin(OR, any, q); if (k.second == I.aux[0]) continue; bool found = false; for (auto &g : grp) if (g.first == k.second) { g.second = X.bin(OR, g.second, q); found = true; } if (!found) grp.push_back({k.second, q}); }
                    next = I.aux[0]; for (auto &g : grp) if (branch(g.second)) { next = g.first; break; } } break; }
            case Instruction::Ret: { for (int k = 0; k < I.nl; k++) ret[k] = rd(R, I.ops[0], k); popStack(smark); callStack.pop_back(); rsp -= f->nregs; ST->instrs.fetch_add(0, std::memory_order_relaxed); return; }
            case Instruction::Unreachable: memError("abort", "unreachable code reached");
            case Instruction::Alloca: { u64 n = (u64)cval(rd(R, I.ops[0]), I.bits2); u64 a = allocObj(I.sz * n, 2, true); if (!a) memError("stack", "stack overflow"); R[I.dst] = Val((u128)a); break; }
            case Instruction::Load: { const Val p = rd(R, I.ops[0]); if (p.k == VC) for (int k = 0; k < I.nl; k++) R[I.dst + k] = loadLeaf((u64)p.c + I.ty[k].off, I.ty[k]); else { E *pe = toE(p, 64); for (int k = 0; k < I.nl; k++) R[I.dst + k] = loadAny(I.ty[k].off ? Val::ex(X.bin(ADD, pe, X.cst(I.ty[k].off, 64))) : p, I.ty[k]); } break; }
            case Instruction::Store: { const Val p = rd(R, I.ops[1]); u64 a = p.k == VC ? (u64)p.c : caddr(p, 1, true); for (size_t k = 0; k < I.ty.size(); k++) { Val v = rd(R, I.ops[0], (int)k); if (v.k == VE && v.e()->w != I.ty[k].bits) v = fitw(v, I.ty[k].bits); storeLeaf(a + I.ty[k].off, I.ty[k], v); } break; }
            case Instruction::GetElementPtr: { const Val &p = rd(R, I.ops[0]); bool sym = p.k != VC; u64 off = (u64)I.off; for (size_t k = 0; k < I.sc.size(); k++) { const Val &v = rd(R, I.ops[k + 1]); if (v.k != VC) { sym = true; break; } off += (u64)sx128(v.c, I.aux[k]) * (u64)I.sc[k]; }
                if (!sym) R[I.dst] = Val((u128)(u64)((u64)p.c + off)); else { E *e = toE(p, 64); E *o = X.cst((u64)I.off, 64); for (size_t k = 0; k < I.sc.size(); k++) { E *v = X.sext(toE(fitw(rd(R, I.ops[k + 1]), I.aux[k]), I.aux[k]), 64); o = X.bin(ADD, o, X.bin(MUL, v, X.cst((u128)(u64)I.sc[k], 64))); } R[I.dst] = Val::ex(X.bin(ADD, e, o)); } break; }
            case Instruction::ICmp: { const Val &a = rd(R, I.ops[0]); const Val b = rd(R, I.ops[1]); E *e = icmp(I.pred, a, b, I.bits2); R[I.dst] = Val::ex(e); break; }
            case Instruction::FCmp: { for (int k = 0; k < I.nl; k++) { Val a = rd(R, I.ops[0], k), b = rd(R, I.ops[1], k); R[I.dst + k] = Val::ex(fpcmp(I.pred, a, b, I.tk == TD)); } break; }
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
                for (int k = 0; k < I.nl; k++) { Val a = rd(R, I.ops[0], k), b = rd(R, I.ops[1], k); R[I.dst + k] = binop(I, a, b); } break;
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: if (I.bits == 80) unsupported("long double arithmetic");
                for (int k = 0; k < I.nl; k++) { Val a = rd(R, I.ops[0], k), b = rd(R, I.ops[1], k); R[I.dst + k] = fpbin(I.op, a, b, I.tk == TD); } break;
            case Instruction::FNeg: for (int k = 0; k < I.nl; k++) R[I.dst + k] = fpneg(rd(R, I.ops[0], k), I.tk == TD); break;
            case Instruction::Trunc: { Val a = rd(R, I.ops[0]); R[I.dst] = a.k == VC ? Val(a.c & mask(I.bits)) : Val::ex(X.extract(toE(a, I.bits2), 0, I.bits)); break; }
            case Instruction::ZExt: { Val a = rd(R, I.ops[0]); R[I.dst] = a.k == VC ? a : Val::ex(X.zext(toE(fitw(a, I.bits2), I.bits2), I.bits)); break; }
            case Instruction::SExt: { Val a = rd(R, I.ops[0]); R[I.dst] = a.k == VC ? Val((u128)sx128(a.c, I.bits2) & mask(I.bits)) : Val::ex(X.sext(toE(fitw(a, I.bits2), I.bits2), I.bits)); break; }
            case Instruction::FPTrunc: if (I.bits == 80 || I.bits2 == 80) { if (I.bits == 32 || I.bits2 == 32) unsupported("long double"); R[I.dst] = rd(R, I.ops[0]); break; } for (int k = 0; k < I.nl; k++) R[I.dst + k] = fpConv(rd(R, I.ops[0], k), true, false); break;
            case Instruction::FPExt: if (I.bits == 80 || I.bits2 == 80) { if (I.bits == 32 || I.bits2 == 32) unsupported("long double"); R[I.dst] = rd(R, I.ops[0]); break; } for (int k = 0; k < I.nl; k++) R[I.dst + k] = fpConv(rd(R, I.ops[0], k), false, true); break;
            case Instruction::SIToFP: case Instruction::UIToFP: R[I.dst] = intToFp(rd(R, I.ops[0]), I.bits2, I.op == Instruction::SIToFP, I.tk == TD); break;
            case Instruction::FPToSI: case Instruction::FPToUI: { Val a = rd(R, I.ops[0]); R[I.dst] = fpToInt(a, I.bits2 == 64, I.bits, I.op == Instruction::FPToSI); break; }
            case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = rd(R, I.ops[0]); R[I.dst] = a.k == VC ? Val(a.c & mask(I.bits)) : fitw(a, I.bits); break; }
            case Instruction::BitCast: { Val a = rd(R, I.ops[0]); if (I.sz == 1 && I.nl == 1) { bool ff = I.pred == TF || I.pred == TD, tf = I.tk == TF || I.tk == TD; if (ff && !tf) R[I.dst] = a.k == VC ? a : Val::ex(toE(a, I.bits)); else R[I.dst] = a; } else if (I.sz == (u64)I.nl) { for (int k = 0; k < I.nl; k++) R[I.dst + k] = rd(R, I.ops[0], k); } else { 
                    // vector <-> scalar
                    E *e = nullptr; for (u64 k = 0; k < I.sz; k++) { E *x = toE(rd(R, I.ops[0], (int)k), I.bits2); e = e ? X.concat(x, e) : x; } int at = 0; for (int k = 0; k < I.nl; k++) { R[I.dst + k] = Val::ex(X.extract(e, at, I.ty[k].bits)); at += I.ty[k].bits; } } break; }
            case Instruction::Freeze: for (int k = 0; k < I.nl; k++) R[I.dst + k] = rd(R, I.ops[0], k); break;
            case Instruction::Select: { const Val c = rd(R, I.ops[0]); if (c.k == VC) { for (int k = 0; k < I.nl; k++) R[I.dst + k] = rd(R, I.ops[(c.c & 1) ? 1 : 2], k); }
                else { E *ce = boolE(c); bool ptr = false; for (auto &l : I.ty) if (l.k == TP) ptr = true; if (ptr || I.nl > 1) { bool s = branch(ce); for (int k = 0; k < I.nl; k++) R[I.dst + k] = rd(R, I.ops[s ? 1 : 2], k); }
                    else { Val a = rd(R, I.ops[1]), b = rd(R, I.ops[2]); if (I.tk == TI) R[I.dst] = Val::ex(X.ite(ce, toE(fitw(a, I.bits), I.bits), toE(fitw(b, I.bits), I.bits))); else R[I.dst] = fpsel(ce, a, b, I.tk); } } break; }
            case Instruction::ExtractValue: for (int k = 0; k < I.nl; k++) R[I.dst + k] = rd(R, I.ops[0], (int)I.off + k); break;
            case Instruction::InsertValue: { for (int k = 0; k < I.nl; k++) if (k < I.off || k >= I.off + (s64)I.sz) R[I.dst + k] = (I.ops[0].r < 0 && consts[~I.ops[0].r + k].k == 7) ? Val() : rd(R, I.ops[0], k); for (u64 k = 0; k < I.sz; k++) R[I.dst + I.off + k] = rd(R, I.ops[1], (int)k); break; }
            case Instruction::ExtractElement: { u64 ix = (u64)cval(rd(R, I.ops[1]), 64); R[I.dst] = rd(R, I.ops[0], (int)ix); break; }
            case Instruction::InsertElement: { u64 ix = (u64)cval(rd(R, I.ops[2]), 64); for (int k = 0; k < I.nl; k++) R[I.dst + k] = (u64)k == ix ? rd(R, I.ops[1]) : (I.ops[0].r < 0 && consts[~I.ops[0].r + k].k == 7) ? Val() : rd(R, I.ops[0], k); break; }
            case Instruction::ShuffleVector: { std::vector<Val> t; for (int m : I.aux) t.push_back(m < 0 ? Val() : (u64)m < I.sz ? rd(R, I.ops[0], m) : rd(R, I.ops[1], m - (int)I.sz)); for (size_t k = 0; k < t.size(); k++) R[I.dst + k] = t[k]; break; }
            case Instruction::Fence: break;
            case Instruction::AtomicRMW: { u64 a = (u64)cval(rd(R, I.ops[0]), 64); Leaf l = I.ty[0]; Val old = loadLeaf(a, l), v = rd(R, I.ops[1]); Inst J; J.bits = l.bits; 
                switch (I.pred) { case AtomicRMWInst::Add: J.op = Instruction::Add; break; case AtomicRMWInst::Sub: J.op = Instruction::Sub; break; case AtomicRMWInst::And: J.op = Instruction::And; break; case AtomicRMWInst::Or: J.op = Instruction::Or; break; case AtomicRMWInst::Xor: J.op = Instruction::Xor; break; case AtomicRMWInst::Xchg: J.op = 0; break; default: unsupported("atomicrmw"); }
                Val nv = J.op ? binop(J, old, v) : v; storeLeaf(a, l, nv); R[I.dst] = old; break; }
            case Instruction::AtomicCmpXchg: { u64 a = (u64)cval(rd(R, I.ops[0]), 64); Leaf l = I.ty[0]; Val old = loadLeaf(a, l); bool eq = branch(icmp(CmpInst::ICMP_EQ, old, rd(R, I.ops[1]), l.bits)); if (eq) storeLeaf(a, l, rd(R, I.ops[2])); R[I.dst] = old; R[I.dst + 1] = Val(eq ? 1 : 0); break; }
            case 1000: { bool d = I.tk == TD; Val y = rd(R, I.ops[0]), x = rd(R, I.ops[1]); int p; if (starts(I.name, "min")) p = CmpInst::FCMP_OLT; else if (starts(I.name, "max")) p = CmpInst::FCMP_OGT; else unsupported("inline asm " + I.name); E *c = fpcmp(p, x, y, d); R[I.dst] = fpsel(c, x, y, I.tk); break; }
            case 1001: intrinsic(R, I, va); break;
            case Instruction::Call: { Func *g = I.fn; size_t o = 0; if (!g) { u64 a = (u64)cval(rd(R, I.ops[0]), 64); auto it = faddr.find(a); if (it == faddr.end()) memError("badcall", a < 4096 ? "call through a null pointer" : "call through an invalid pointer"); g = it->second; o = 1; }
                std::vector<Val> as; as.reserve(I.ops.size() + 2); size_t fixed = g->argn.size();
                for (size_t k = 0; k < I.aux.size(); k++) { int n = I.aux[k] & 0xffff; if (I.aux[k] >> 16) { u64 src = (u64)cval(rd(R, I.ops[o + k]), 64); u64 cp = allocObj((u64)I.sc[k], 2, false); doMemcpy(cp, src, (u64)I.sc[k]); as.push_back(Val((u128)cp)); } else for (int q = 0; q < n; q++) { Val v = rd(R, I.ops[o + k], q); if (g->vararg && k >= fixed && I.cases[k].first == TI && v.k == VC && I.sc[k] == 32) v.c &= 0xffffffff; as.push_back(v); } }
                Val rb[16]; if (callStack.size()) callStack.back().second = callStack.back().second; const Inst *me = &I; callStack.back().second = me; callAny(g, I, as, rb); curInst = me; if (I.dst >= 0) for (int k = 0; k < I.nl; k++) R[I.dst + k] = rb[k]; break; }
            default: unsupported(std::string("instruction ") + Instruction::getOpcodeName(I.op));
            }
            if (next >= 0) break;
        }
        prev = cur; cur = next;
    }
}

struct Snapshot { size_t smark, hmark, cs, rs, in, ob, sv, pcn; long live; int fault, moff; std::vector<Model*> pool; const Inst *ci; u64 undefc, steps; 
    void take_() { smark = sobj.size(); hmark = hobj.size(); cs = callStack.size(); rs = rsp; in = inputs.size(); ob = observes.size(); sv = symvs.size(); pcn = pc.size(); live = liveHeap; fault = faultBudget; moff = mergeOff; pool = ::pool; ci = curInst; undefc = undefCtr; steps = stepCount; }
    void restore() { popStack(smark); popHeap(hmark); callStack.resize(cs); rsp = rs; inputs.resize(in); observes.resize(ob); symvs.resize(sv); pc.resize(pcn); liveHeap = live; faultBudget = fault; mergeOff = moff; ::pool = pool; curInst = ci; undefCtr = undefc; stepCount = steps; } };
struct PW { u64 a; uint32_t n; uint8_t k; std::vector<uint8_t> by, in; std::vector<SymV> sv; }; // sv[i].n == 0: concrete byte; else byte value (i - start) of sv
struct MRes { E *cond; std::vector<Val> v; std::vector<PW> w; };
struct Loc { u64 a; uint32_t n; uint8_t k; };
// final contents of everything one path wrote
static std::vector<PW> pathWrites(std::vector<JEnt> &j) {
    std::vector<PW> r; std::map<std::pair<u64, uint32_t>, size_t> at;
    for (auto &e : j) { auto key = std::make_pair(e.a, e.n); auto it = at.find(key); if (it != at.end()) { if (r[it->second].k != e.k) r[it->second].k = e.k == 9 ? r[it->second].k : e.k; continue; } at[key] = r.size(); r.push_back(PW{e.a, e.n, e.k, {}, {}, {}}); }
    for (auto &w : r) { Obj *o = findObj(w.a); u64 off = w.a - o->base; w.by.assign((uint8_t*)w.a, (uint8_t*)w.a + w.n);
        if (o->init) w.in.assign(o->init + off, o->init + off + w.n);
        if (o->sh) { bool any = false; for (uint32_t i = 0; i < w.n; i++) if (o->sh[off + i]) any = true; if (any) { w.sv.resize(w.n); for (uint32_t i = 0; i < w.n; i++) { uint32_t x = o->sh[off + i]; if (x) { w.sv[i] = symvs[x >> 4]; w.sv[i].v.c = 0; } else w.sv[i].n = 0; } w.by.resize(w.n * 2); for (uint32_t i = 0; i < w.n; i++) w.by[w.n + i] = o->sh[off + i] & 15; } } }
    return r; }
static void applyWrites(const std::vector<PW> &ws) { // raw, not journaled
    for (auto &w : ws) { Obj *o = findObj(w.a); u64 off = w.a - o->base; memcpy((void*)w.a, w.by.data(), w.n);
        if (o->init) { if (w.in.empty()) memset(o->init + off, 1, w.n); else memcpy(o->init + off, w.in.data(), w.n); }
        else if (!w.in.empty()) { bool all = true; for (uint8_t x : w.in) if (!x) all = false; if (!all) { o->init = (uint8_t*)malloc(o->size); memset(o->init, 1, o->size); memcpy(o->init + off, w.in.data(), w.n); } }
        if (w.sv.empty()) { if (o->sh) memset(o->sh + off, 0, 4ull * w.n); continue; }
        ensureShadow(o); uint32_t last = 0; int lastb = -2; 
        for (uint32_t i = 0; i < w.n; i++) { if (!w.sv[i].n) { o->sh[off + i] = 0; lastb = -2; continue; } int b = w.by[w.n + i];
            if (!(lastb + 1 == b && symvs[last].v.p == w.sv[i].v.p && symvs[last].n == w.sv[i].n)) { last = (uint32_t)symvs.size(); symvs.push_back(w.sv[i]); } lastb = b; o->sh[off + i] = last << 4 | (uint32_t)b; } } }
static void splitLocs(std::vector<MRes> &res, std::vector<Loc> &locs) {
    struct Iv { u64 a; uint32_t n; uint8_t k; bool operator<(const Iv &o) const { return a != o.a ? a < o.a : n > o.n; } }; std::vector<Iv> iv;
    for (auto &r : res) for (auto &w : r.w) { if (w.n <= 8) iv.push_back(Iv{w.a, w.n, w.k}); else for (u64 a = w.a; a < w.a + w.n;) { u64 e = std::min<u64>((a & ~7ull) + 8, w.a + w.n); iv.push_back(Iv{a, (uint32_t)(e - a), 9}); a = e; } }
    std::sort(iv.begin(), iv.end());
    for (size_t i = 0; i < iv.size();) { u64 a = iv[i].a, e = a + iv[i].n; bool same = true; uint8_t k = iv[i].k; size_t j = i + 1;
        while (j < iv.size() && iv[j].a < e) { if (iv[j].a != a || iv[j].n != iv[i].n) same = false; if (k == 9) k = iv[j].k; e = std::max<u64>(e, iv[j].a + iv[j].n); j++; }
        if (same) locs.push_back(Loc{a, iv[i].n, k});
        else for (u64 p = a; p < e;) { u64 q = std::min<u64>((p & ~7ull) + 8, e); locs.push_back(Loc{p, (uint32_t)(q - p), 9}); p = q; }
        i = j; } }

static void callMerged(Func *f, std::vector<Val> &args, Val *ret) {
    Ctx C; C.parent = ctx; C.f = f; Snapshot S; S.take_(); C.hmark = S.hmark; C.smark = S.smark; C.inmark = S.in; C.obsmark = S.ob; C.live = S.live;
    std::vector<MRes> res; bool killed = false; int nr = f->retn;
    Val rb[16];
    auto restart = [&]() { jUndo(C.jr); S.restore(); C.dec.clear(); C.pos = 0; C.wrote = C.dead = false; res.clear(); killed = false; };
    for (;;) {
        ctx = &C; C.pos = 0;
        bool done = false;
        try { callRaw(f, args, rb);
            if (C.dec.empty()) { ctx = C.parent; if (ctx) for (auto &e : C.jr) if (e.idx < (e.stk ? ctx->smark : ctx->hmark)) ctx->jr.push_back(std::move(e)); for (int i = 0; i < nr; i++) ret[i] = rb[i]; return; }
            // private heap objects must not survive; returned pointers must not be private
            bool bad = liveHeap != S.live || inputs.size() != S.in || observes.size() != S.ob;
            for (int i = 0; i < nr && !bad; i++) if (f->retty[i].k == TP) { if (rb[i].k != VC) bad = true; else { Obj *o = findObj((u64)rb[i].c); if (o) { bool st = o->kind == 2; size_t idx = st ? o - &sobj[0] : o - &hobj[0]; if (idx >= (st ? C.smark : C.hmark)) bad = true; } } }
            if (bad) { f->impure++; throwImpure(); }
            E *cond = X.tru(); for (size_t i = S.pcn; i < pc.size(); i++) cond = X.bin(AND, cond, pc[i]);
            std::vector<PW> pw; if (!C.jr.empty()) pw = pathWrites(C.jr);
            bool found = false; if (pw.empty()) for (auto &r : res) { bool same = r.w.empty(); for (int i = 0; i < nr && same; i++) if (r.v[i].k != rb[i].k || r.v[i].c != rb[i].c || r.v[i].p != rb[i].p) same = false; if (same) { r.cond = X.bin(OR, r.cond, cond); found = true; break; } }
            if (!found) { MRes r; r.cond = cond; r.v.assign(rb, rb + nr); r.w = std::move(pw); res.push_back(std::move(r)); }
            ST->mergepaths++; done = true;
        } catch (PathEnd &pe) { if (C.dec.empty()) { jUndo(C.jr); ctx = C.parent; throw; } killed = true; ctx = C.parent; if (pe.why == 3 && SH->stop) { jUndo(C.jr); throw; } done = true; }
        catch (Impure &im) { if (im.c != &C) { jUndo(C.jr); ctx = C.parent; throw; } restart(); ctx = C.parent; if (f->impure) { callRaw(f, args, ret); return; } continue; }
        (void)done;
        ctx = C.parent; jUndo(C.jr); S.restore();
        while (!C.dec.empty() && !C.dec.back().pending) C.dec.pop_back();
        if (C.dec.empty()) break;
        C.dec.back().pending = false; C.dec.back().taken = !C.dec.back().taken;
        C.wrote = C.dead = false;
    }
    if (res.empty()) endPath(killed ? 0 : 3);
    ST->merges++;
    if (killed) { E *any = X.fls(); for (auto &r : res) any = X.bin(OR, any, r.cond); assume(any); }
    std::vector<Loc> locs; bool anyw = false; for (auto &r : res) if (!r.w.empty()) anyw = true;
    std::vector<std::vector<Val>> lv(res.size()); std::vector<std::vector<uint8_t>> lm(res.size()); // value and init mask per path and location
    std::vector<std::vector<u64>> sig(res.size());
    if (anyw) { splitLocs(res, locs);
        std::vector<JEnt> orig; for (auto &l : locs) { Obj *o = findObj(l.a); orig.push_back(jCapture(o, false, 0, l.a, l.n, 9)); }
                for (int pass = 0; pass < 2; pass++) { std::vector<uint8_t> part(locs.size(), 0); bool any = false;
          for (size_t p = 0; p < res.size(); p++) { applyWrites(res[p].w); for (size_t i = 0; i < locs.size(); i++) { Loc &l = locs[i]; Obj *o = findObj(l.a); uint32_t c = 0; for (uint32_t b = 0; b < l.n; b++) if (!o->init || o->init[l.a - o->base + b]) c++; if (c && c != l.n) part[i] = 1, any = true; } for (size_t i = orig.size(); i-- > 0;) jRestore(orig[i]); }
          if (!any) break; std::vector<Loc> nl; for (size_t i = 0; i < locs.size(); i++) if (!part[i]) nl.push_back(locs[i]); else for (uint32_t b = 0; b < locs[i].n; b++) nl.push_back(Loc{locs[i].a + b, 1, 0}); locs = nl; }
        std::vector<uint8_t> isp(locs.size(), 0);
        for (size_t p = 0; p < res.size(); p++) { applyWrites(res[p].w); lv[p].resize(locs.size()); lm[p].resize(locs.size());
            for (size_t i = 0; i < locs.size(); i++) { Loc &l = locs[i]; Obj *o = findObj(l.a); uint8_t m = 0; for (uint32_t b = 0; b < l.n; b++) if (!o->init || o->init[l.a - o->base + b]) m |= 1 << b;
                lm[p][i] = m; if (m == (1u << l.n) - 1) { Leaf lf{l.n == 8 ? TD : TI, (int)l.n * 8, 0}; lv[p][i] = loadLeaf(l.a, lf); if (l.n == 8 && lv[p][i].k == VC && (u64)lv[p][i].c > 65535 && findObj((u64)lv[p][i].c)) isp[i] = 1; if (l.k == TP) isp[i] = 1; } }
            for (size_t i = orig.size(); i-- > 0;) jRestore(orig[i]); }
        for (size_t p = 0; p < res.size(); p++) for (size_t i = 0; i < locs.size(); i++) { sig[p].push_back(lm[p][i]); if (isp[i]) { if (lv[p][i].k == VC) sig[p].push_back((u64)lv[p][i].c); else sig[p].push_back((u64)lv[p][i].p); } } }
    for (size_t p = 0; p < res.size(); p++) for (int i = 0; i < nr; i++) if (f->retty[i].k == TP) sig[p].push_back((u64)res[p].v[i].c);
    std::vector<size_t> g; // group of paths to unify
    { std::vector<std::vector<size_t>> gs; for (size_t p = 0; p < res.size(); p++) { bool f2 = false; for (auto &q : gs) if (sig[q[0]] == sig[p]) { q.push_back(p); f2 = true; break; } if (!f2) gs.push_back({p}); }
        size_t k = 0; for (; k + 1 < gs.size(); k++) { E *c = X.fls(); for (size_t p : gs[k]) c = X.bin(OR, c, res[p].cond); if (branch(c)) break; }
        g = gs[k]; }
    for (size_t i = 0; i < locs.size(); i++) { Loc &l = locs[i]; uint8_t m = lm[g[0]][i]; if (!m) continue;
        Val v = lv[g.back()][i]; bool dbl = l.k == TD; if (l.n == 8) for (size_t p : g) if (lv[p][i].k == VQ) dbl = true;
        for (size_t q = g.size() - 1; q-- > 0;) { Val &x = lv[g[q]][i]; if (x.k == v.k && x.c == v.c && x.p == v.p) continue;
            if (dbl && l.n == 8) v = fpsel(res[g[q]].cond, x, v, TD); else if (l.k == TF && l.n == 4) v = fpsel(res[g[q]].cond, x, v, TF); else v = Val::ex(X.ite(res[g[q]].cond, toE(fitw(x, l.n * 8), l.n * 8), toE(fitw(v, l.n * 8), l.n * 8))); }
        storeLeaf(l.a, Leaf{dbl ? TD : (TK)(l.k <= TP ? l.k : TI), (int)l.n * 8, 0}, v); }
    for (int k = 0; k < nr; k++) { Leaf l = f->retty[k]; Val v = res[g.back()].v[k];
        if (l.k != TP) for (size_t q = g.size() - 1; q-- > 0;) { if (l.k == TI) { Val x = res[g[q]].v[k]; v = Val::ex(X.ite(res[g[q]].cond, toE(fitw(x, l.bits), l.bits), toE(fitw(v, l.bits), l.bits))); } else v = fpsel(res[g[q]].cond, res[g[q]].v[k], v, l.k); }
        ret[k] = v; }
}

static void pathDone() {
    u64 n = ST->paths++;
    ST->instrs += stepCount;
    bool w = n < (u64)O.wit; if (!w && (n & (n - 1)) == 0) w = true;
    if (w) { int id = SH->nwit++; Model *m = pool[0]; char fnm[600]; snprintf(fnm, sizeof fnm, "%s/wit.%d.txt", O.out.c_str(), id); FILE *f = fopen(fnm, "w"); writeInputs(f, m); bool hav = false;
        for (E *e : pc) if (e->havoc || e->undef) hav = true;
        for (auto &o : observes) { E *e = toE(o.v, o.bits); if (e->havoc || e->undef) hav = true; fprintf(f, "obs %llu\n", (unsigned long long)(u64)evalM(e, m)); } if (hav) fprintf(f, "havoc\n"); fclose(f); }
}
static ucontext_t mainctx, runctx; static Func *entry;
static void runner() {
    try { std::vector<Val> a; Val rb[16]; callRaw(entry, a, rb); pathDone(); }
    catch (PathEnd &p) { ST->instrs += stepCount; if (p.why == 2) pathDone(); else if (p.why == 3) ST->incomplete++; }
    catch (Impure &) { fprintf(stderr, "symx: internal: stray Impure\n"); ST->incomplete++; }
    setcontext(&mainctx);
}
static std::string js(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "-e") O.entry = nx(); else if (a == "-o") O.out = nx(); else if (a == "-t") O.timeout = atof(nx().c_str()); else if (a == "-s") O.steps = strtoull(nx().c_str(), 0, 10); else if (a == "-j") O.jobs = atoi(nx().c_str()); else if (a == "--no-merge") O.merge = false; else if (a == "--tab") O.tabmax = atoi(nx().c_str()); else if (a == "--fp-strict") O.fpstrict = true; else if (a == "--stop-first") O.keep = false; else if (a == "--mw") O.mw = true; else if (a == "--bdd") O.bdd = atoi(nx().c_str()); else if (a == "-v") O.verbose = true; else if (a == "--xcheck") O.xevery = atoi(nx().c_str()); else if (a == "--wit") O.wit = atoi(nx().c_str()); else if (a == "--maxviol") O.maxviol = atoi(nx().c_str()); else O.bc = a; }
    T0 = now(); DEADLINE = T0 + O.timeout;
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)SH, 0, sizeof(Shared)); ST = &SH->st; SH->tokens = O.jobs - 1; SH->live = 1;
    LLVMContext lc; SMDiagnostic err; auto M = parseIRFile(O.bc, err, lc); if (!M) { fprintf(stderr, "symx: cannot read %s\n", O.bc.c_str()); return 3; }
    DL = &M->getDataLayout(); SV = new Solver; SV->xevery = O.xevery; SV->B.D.lim = O.bdd; SV->B.gdec = !O.bdd;
    arena = (char*)mmap((void*)0x100000000000ull, HEAPSZ + STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); gmap = (uint32_t*)mmap(nullptr, ((HEAPSZ + STKSZ) >> 4) * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    regs = (Val*)mmap(nullptr, REGCAP * sizeof(Val) + (1 << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || gmap == MAP_FAILED || regs == MAP_FAILED) { fprintf(stderr, "symx: mmap failed\n"); return 3; }
    hbase = (u64)arena; hbump = hbase + 16; sbase = hbase + HEAPSZ; sbump = sbase + 16; hobj.reserve(1 << 16); sobj.reserve(1 << 12);
    consts.push_back(Val(0));
    u64 fa = 0x7000; for (auto &f : *M) { Func *F = new Func; F->name = f.getName().str(); F->id = (int)funcs.size(); F->decl = f.isDeclaration(); F->addr = (fa += 16); F->vararg = f.isVarArg(); F->lf = &f; F->retty = flatTy(f.getReturnType()); F->retn = (int)F->retty.size(); auto it = BIS.find(F->name); if (F->decl && it != BIS.end()) F->bi = it->second; if (F->decl) for (auto &a : f.args()) F->argn.push_back((int)flatTy(a.getType()).size()); funcs.push_back(F); fname[F->name] = F; faddr[F->addr] = F; gaddr[&f] = F->addr; if (auto *sp = f.getSubprogram()) if (sp->getFile()) F->file = sp->getFile()->getFilename().str();
        if (F->name.compare(0, 8, "sxnomerg") == 0) F->nomerge = true; }
    for (auto &g : M->globals()) { u64 a = allocObj(DL->getTypeAllocSize(g.getValueType()), 0, false); gaddr[&g] = a; }
    for (auto &al : M->aliases()) gaddr[&al] = gaddr[al.getAliaseeObject()];
    for (auto &g : M->globals()) { u64 a = gaddr[&g]; if (g.hasInitializer()) initMem(g.getInitializer(), (char*)a); if (g.isConstant()) findObj(a)->ro = true; }
    { u64 t = allocObj(384 * 2, 0, false); memcpy((void*)t, *__ctype_b_loc() - 128, 768); u64 p = allocObj(8, 0, false); *(u64*)p = t + 256; ctypePtr = p; }
    for (Func *F : funcs) if (!F->decl) { Decoder d; d.F = F; d.run(*F->lf); }
    auto ei = fname.find(O.entry); if (ei == fname.end() || ei->second->decl) { fprintf(stderr, "symx: no entry %s\n", O.entry.c_str()); return 3; } entry = ei->second;
    { Model *m = new Model; m->stamp = ++stampCtr; pool.push_back(m); }
    size_t SS = 4ull << 30; void *stk = mmap(nullptr, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pid_t root = getpid();
    getcontext(&runctx); runctx.uc_stack.ss_sp = stk; runctx.uc_stack.ss_size = SS; runctx.uc_link = nullptr; makecontext(&runctx, runner, 0);
    swapcontext(&mainctx, &runctx);
    if (getpid() != root) { if (ownToken) SH->tokens++; SH->live--; while (waitpid(-1, nullptr, WNOHANG) > 0) {} _exit(0); }
    SH->tokens++;
    if (O.verbose) fprintf(stderr, "sat vars %d clauses %d props %lld confl %lld decs %lld\n", SV->B.S->nVars(), SV->B.S->nClauses(), (long long)SV->B.S->propagations, (long long)SV->B.S->conflicts, (long long)SV->B.S->decisions);
    double grace = 0; while (SH->live > 1) { usleep(2000); while (waitpid(-1, nullptr, WNOHANG) > 0) {} if (now() > DEADLINE + 60) { grace = 1; noteIncomplete("explorers did not stop"); break; } }
    if (grace) { }
    std::string s = "{"; auto num = [&](const char *k, u64 v) { s += std::string("\"") + k + "\":" + std::to_string(v) + ","; };
    num("paths", ST->paths); num("paths_killed_by_assume", ST->pathsKilled); num("violations", SH->nviol); num("branches", ST->branches); num("forks", ST->forks); num("merged_calls", ST->merges); num("merged_paths", ST->mergepaths); num("queries", ST->queries); num("bdd_decided", ST->qbdd); num("sat", ST->qsat); num("unsat", ST->qunsat); num("unknown", ST->qunk); num("solver_ms", ST->solver_us / 1000); num("instructions", ST->instrs); num("incomplete", ST->incomplete); num("unsupported", ST->unsupported); num("asserts", ST->asserts); num("assert_queries", ST->assertq); num("tabulated", ST->tabs); num("havoc", ST->havocs); num("xcheck", ST->xcheck); num("xbad", ST->xbad); num("witnesses", SH->nwit);
    s += "\"wall_ms\":" + std::to_string((u64)((now() - T0) * 1000)) + ",\"reach\":["; for (int i = 0; i < SH->nreach; i++) s += std::string(i ? "," : "") + "\"" + js(SH->reach[i]) + "\""; s += "],\"functions\":["; bool first = true; for (Func *F : funcs) if (!F->decl && SH->cov[F->id]) { s += std::string(first ? "" : ",") + "\"" + js(F->name) + "\""; first = false; }
    s += "],\"unsupported_notes\":["; for (int i = 0; i < SH->nunsup; i++) s += std::string(i ? "," : "") + "\"" + js(SH->unsup[i]) + "\""; s += "],\"incomplete_notes\":["; for (int i = 0; i < SH->ninc; i++) s += std::string(i ? "," : "") + "\"" + js(SH->inc[i]) + "\""; s += "]}";
    FILE *f = fopen((O.out + "/result.json").c_str(), "w"); if (f) { fputs(s.c_str(), f); fclose(f); } puts(s.c_str());
    return 0;
}
