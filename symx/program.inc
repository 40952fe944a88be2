// Translation of LLVM IR into the compact form the interpreter runs.
enum Intr { N_NONE = -1, N_SYM, N_ASSUME, N_ASSERT, N_WITNESS, N_ITE, N_CONCR, N_ALLOC, N_FREE, N_REGION, N_PICK, N_STOP, N_ISSYM, N_CALLN, N_MEMCPY, N_MEMCPYX, N_MEMSET, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO,
    N_NOPI, N_EXPECT, N_OBJSIZE, N_UMIN, N_UMAX, N_SMIN, N_SMAX, N_ABS, N_BSWAP, N_CTPOP, N_CTLZ, N_CTTZ, N_FSHL, N_FSHR, N_ABORT, N_USUBSAT, N_UADDSAT, N_FABS, N_FMATH1, N_FMATH2, N_PRINT, N_BLOCKBASE, N_OBJKIND, N_BRANCH };
static std::map<std::string, int> g_intr = {
    { "vpi_sym", N_SYM }, { "vpi_assume", N_ASSUME }, { "vpi_assert", N_ASSERT }, { "vpi_witness", N_WITNESS }, { "vpi_ite", N_ITE }, { "vpi_concretize", N_CONCR }, { "vpi_alloc", N_ALLOC },
    { "vpi_free", N_FREE }, { "vpi_region_ok", N_REGION }, { "vpi_pick", N_PICK }, { "vpi_stop", N_STOP }, { "vpi_is_sym", N_ISSYM }, { "vpi_objsize", N_OBJSIZE }, { "vpi_print", N_PRINT }, { "vpi_block_base", N_BLOCKBASE }, { "vpi_objkind", N_OBJKIND }, { "vpi_branch", N_BRANCH },
    { "abort", N_ABORT }, { "__assert_fail", N_ABORT }, { "exit", N_ABORT } };

static void die(const std::string& m) { fprintf(stderr, "symx: %s\n", m.c_str()); exit(3); }

static int scalarW(llvm::Type* t)
{
    if (t->isIntegerTy()) return (int)t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0;
}
struct Leaf { int w; uint64_t off; };
static bool flatten(llvm::Type* t, uint64_t off, std::vector<Leaf>& out)
{
    if (t->isVoidTy()) return true;
    if (int w = scalarW(t)) { if (w > 64) return false; out.push_back({ w, off }); return true; }
    if (auto* st = dyn_cast<llvm::StructType>(t)) { auto* sl = g_dl->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) if (!flatten(st->getElementType(i), off + sl->getElementOffset(i), out)) return false; return true; }
    if (auto* at = dyn_cast<llvm::ArrayType>(t)) { uint64_t es = g_dl->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) if (!flatten(at->getElementType(), off + i * es, out)) return false; return true; }
    return false;
}
static int flatCount(llvm::Type* t) { std::vector<Leaf> l; if (!flatten(t, 0, l)) return -1; return (int)l.size(); }

static uint64_t constVal(const llvm::Constant* c);
static uint64_t constGep(const llvm::GEPOperator* g)
{
    llvm::APInt off(64, 0); if (!g->accumulateConstantOffset(*g_dl, off)) die("constant gep");
    return constVal(cast<llvm::Constant>(g->getPointerOperand())) + off.getZExtValue();
}
static uint64_t constVal(const llvm::Constant* c)
{
    if (auto* ci = dyn_cast<llvm::ConstantInt>(c)) { if (ci->getBitWidth() > 64) return ci->getValue().trunc(64).getZExtValue(); return ci->getZExtValue(); }
    if (isa<llvm::ConstantPointerNull>(c) || isa<llvm::UndefValue>(c) || isa<llvm::ConstantAggregateZero>(c)) return 0;
    if (auto* cf = dyn_cast<llvm::ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if (auto* f = dyn_cast<llvm::Function>(c)) { auto it = g_funcs.find(f); if (it != g_funcs.end()) return it->second->addr; return 0x900; }
    if (auto* gv = dyn_cast<llvm::GlobalVariable>(c)) { auto it = g_gaddr.find(gv); if (it == g_gaddr.end()) die("unknown global"); return it->second; }
    if (auto* ga = dyn_cast<llvm::GlobalAlias>(c)) return constVal(ga->getAliasee());
    if (auto* ce = dyn_cast<llvm::ConstantExpr>(c)) {
        int w = scalarW(ce->getType()); uint64_t m = maskw(w);
        switch (ce->getOpcode()) {
        case llvm::Instruction::GetElementPtr: return constGep(cast<llvm::GEPOperator>(ce));
        case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: case llvm::Instruction::BitCast: case llvm::Instruction::Trunc: return constVal(ce->getOperand(0)) & m;
        case llvm::Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & m;
        case llvm::Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & m;
        default: die(std::string("constant expression ") + ce->getOpcodeName());
        }
    }
    die("constant"); return 0;
}
static void initBytes(const llvm::Constant* c, uint8_t* p)
{
    llvm::Type* t = c->getType();
    if (isa<llvm::UndefValue>(c) || isa<llvm::ConstantAggregateZero>(c)) return;
    if (auto* cd = dyn_cast<llvm::ConstantDataSequential>(c)) { auto s = cd->getRawDataValues(); memcpy(p, s.data(), s.size()); return; }
    if (isa<llvm::ConstantStruct>(c)) { auto* sl = g_dl->getStructLayout(cast<llvm::StructType>(t)); for (unsigned i = 0; i < c->getNumOperands(); i++) initBytes(cast<llvm::Constant>(c->getOperand(i)), p + sl->getElementOffset(i)); return; }
    if (isa<llvm::ConstantArray>(c)) { uint64_t es = g_dl->getTypeAllocSize(cast<llvm::ArrayType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) initBytes(cast<llvm::Constant>(c->getOperand(i)), p + i * es); return; }
    uint64_t v = constVal(c); memcpy(p, &v, g_dl->getTypeStoreSize(t));
}

struct Tr {
    Func* f; std::map<const llvm::Value*, int32_t> slot;
    Opnd op(const llvm::Value* v, int part = 0)
    {
        Opnd o;
        if (auto* c = dyn_cast<llvm::Constant>(v)) {
            if (scalarW(c->getType())) { o.c = constVal(c); int w = scalarW(c->getType()); o.c &= maskw(w); return o; }
            // aggregate constant
            std::vector<Leaf> l; flatten(c->getType(), 0, l); std::vector<uint8_t> buf(g_dl->getTypeAllocSize(c->getType()) + 8, 0); initBytes(c, buf.data());
            memcpy(&o.c, &buf[l[part].off], (l[part].w + 7) / 8); return o;
        }
        auto it = slot.find(v); if (it == slot.end()) die("operand without slot in " + f->name);
        o.slot = it->second + part; return o;
    }
};
static int intrinsicOf(const llvm::Function* F)
{
    std::string n = F->getName().str(); auto it = g_intr.find(n); if (it != g_intr.end()) return it->second;
    switch (F->getIntrinsicID()) {
    case llvm::Intrinsic::memcpy: case llvm::Intrinsic::memcpy_inline: return N_MEMCPYX; case llvm::Intrinsic::memmove: return N_MEMCPY;
    case llvm::Intrinsic::memset: return N_MEMSET;
    case llvm::Intrinsic::uadd_with_overflow: return N_UADDO; case llvm::Intrinsic::usub_with_overflow: return N_USUBO; case llvm::Intrinsic::umul_with_overflow: return N_UMULO;
    case llvm::Intrinsic::sadd_with_overflow: return N_SADDO; case llvm::Intrinsic::ssub_with_overflow: return N_SSUBO; case llvm::Intrinsic::smul_with_overflow: return N_SMULO;
    case llvm::Intrinsic::dbg_declare: case llvm::Intrinsic::dbg_value: case llvm::Intrinsic::dbg_label: case llvm::Intrinsic::lifetime_start: case llvm::Intrinsic::lifetime_end: case llvm::Intrinsic::stackrestore: case llvm::Intrinsic::assume:
    case llvm::Intrinsic::vastart: case llvm::Intrinsic::vaend: return N_NOPI;
    case llvm::Intrinsic::stacksave: case llvm::Intrinsic::returnaddress: case llvm::Intrinsic::frameaddress: return N_NOPI;
    case llvm::Intrinsic::expect: return N_EXPECT;
    case llvm::Intrinsic::umin: return N_UMIN; case llvm::Intrinsic::umax: return N_UMAX; case llvm::Intrinsic::smin: return N_SMIN; case llvm::Intrinsic::smax: return N_SMAX;
    case llvm::Intrinsic::abs: return N_ABS; case llvm::Intrinsic::bswap: return N_BSWAP; case llvm::Intrinsic::ctpop: return N_CTPOP; case llvm::Intrinsic::ctlz: return N_CTLZ; case llvm::Intrinsic::cttz: return N_CTTZ;
    case llvm::Intrinsic::fshl: return N_FSHL; case llvm::Intrinsic::fshr: return N_FSHR; case llvm::Intrinsic::usub_sat: return N_USUBSAT; case llvm::Intrinsic::uadd_sat: return N_UADDSAT;
    case llvm::Intrinsic::trap: case llvm::Intrinsic::ubsantrap: return N_ABORT;
    case llvm::Intrinsic::fabs: return N_FABS; case llvm::Intrinsic::trunc: case llvm::Intrinsic::floor: case llvm::Intrinsic::ceil: case llvm::Intrinsic::rint: case llvm::Intrinsic::round: return N_FMATH1;
    default: break;
    }
    static const std::set<std::string> m1 = { "trunc", "truncf", "floor", "floorf", "ceil", "ceilf", "round", "roundf", "rint", "rintf", "fabs", "fabsf", "nearbyint", "nearbyintf" };
    if (m1.count(n)) return N_FMATH1;
    if (n == "fmod" || n == "fmodf" || n == "ldexp") return N_FMATH2;
    return N_NONE;
}
static double fmath1(const std::string& n, double x)
{
    if (n.find("trunc") != n.npos) return trunc(x); if (n.find("floor") != n.npos) return floor(x); if (n.find("ceil") != n.npos) return ceil(x);
    if (n.find("fabs") != n.npos) return fabs(x); if (n.find("rint") != n.npos || n.find("nearbyint") != n.npos) return rint(x); return round(x);
}

static void translate(Func* f)
{
    const llvm::Function* F = f->F; Tr T; T.f = f; int ns = 0; f->ready = true;
    for (auto& a : F->args()) { int n = flatCount(a.getType()); if (n != 1) die("argument type in " + f->name); T.slot[&a] = ns; f->argSlots.push_back(ns); f->argW.push_back((uint8_t)scalarW(a.getType())); ns++; }
    for (auto& bb : *F) for (auto& i : bb) if (!i.getType()->isVoidTy()) { int n = flatCount(i.getType()); if (n < 0) n = 1; if (n == 0) n = 1; T.slot[&i] = ns; ns += n; }
    { std::vector<Leaf> l; if (!flatten(F->getReturnType(), 0, l)) die("return type in " + f->name); for (auto& x : l) f->retw.push_back((uint8_t)x.w); }
    std::map<const llvm::BasicBlock*, uint32_t> start; uint32_t pc = 0;
    for (auto& bb : *F) { start[&bb] = pc; for (auto& i : bb) { if (isa<llvm::PHINode>(i)) continue; pc++; } }
    auto edge = [&](const llvm::BasicBlock* from, const llvm::BasicBlock* to) {
        Edge e; e.target = start[to];
        for (auto& i : *to) { auto* p = dyn_cast<llvm::PHINode>(&i); if (!p) break; int n = flatCount(p->getType()); const llvm::Value* v = p->getIncomingValueForBlock(from); for (int k = 0; k < n; k++) e.copies.push_back({ T.slot[p] + k, T.op(v, k) }); }
        return e; };
    for (auto& bb : *F) for (auto& i : bb) {
        if (isa<llvm::PHINode>(i)) continue;
        Inst x; x.I = &i; if (!i.getType()->isVoidTy()) x.dst = T.slot[&i];
        auto unsupp = [&](const char* why) { x.op = I_UNSUP; x.note = std::string(why) + " " + i.getOpcodeName(); };
        int w = i.getType()->isVoidTy() ? 0 : scalarW(i.getType()); x.w = (uint8_t)w;
        if (auto* b = dyn_cast<llvm::BinaryOperator>(&i)) {
            x.a = T.op(b->getOperand(0)); x.b = T.op(b->getOperand(1));
            if (!w || w > 64) { unsupp("width"); goto done; }
            if (b->getType()->isFloatingPointTy()) { x.op = I_FBIN; x.pred = (uint8_t)b->getOpcode(); goto done; }
            x.op = I_BIN;
            switch (b->getOpcode()) {
            case llvm::Instruction::Add: x.bop = O_ADD; break; case llvm::Instruction::Sub: x.bop = O_SUB; break; case llvm::Instruction::Mul: x.bop = O_MUL; break;
            case llvm::Instruction::UDiv: x.bop = O_UDIV; break; case llvm::Instruction::SDiv: x.bop = O_SDIV; break; case llvm::Instruction::URem: x.bop = O_UREM; break; case llvm::Instruction::SRem: x.bop = O_SREM; break;
            case llvm::Instruction::And: x.bop = O_AND; break; case llvm::Instruction::Or: x.bop = O_OR; break; case llvm::Instruction::Xor: x.bop = O_XOR; break;
            case llvm::Instruction::Shl: x.bop = O_SHL; break; case llvm::Instruction::LShr: x.bop = O_LSHR; break; case llvm::Instruction::AShr: x.bop = O_ASHR; break;
            default: unsupp("binop"); }
            if (auto* ov = dyn_cast<llvm::OverflowingBinaryOperator>(b)) if (ov->hasNoSignedWrap() && (x.bop == O_ADD || x.bop == O_SUB || x.bop == O_MUL)) x.flags = 1;
        } else if (auto* c = dyn_cast<llvm::ICmpInst>(&i)) {
            x.op = I_ICMP; x.w2 = (uint8_t)scalarW(c->getOperand(0)->getType()); x.pred = (uint8_t)c->getPredicate(); x.a = T.op(c->getOperand(0)); x.b = T.op(c->getOperand(1)); if (!x.w2 || !w) unsupp("icmp");
        } else if (auto* c = dyn_cast<llvm::FCmpInst>(&i)) {
            x.op = I_FCMP; x.w2 = (uint8_t)scalarW(c->getOperand(0)->getType()); x.pred = (uint8_t)c->getPredicate(); x.a = T.op(c->getOperand(0)); x.b = T.op(c->getOperand(1));
        } else if (i.getOpcode() == llvm::Instruction::FNeg) { x.op = I_FNEG; x.a = T.op(i.getOperand(0));
        } else if (auto* s = dyn_cast<llvm::SelectInst>(&i)) {
            x.op = I_SELECT; x.a = T.op(s->getCondition()); int n = flatCount(s->getType()); std::vector<Leaf> l; flatten(s->getType(), 0, l);
            if (n < 1 || scalarW(s->getCondition()->getType()) != 1) { unsupp("select"); goto done; }
            for (int k = 0; k < n; k++) { x.parts.push_back({ T.op(s->getTrueValue(), k), (uint8_t)l[k].w }); x.parts.push_back({ T.op(s->getFalseValue(), k), (uint8_t)l[k].w }); }
        } else if (auto* c = dyn_cast<llvm::CastInst>(&i)) {
            x.a = T.op(c->getOperand(0)); x.w2 = (uint8_t)scalarW(c->getOperand(0)->getType());
            if (!w || !x.w2) { unsupp("cast"); goto done; }
            switch (c->getOpcode()) {
            case llvm::Instruction::Trunc: case llvm::Instruction::ZExt: case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: case llvm::Instruction::BitCast: x.op = I_CAST; x.pred = 0; break;
            case llvm::Instruction::SExt: x.op = I_CAST; x.pred = 1; break;
            case llvm::Instruction::FPToSI: case llvm::Instruction::FPToUI: case llvm::Instruction::SIToFP: case llvm::Instruction::UIToFP: case llvm::Instruction::FPExt: case llvm::Instruction::FPTrunc: x.op = I_FCAST; x.pred = (uint8_t)c->getOpcode(); break;
            default: unsupp("cast"); }
        } else if (auto* l = dyn_cast<llvm::LoadInst>(&i)) {
            x.op = I_LOAD; x.a = T.op(l->getPointerOperand()); std::vector<Leaf> lv; if (!flatten(l->getType(), 0, lv)) { unsupp("type"); goto done; }
            for (auto& y : lv) { x.parts.push_back({ Opnd(), (uint8_t)y.w }); x.offs.push_back((uint32_t)y.off); }
        } else if (auto* s = dyn_cast<llvm::StoreInst>(&i)) {
            x.op = I_STORE; x.a = T.op(s->getPointerOperand()); std::vector<Leaf> lv; if (!flatten(s->getValueOperand()->getType(), 0, lv)) { unsupp("type"); goto done; }
            int k = 0; for (auto& y : lv) { x.parts.push_back({ T.op(s->getValueOperand(), k++), (uint8_t)y.w }); x.offs.push_back((uint32_t)y.off); }
        } else if (auto* g = dyn_cast<llvm::GetElementPtrInst>(&i)) {
            x.op = I_GEP; x.a = T.op(g->getPointerOperand()); uint64_t cofs = 0;
            for (auto it = llvm::gep_type_begin(g), e = llvm::gep_type_end(g); it != e; ++it) {
                const llvm::Value* idx = it.getOperand();
                if (auto* st = it.getStructTypeOrNull()) { cofs += g_dl->getStructLayout(st)->getElementOffset((unsigned)cast<llvm::ConstantInt>(idx)->getZExtValue()); continue; }
                uint64_t sz = g_dl->getTypeAllocSize(it.getIndexedType());
                if (auto* ci = dyn_cast<llvm::ConstantInt>(idx)) { cofs += (uint64_t)(ci->getSExtValue() * (int64_t)sz); continue; }
                x.terms.push_back({ T.op(idx), (uint8_t)scalarW(idx->getType()), sz });
            }
            x.cofs = cofs;
        } else if (auto* a = dyn_cast<llvm::AllocaInst>(&i)) {
            x.op = I_ALLOCA; x.a = T.op(a->getArraySize()); x.w2 = (uint8_t)scalarW(a->getArraySize()->getType()); x.cofs = g_dl->getTypeAllocSize(a->getAllocatedType()); x.cases.push_back(std::max<uint64_t>(a->getAlign().value(), 16));
        } else if (auto* b = dyn_cast<llvm::BranchInst>(&i)) {
            if (b->isUnconditional()) { x.op = I_BR; x.edges.push_back(edge(&bb, b->getSuccessor(0))); }
            else { x.op = I_CONDBR; x.a = T.op(b->getCondition()); x.edges.push_back(edge(&bb, b->getSuccessor(0))); x.edges.push_back(edge(&bb, b->getSuccessor(1))); }
        } else if (auto* s = dyn_cast<llvm::SwitchInst>(&i)) {
            x.op = I_SWITCH; x.a = T.op(s->getCondition()); x.w2 = (uint8_t)scalarW(s->getCondition()->getType()); x.edges.push_back(edge(&bb, s->getDefaultDest()));
            for (auto& cs : s->cases()) { x.cases.push_back(cs.getCaseValue()->getZExtValue()); x.edges.push_back(edge(&bb, cs.getCaseSuccessor())); }
        } else if (auto* r = dyn_cast<llvm::ReturnInst>(&i)) {
            x.op = I_RET; if (r->getReturnValue()) for (size_t k = 0; k < f->retw.size(); k++) x.parts.push_back({ T.op(r->getReturnValue(), (int)k), f->retw[k] });
        } else if (isa<llvm::UnreachableInst>(&i)) x.op = I_UNREACHABLE;
        else if (auto* ev = dyn_cast<llvm::ExtractValueInst>(&i)) {
            // slot offset of the first leaf addressed by the indices
            llvm::Type* t = ev->getAggregateOperand()->getType(); int pos = 0;
            for (unsigned ix : ev->indices()) { if (auto* st = dyn_cast<llvm::StructType>(t)) { for (unsigned k = 0; k < ix; k++) pos += flatCount(st->getElementType(k)); t = st->getElementType(ix); } else { t = cast<llvm::ArrayType>(t)->getElementType(); pos += (int)ix * flatCount(t); } }
            x.op = I_COPY; int n = flatCount(t); for (int k = 0; k < n; k++) x.parts.push_back({ T.op(ev->getAggregateOperand(), pos + k), 0 });
        } else if (auto* iv = dyn_cast<llvm::InsertValueInst>(&i)) {
            llvm::Type* t = iv->getType(); int pos = 0, tot = flatCount(t);
            for (unsigned ix : iv->indices()) { if (auto* st = dyn_cast<llvm::StructType>(t)) { for (unsigned k = 0; k < ix; k++) pos += flatCount(st->getElementType(k)); t = st->getElementType(ix); } else { t = cast<llvm::ArrayType>(t)->getElementType(); pos += (int)ix * flatCount(t); } }
            int n = flatCount(t); x.op = I_COPY;
            for (int k = 0; k < tot; k++) x.parts.push_back({ k >= pos && k < pos + n ? T.op(iv->getInsertedValueOperand(), k - pos) : T.op(iv->getAggregateOperand(), k), 0 });
        } else if (isa<llvm::FreezeInst>(&i)) { x.op = I_COPY; x.parts.push_back({ T.op(i.getOperand(0)), 0 });
        } else if (auto* c = dyn_cast<llvm::CallInst>(&i)) {
            const llvm::Value* cv = c->getCalledOperand()->stripPointerCasts(); x.op = I_CALL;
            if (c->isInlineAsm()) { unsupp("asm"); goto done; }
            auto* cf = dyn_cast<llvm::Function>(cv);
            int in = cf ? intrinsicOf(cf) : N_NONE;
            if (in == N_NOPI) { x.op = I_NOP; goto done; }
            for (auto& a : c->args()) { if (a->getType()->isMetadataTy()) continue; x.args.push_back(T.op(a)); x.argw.push_back((uint8_t)scalarW(a->getType())); }
            if (cf && in != N_NONE && cf->isDeclaration()) { x.intr = in; x.note = cf->getName().str(); }
            else if (cf) { auto it = g_funcs.find(cf); if (it == g_funcs.end()) { x.op = I_UNSUP; x.note = "call to external " + cf->getName().str(); } else x.callee = it->second; }
            else { x.op = I_ICALL; x.a = T.op(c->getCalledOperand()); }
        } else unsupp("instruction");
    done:
        f->code.push_back(std::move(x));
    }
    f->nslots = ns;
}
static void loadProgram(const char* file)
{
    llvm::SMDiagnostic err; g_mod = llvm::parseIRFile(file, err, g_ctx); if (!g_mod) die(std::string("cannot read ") + file);
    g_dl = &g_mod->getDataLayout(); uint64_t fa = 0x100000;
    for (auto& F : *g_mod) { if (F.isDeclaration()) continue; Func* f = new Func; f->F = &F; f->name = F.getName().str(); f->addr = fa; fa += 16; g_funcs[&F] = f; g_faddr[f->addr] = f;
        if (auto* sp = F.getSubprogram()) { std::string fn = sp->getFilename().str(); std::string dir = sp->getDirectory().str(); if (fn.size() && fn[0] != '/') fn = dir + "/" + fn; const char* rr = getenv("SYMX_REPO"); f->isRepo = fn.find(rr ? rr : "/repo/") == 0; } }
    uint64_t ga = 0x1000000;
    std::vector<const llvm::GlobalVariable*> gs;
    for (auto& g : g_mod->globals()) { gs.push_back(&g); uint64_t sz = g_dl->getTypeAllocSize(g.getValueType()); g_gaddr[&g] = ga; ga += sz + 64; ga = (ga + 63) & ~63ULL; }
    for (auto* g : gs) {
        uint64_t sz = g_dl->getTypeAllocSize(g->getValueType()); MemObj* o = objNew(g_gaddr[g], sz, V(sz), 0, false);
        if (g->hasInitializer()) { std::vector<uint8_t> b(sz + 16, 0); initBytes(g->getInitializer(), b.data()); memcpy(o->c.data(), b.data(), sz); }
        if (g->isConstant()) { o->ro = true; g_cobjs.push_back(o); } else S->objs.push_back(o);
    }
}
