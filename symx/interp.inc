// Interpreter.
static inline V rd(const Opnd& o) { return o.slot < 0 ? V(o.c) : S->regs[S->frames.back().regBase + o.slot]; }
static inline void wr(int32_t slot, V v) { S->regs[S->frames.back().regBase + slot] = v; }
static std::string cstrAt(uint64_t a) { std::string s; Ref r; for (int i = 0; i < 200; i++) { if (!findObj(a + i, r)) break; uint64_t o = a + i - r.o->base; if (o >= r.o->cap || r.o->st[o] != ST_C || !r.o->c[o]) break; s += (char)r.o->c[o]; } return s; }
static void takeEdge(const Edge& e)
{
    Frame& fr = S->frames.back();
    if (e.copies.size() == 1) { V v = rd(e.copies[0].second); S->regs[fr.regBase + e.copies[0].first] = v; }
    else if (!e.copies.empty()) { V tmp[64]; size_t n = e.copies.size(); std::vector<V> big; V* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; i++) t[i] = rd(e.copies[i].second); for (size_t i = 0; i < n; i++) S->regs[fr.regBase + e.copies[i].first] = t[i]; }
    fr.pc = e.target;
}
static double asF(uint64_t v, int w) { if (w == 32) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromF(double d, int w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
static V boolOf(V v, int w) { if (w == 1) return v; return mkNot(mkEq(v, V(0), w)); }

static void doCopy(V dst, V src, V len)
{
    len = red(len);
    if (len.e) len = V(concretize(len, 64));
    if (len.c == 0) return;
    if (len.c > (1u << 24)) { // far too large for any object: report as an access
        Res R = resolve(src, 1, false); (void)R; recordErr("memory", "copy of a huge block", S->model); kill(); }
    uint64_t n = len.c;
    // bounds of both regions first (no side effects before possible re-execution)
    Res rs = resolve(src, (int)std::min<uint64_t>(n, 1 << 24), false), rdst = resolve(dst, (int)n, true);
    auto concOff = [&](Res& R) { return !R.tree && !R.off.e; };
    if (!concOff(rs) || !concOff(rdst)) {
        if (n <= 64 && !rs.tree && !rdst.tree) { // symbolic offsets: byte-wise through muxes
            std::vector<V> b(n); for (uint64_t i = 0; i < n; i++) { V o = mkBin(O_ADD, rs.off, V(i), 64); b[i] = o.e ? muxLoad(rs.r, o, 1) : ldN(rs.r, o.c, 1); }
            for (uint64_t i = 0; i < n; i++) storeV(mkBin(O_ADD, dst, V(i), 64), b[i], 1);
            return; }
        if (rs.tree || !concOff(rs)) concretize(src, 64);
        if (rdst.tree || !concOff(rdst)) concretize(dst, 64);
        rs = resolve(V(concretize(src, 64)), (int)n, false); rdst = resolve(V(concretize(dst, 64)), (int)n, true);
    }
    MemObj* d = writable(rdst.r); Ref sr; if (!findObj(rs.r.o->base, sr)) kill(); MemObj* s = sr.o; uint64_t so = rs.off.c, dof = rdst.off.c;
    memmove(&d->c[dof], &s->c[so], n); memmove(&d->st[dof], &s->st[so], n);
    if (!s->s.empty()) { if (d->s.empty()) d->s.resize(d->cap); memmove((void*)&d->s[dof], (void*)&s->s[so], n * sizeof(SymB)); }
}
static bool mayOvfAdd(V a, V b, int w) { uint64_t t = 3ULL << (w - 2); uint64_t ka = a.e ? a.e->kz : ~a.c, kb = b.e ? b.e->kz : ~b.c; return !((ka & t) == t && (kb & t) == t); }

static void enter(Func* c, const std::vector<V>& args, int32_t dst, const std::vector<uint8_t>* aw = nullptr)
{
    if (!c->ready) translate(c);
    if (S->frames.size() > 400) { recordErr("recursion", "call depth exceeds 400", S->model); kill(); }
    c->calls++;
    Frame nf; nf.f = c; nf.pc = 0; nf.retDst = dst; nf.regBase = (uint32_t)S->regs.size();
    S->regs.resize(S->regs.size() + c->nslots);
    for (size_t k = 0; k < c->argSlots.size() && k < args.size(); k++) { V v = args[k]; int pw = c->argW[k]; if (aw && (*aw)[k] && (*aw)[k] != pw) v = (*aw)[k] < pw ? mkZext(v, (*aw)[k], pw) : mkExtract(v, (*aw)[k], 0, pw); S->regs[nf.regBase + c->argSlots[k]] = v; }
    S->frames.push_back(std::move(nf));
}
static bool g_finished;
static void step()
{
    Frame& fr = S->frames.back(); Inst& x = fr.f->code[fr.pc];
    switch (x.op) {
    case I_NOP: if (x.dst >= 0) wr(x.dst, V(0)); fr.pc++; return;
    case I_BIN: {
        V a = rd(x.a), b = rd(x.b); int w = x.w;
        if (x.bop == O_UDIV || x.bop == O_UREM || x.bop == O_SDIV || x.bop == O_SREM) {
            if (b.e || !(b.c & maskw(w))) check(mkEq(b, V(0), w), "arith", "division by zero");
            if (x.bop == O_SDIV || x.bop == O_SREM) { if (b.e || (b.c & maskw(w)) == maskw(w)) check(mkAnd(mkEq(b, V(maskw(w)), w), mkEq(a, V(1ULL << (w - 1)), w)), "arith", "signed division overflow"); }
        } else if (x.bop == O_SHL || x.bop == O_LSHR || x.bop == O_ASHR) {
            if (b.e || (b.c & maskw(w)) >= (uint64_t)w) check(mkNot(mkUlt(b, V(w), w)), "arith", "shift amount out of range");
        }
        V r = mkBin(x.bop, a, b, w);
        if (x.flags & 1) {
            if (!a.e && !b.e) { int64_t p = sx(a.c & maskw(w), w), q = sx(b.c & maskw(w), w); __int128 t = x.bop == O_ADD ? (__int128)p + q : x.bop == O_SUB ? (__int128)p - q : (__int128)p * q;
                if (t != (__int128)sx((uint64_t)t & maskw(w), w)) { recordErr("arith", "signed overflow", S->model); kill(); } }
            else if (x.bop == O_MUL) check(mkOvf(O_SMULO, a, b, w), "arith", "signed overflow");
            else if (x.bop == O_ADD) { if (mayOvfAdd(a, b, w)) { V t = mkBin(O_AND, mkBin(O_XOR, a, r, w), mkBin(O_XOR, b, r, w), w); check(mkSlt(t, V(0), w), "arith", "signed overflow"); } }
            else { uint64_t sb = 1ULL << (w - 1); bool na = (a.e ? a.e->kz : ~a.c) & sb, nb = (b.e ? b.e->kz : ~b.c) & sb;
                if (!(na && nb)) { V t = mkBin(O_AND, mkBin(O_XOR, a, b, w), mkBin(O_XOR, a, r, w), w); check(mkSlt(t, V(0), w), "arith", "signed overflow"); } }
        }
        wr(x.dst, r); break; }
    case I_ICMP: {
        V a = rd(x.a), b = rd(x.b), r; int w = x.w2;
        switch ((llvm::CmpInst::Predicate)x.pred) {
        case llvm::CmpInst::ICMP_EQ: r = mkEq(a, b, w); break; case llvm::CmpInst::ICMP_NE: r = mkNot(mkEq(a, b, w)); break;
        case llvm::CmpInst::ICMP_ULT: r = mkUlt(a, b, w); break; case llvm::CmpInst::ICMP_UGT: r = mkUlt(b, a, w); break;
        case llvm::CmpInst::ICMP_ULE: r = mkNot(mkUlt(b, a, w)); break; case llvm::CmpInst::ICMP_UGE: r = mkNot(mkUlt(a, b, w)); break;
        case llvm::CmpInst::ICMP_SLT: r = mkSlt(a, b, w); break; case llvm::CmpInst::ICMP_SGT: r = mkSlt(b, a, w); break;
        case llvm::CmpInst::ICMP_SLE: r = mkNot(mkSlt(b, a, w)); break; default: r = mkNot(mkSlt(a, b, w)); break;
        }
        wr(x.dst, r); break; }
    case I_SELECT: { V c = red(rd(x.a)); for (size_t k = 0; k + 1 < x.parts.size(); k += 2) { V t = rd(x.parts[k].first), e = rd(x.parts[k + 1].first); wr(x.dst + (int)k / 2, mkIte(c, t, e, x.parts[k].second)); } break; }
    case I_CAST: { V a = rd(x.a); if (x.w == x.w2) wr(x.dst, a); else if (x.w < x.w2) wr(x.dst, mkExtract(a, x.w2, 0, x.w)); else wr(x.dst, x.pred ? mkSext(a, x.w2, x.w) : mkZext(a, x.w2, x.w)); break; }
    case I_LOAD: { V p = rd(x.a); for (size_t k = 0; k < x.parts.size(); k++) { int w = x.parts[k].second, n = (w + 7) / 8; V v = loadV(mkBin(O_ADD, p, V(x.offs[k]), 64), n); if (w < n * 8) v = mkExtract(v, n * 8, 0, w); wr(x.dst + (int)k, v); } break; }
    case I_STORE: { V p = rd(x.a); for (size_t k = 0; k < x.parts.size(); k++) { int w = x.parts[k].second, n = (w + 7) / 8; V v = rd(x.parts[k].first); if (!v.e) v.c &= maskw(w); if (w < n * 8) v = mkZext(v, w, n * 8); storeV(mkBin(O_ADD, p, V(x.offs[k]), 64), v, n); } break; }
    case I_GEP: { V p = rd(x.a); V o(x.cofs); for (auto& t : x.terms) { V i = rd(t.o); i = mkSext(i, t.w, 64); o = mkBin(O_ADD, o, mkBin(O_MUL, i, V(t.scale), 64), 64); } wr(x.dst, mkBin(O_ADD, p, o, 64)); break; }
    case I_ALLOCA: { V n = mkZext(rd(x.a), x.w2, 64); V sz = red(mkBin(O_MUL, n, V(x.cofs), 64));
        uint64_t cap = 4096; if (sz.e) { ModelV m; V big = mkUlt(V(cap), sz, 64); if (evalUnder(big) || feas(big, &m) != 0) unsup("unbounded alloca"); } else if (sz.c > (8u << 20)) { recordErr("memory", "huge stack allocation", S->model); kill(); }
        uint64_t b = allocObj(sz, 1, x.cases[0], true, cap); fr.allocas.push_back(b); wr(x.dst, V(b)); break; }
    case I_BR: takeEdge(x.edges[0]); return;
    case I_CONDBR: { bool s = branch(rd(x.a)); takeEdge(x.edges[s ? 0 : 1]); return; }
    case I_SWITCH: {
        V v = red(rd(x.a)); uint64_t c;
        if (!v.e) c = v.c & maskw(x.w2);
        else {
            evalNewEpoch(); uint64_t mv = evalExpr(v.e, S->model); bool isCase = false; for (uint64_t k : x.cases) if (k == mv) isCase = true;
            V cond(1);
            // several case values may share a target: group them so that the split is by target
            if (isCase) { uint32_t tgt = 0; for (size_t k = 0; k < x.cases.size(); k++) if (x.cases[k] == mv) tgt = x.edges[k + 1].target;
                (void)tgt; cond = mkEq(v, V(mv), x.w2); }
            else for (uint64_t k : x.cases) cond = mkAnd(cond, mkNot(mkEq(v, V(k), x.w2)));
            ModelV m; V oc = mkNot(cond); int r = feas(oc, &m);
            if (r == 1) { State* n = S->clone(); n->model = m; pushC(n, oc.e); g_work.push_back(n); g_st.forks++; } else if (r < 0) g_st.limit++;
            addC(cond); c = mv;
        }
        size_t k; for (k = 0; k < x.cases.size(); k++) if (x.cases[k] == c) break;
        takeEdge(x.edges[k < x.cases.size() ? k + 1 : 0]); return; }
    case I_RET: {
        V vals[16]; size_t n = std::min<size_t>(x.parts.size(), 16); for (size_t k = 0; k < n; k++) vals[k] = rd(x.parts[k].first);
        for (uint64_t b : fr.allocas) removeObj(b);
        int32_t dst = fr.retDst; S->regs.resize(fr.regBase); S->frames.pop_back();
        if (S->frames.empty()) { g_finished = true; return; }
        if (dst >= 0) for (size_t k = 0; k < n; k++) wr(dst + (int)k, vals[k]);
        S->frames.back().pc++; return; }
    case I_COPY: { V t[16]; size_t n = std::min<size_t>(16, x.parts.size()); for (size_t k = 0; k < n; k++) t[k] = rd(x.parts[k].first); for (size_t k = 0; k < n; k++) wr(x.dst + (int)k, t[k]); break; }
    case I_FBIN: { V a = rd(x.a), b = rd(x.b); if (a.e || b.e) unsup("symbolic floating point"); double p = asF(a.c, x.w), q = asF(b.c, x.w), r = 0;
        if (x.w == 32) { float P = (float)p, Q = (float)q, R; switch (x.pred) { case llvm::Instruction::FAdd: R = P + Q; break; case llvm::Instruction::FSub: R = P - Q; break; case llvm::Instruction::FMul: R = P * Q; break; case llvm::Instruction::FDiv: R = P / Q; break; default: R = fmodf(P, Q); } r = R; }
        else switch (x.pred) { case llvm::Instruction::FAdd: r = p + q; break; case llvm::Instruction::FSub: r = p - q; break; case llvm::Instruction::FMul: r = p * q; break; case llvm::Instruction::FDiv: r = p / q; break; default: r = fmod(p, q); }
        wr(x.dst, V(fromF(r, x.w))); break; }
    case I_FNEG: { V a = rd(x.a); wr(x.dst, mkBin(O_XOR, a, V(1ULL << (x.w - 1)), x.w)); break; }
    case I_FCMP: { V a = rd(x.a), b = rd(x.b); if (a.e || b.e) unsup("symbolic floating point"); double p = asF(a.c, x.w2), q = asF(b.c, x.w2); bool un = isnan(p) || isnan(q); bool r = false;
        switch ((llvm::CmpInst::Predicate)x.pred) { case llvm::CmpInst::FCMP_OEQ: r = !un && p == q; break; case llvm::CmpInst::FCMP_OGT: r = p > q; break; case llvm::CmpInst::FCMP_OGE: r = p >= q; break; case llvm::CmpInst::FCMP_OLT: r = p < q; break; case llvm::CmpInst::FCMP_OLE: r = p <= q; break;
            case llvm::CmpInst::FCMP_ONE: r = !un && p != q; break; case llvm::CmpInst::FCMP_ORD: r = !un; break; case llvm::CmpInst::FCMP_UNO: r = un; break; case llvm::CmpInst::FCMP_UEQ: r = un || p == q; break; case llvm::CmpInst::FCMP_UGT: r = un || p > q; break; case llvm::CmpInst::FCMP_UGE: r = un || p >= q; break;
            case llvm::CmpInst::FCMP_ULT: r = un || p < q; break; case llvm::CmpInst::FCMP_ULE: r = un || p <= q; break; case llvm::CmpInst::FCMP_UNE: r = un || p != q; break; case llvm::CmpInst::FCMP_TRUE: r = true; break; default: break; }
        wr(x.dst, V(r)); break; }
    case I_FCAST: { V a = rd(x.a); if (a.e) unsup("symbolic floating point");
        uint64_t r = 0; switch (x.pred) {
        case llvm::Instruction::FPToSI: { double d = asF(a.c, x.w2); double lim = ldexp(1.0, x.w - 1); if (!(d > -lim - 1 && d < lim) || isnan(d)) { recordErr("arith", "float to integer conversion out of range", S->model); kill(); } r = (uint64_t)(int64_t)d & maskw(x.w); break; }
        case llvm::Instruction::FPToUI: { double d = asF(a.c, x.w2); double lim = ldexp(1.0, x.w); if (!(d > -1 && d < lim) || isnan(d)) { recordErr("arith", "float to integer conversion out of range", S->model); kill(); } r = (uint64_t)d & maskw(x.w); break; }
        case llvm::Instruction::SIToFP: r = x.w == 32 ? ([&] { float f = (float)sx(a.c & maskw(x.w2), x.w2); uint32_t u; memcpy(&u, &f, 4); return (uint64_t)u; })() : fromF((double)sx(a.c & maskw(x.w2), x.w2), 64); break;
        case llvm::Instruction::UIToFP: r = x.w == 32 ? ([&] { float f = (float)(a.c & maskw(x.w2)); uint32_t u; memcpy(&u, &f, 4); return (uint64_t)u; })() : fromF((double)(a.c & maskw(x.w2)), 64); break;
        default: r = fromF(asF(a.c, x.w2), x.w); break; }
        wr(x.dst, V(r)); break; }
    case I_UNREACHABLE: recordErr("unreachable", "reached unreachable code", S->model); kill();
    case I_UNSUP: unsup(x.note); break;
    case I_ICALL: {
        uint64_t fa = concretize(rd(x.a), 64); auto it = g_faddr.find(fa); if (it == g_faddr.end()) { recordErr("memory", "call through an invalid function pointer", S->model); kill(); }
        std::vector<V> av; for (auto& o : x.args) av.push_back(rd(o)); enter(it->second, av, x.dst, &x.argw); return; }
    case I_CALL: {
        if (x.callee) { std::vector<V> av; av.reserve(x.args.size()); for (auto& o : x.args) av.push_back(rd(o)); enter(x.callee, av, x.dst, &x.argw); return; }
        V a0 = x.args.size() > 0 ? rd(x.args[0]) : V(0), a1 = x.args.size() > 1 ? rd(x.args[1]) : V(0), a2 = x.args.size() > 2 ? rd(x.args[2]) : V(0);
        int w = x.w;
        switch (x.intr) {
        case N_SYM: { int bits = (int)a1.c; V v = freshVar(bits); std::string nm = cstrAt(a0.c); auto it = g_nameIdx.find(nm); uint32_t ix; if (it == g_nameIdx.end()) { ix = (uint32_t)g_names.size(); g_names.push_back(nm); g_nameIdx[nm] = ix; } else ix = it->second;
            S->log.push_back({ ix, (uint8_t)bits, v }); wr(x.dst, mkZext(v, bits, 64)); break; }
        case N_ASSUME: assume(boolOf(a0, x.argw[0])); break;
        case N_ASSERT: g_st.asserts++; check(mkNot(boolOf(a0, x.argw[0])), "assert", cstrAt(a1.c)); break;
        case N_WITNESS: g_wit[cstrAt(a0.c)]++; break;
        case N_ITE: wr(x.dst, mkIte(red(boolOf(a0, x.argw[0])), a1, a2, w)); break;
        case N_CONCR: wr(x.dst, V(concretize(a0, x.argw[0]))); break;
        case N_BRANCH: wr(x.dst, V(branch(boolOf(a0, x.argw[0])) ? 1 : 0)); break;
        case N_ALLOC: { V sz = red(a0); uint64_t cap = 0; if (sz.e) { cap = 4096; ModelV m; V big = mkUlt(V(cap), sz, 64); if (evalUnder(big) || feas(big, &m) != 0) unsup("unbounded symbolic allocation");
                uint64_t caps[] = { 32, 64, 128, 256, 512, 1024, 2048 }; for (uint64_t c : caps) { V b2 = mkUlt(V(c), sz, 64); if (!evalUnder(b2) && feas(b2, &m) == 0) { cap = c; break; } } }
            else if (sz.c > (256u << 20)) unsup("huge allocation");
            wr(x.dst, V(allocObj(sz, 2, 16, !(a1.c & 1), cap))); break; }
        case N_FREE: { uint64_t p = concretize(a0, 64); if (p == 0) break; Ref r; if (!findObj(p, r) || r.o->base != p || r.o->kind != 2) { recordErr("memory", "invalid or double free", S->model); kill(); } removeObj(p); break; }
        case N_REGION: { V p = red(a0); if (p.e) { // constant-leaf trees: every leaf
                uint64_t q = concretize(p, 64); p = V(q); }
            Ref r; V ok(0); V nn = a1; if (!nn.e && nn.c == 0) ok = V(1); else if (p.c && findObj(p.c, r)) { uint64_t off = p.c - r.o->base; if (!r.o->size.e) ok = off <= r.o->size.c ? mkNot(mkUlt(V(r.o->size.c - off), nn, 64)) : V(0); else ok = mkAnd(mkNot(mkUlt(r.o->size, V(off), 64)), mkNot(mkUlt(mkBin(O_SUB, r.o->size, V(off), 64), nn, 64))); }
            wr(x.dst, mkZext(ok, 1, w)); break; }
        case N_OBJSIZE: { uint64_t q = concretize(a0, 64); Ref r; if (q && findObj(q, r)) wr(x.dst, r.o->size); else wr(x.dst, V(0)); break; }
        case N_OBJKIND: { uint64_t q = concretize(a0, 64); Ref r; if (q && findObj(q, r)) wr(x.dst, V((uint64_t)r.o->kind)); else wr(x.dst, V(0)); break; }
        case N_BLOCKBASE: { uint64_t q = concretize(a0, 64); Ref r; if (q && findObj(q, r)) wr(x.dst, V(r.o->base)); else wr(x.dst, V(0)); break; }
        case N_PICK: { // the unique feasible non-null target, without forking on null; forks when there are several
            V p = red(a0); if (!p.e) { wr(x.dst, p); break; }
            std::vector<uint64_t> lv; bool tree = p.e->op == O_ITE && p.e->leafc;
            if (tree) { std::unordered_set<Expr*> seen; leavesOf(p.e, lv, seen); std::sort(lv.begin(), lv.end()); lv.erase(std::unique(lv.begin(), lv.end()), lv.end()); }
            else { wr(x.dst, V(concretize(p, 64))); break; }
            std::vector<uint64_t> ok; for (uint64_t l : lv) { if (!l) continue; V c = red(mkEq(p, V(l), 64)); if (!c.e) { if (c.c & 1) ok.push_back(l); continue; } ModelV m; if (evalUnder(c) || feas(c, &m) == 1) ok.push_back(l); else { V nc = mkNot(c); if (nc.e) { stampV(nc.e, 1); g_rdMemo.clear(); } } }
            if (ok.empty()) { wr(x.dst, V(0)); break; }
            if (ok.size() == 1) { wr(x.dst, V(ok[0])); break; }
            // several: split on p being the first one
            V c = mkEq(p, V(ok[0]), 64); bool s = branch(c); if (s) { wr(x.dst, V(ok[0])); break; }
            return; /* re-execute under the new constraint */ }
        case N_STOP: g_finished = true; return;
        case N_ISSYM: { V p = red(a0); wr(x.dst, V(p.e ? 1 : 0)); break; }
        case N_PRINT: { if (optVerbose) { V p = red(a1); fprintf(stderr, "print %s: %s\n", cstrAt(a0.c).c_str(), p.e ? exprStr(p.e, 12).c_str() : std::to_string(p.c).c_str()); } break; }
        case N_MEMCPYX: { V n = red(a2); if (n.e) n = V(concretize(n, 64)); if (n.c > 1) { V dl = red(mkBin(O_SUB, a0, a1, 64)), dr = mkBin(O_SUB, V(0), dl, 64); check(mkAnd(mkNot(mkEq(dl, V(0), 64)), mkOr(mkUlt(dl, n, 64), mkUlt(dr, n, 64))), "memory", "memcpy() of overlapping blocks"); } doCopy(a0, a1, n); break; }
        case N_MEMCPY: doCopy(a0, a1, a2); break;
        case N_MEMSET: { V n = red(a2); if (n.e) n = V(concretize(n, 64)); if (n.c > (1u << 24)) { recordErr("memory", "memset of a huge block", S->model); kill(); } if (n.c) {
                Res R = resolve(a0, (int)n.c, true); if (R.tree || R.off.e) { uint64_t p = concretize(a0, 64); R = resolve(V(p), (int)n.c, true); }
                if (!a1.e) { MemObj* o = writable(R.r); memset(&o->c[R.off.c], (int)(a1.c & 255), n.c); memset(&o->st[R.off.c], ST_C, n.c); } else for (uint64_t k = 0; k < n.c; k++) stN(R.r, R.off.c + k, a1, 1); }
            break; }
        case N_UADDO: case N_USUBO: case N_UMULO: case N_SADDO: case N_SSUBO: case N_SMULO: {
            int ow = x.argw[0]; V r, o; uint64_t z = 0; (void)z;
            switch (x.intr) {
            case N_UADDO: r = mkBin(O_ADD, a0, a1, ow); o = mkUlt(r, a0, ow); break;
            case N_USUBO: r = mkBin(O_SUB, a0, a1, ow); o = mkUlt(a0, a1, ow); break;
            case N_UMULO: r = mkBin(O_MUL, a0, a1, ow); o = mkOvf(O_UMULO, a0, a1, ow); break;
            case N_SADDO: r = mkBin(O_ADD, a0, a1, ow); o = mkSlt(mkBin(O_AND, mkBin(O_XOR, a0, r, ow), mkBin(O_XOR, a1, r, ow), ow), V(0), ow); break;
            case N_SSUBO: r = mkBin(O_SUB, a0, a1, ow); o = mkSlt(mkBin(O_AND, mkBin(O_XOR, a0, a1, ow), mkBin(O_XOR, a0, r, ow), ow), V(0), ow); break;
            default: r = mkBin(O_MUL, a0, a1, ow); o = mkOvf(O_SMULO, a0, a1, ow); break; }
            wr(x.dst, r); wr(x.dst + 1, o); break; }
        case N_EXPECT: wr(x.dst, a0); break;
        case N_UMIN: wr(x.dst, mkIte(mkUlt(a0, a1, w), a0, a1, w)); break; case N_UMAX: wr(x.dst, mkIte(mkUlt(a0, a1, w), a1, a0, w)); break;
        case N_SMIN: wr(x.dst, mkIte(mkSlt(a0, a1, w), a0, a1, w)); break; case N_SMAX: wr(x.dst, mkIte(mkSlt(a0, a1, w), a1, a0, w)); break;
        case N_ABS: wr(x.dst, mkIte(mkSlt(a0, V(0), w), mkBin(O_SUB, V(0), a0, w), a0, w)); break;
        case N_USUBSAT: wr(x.dst, mkIte(mkUlt(a0, a1, w), V(0), mkBin(O_SUB, a0, a1, w), w)); break;
        case N_UADDSAT: { V r = mkBin(O_ADD, a0, a1, w); wr(x.dst, mkIte(mkUlt(r, a0, w), V(maskw(w)), r, w)); break; }
        case N_BSWAP: { V r = mkExtract(a0, w, 0, 8); int cw = 8; for (int k = 8; k < w; k += 8) { r = mkConcat(r, cw, mkExtract(a0, w, k, 8), 8); cw += 8; } wr(x.dst, r); break; }
        case N_CTPOP: { V r(0); for (int k = 0; k < w; k++) r = mkBin(O_ADD, r, mkZext(mkExtract(a0, w, k, 1), 1, w), w); wr(x.dst, r); break; }
        case N_CTLZ: { V r(w); for (int k = 0; k < w; k++) r = mkIte(mkExtract(a0, w, k, 1), V(w - 1 - k), r, w); wr(x.dst, r); break; }
        case N_CTTZ: { V r(w); for (int k = w - 1; k >= 0; k--) r = mkIte(mkExtract(a0, w, k, 1), V(k), r, w); wr(x.dst, r); break; }
        case N_FSHL: case N_FSHR: { if (a2.e) unsup("symbolic funnel shift"); uint64_t s = a2.c % w; V r; if (x.intr == N_FSHL) r = s ? mkBin(O_OR, mkBin(O_SHL, a0, V(s), w), mkBin(O_LSHR, a1, V(w - s), w), w) : a0; else r = s ? mkBin(O_OR, mkBin(O_SHL, a0, V(w - s), w), mkBin(O_LSHR, a1, V(s), w), w) : a1; wr(x.dst, r); break; }
        case N_FABS: wr(x.dst, mkBin(O_AND, a0, V(maskw(w - 1)), w)); break;
        case N_FMATH1: { if (a0.e) unsup("symbolic floating point"); wr(x.dst, V(fromF(fmath1(x.note, asF(a0.c, w)), w))); break; }
        case N_FMATH2: { if (a0.e || a1.e) unsup("symbolic floating point"); wr(x.dst, V(fromF(x.note == "ldexp" ? ldexp(asF(a0.c, w), (int)a1.c) : fmod(asF(a0.c, w), asF(a1.c, w)), w))); break; }
        case N_ABORT: recordErr("abort", "abort() reached", S->model); kill();
        default: unsup("intrinsic " + x.note);
        }
        break; }
    default: unsup("op");
    }
    S->frames.back().pc++;
}
// a watchdog thread notices the end of the time budget (or of the grace period after an error) and interrupts the solver
static volatile bool g_timeUp = false;
static void* watchdog(void*)
{
    double err = 0;
    for (;;) {
        struct timespec ts = { 0, 200000000 }; nanosleep(&ts, nullptr); double t = nowS();
        if (!err && (g_firstErr || (g_shErr && *g_shErr))) err = g_firstErr ? g_firstErr : t;
        if (t - g_start > optTime || (err && t - err > optErrGrace)) { g_timeUp = true; if (g_inCheck && (t - g_start > optTime + 1 || err)) Z3_interrupt(zc); }
    }
    return nullptr;
}
static void startWatchdog() { g_timeUp = false; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20); pthread_t t; if (pthread_create(&t, &a, watchdog, nullptr)) die("pthread_create"); pthread_detach(t); }
static uint64_t g_left = 0;
static const char* g_stopWhy = "";
// run states until the work list is empty; in frontier mode stop when it holds `frontier` states
static void runAll(size_t frontier)
{
    while (!g_work.empty()) {
        if (frontier && g_work.size() >= frontier) return;
        if (frontier) { S = g_work.front(); g_work.erase(g_work.begin()); } else { S = g_work.back(); g_work.pop_back(); }
        restamp(); g_finished = false; bool requeued = false; size_t before = g_work.size();
        try {
            while (!g_finished) {
                step(); S->instrs++; g_st.instrs++;
                if (S->instrs > optInstr) { recordErr("hang", "instruction limit exceeded on one path", S->model); kill(); }
                if (g_timeUp) { g_stop = true; g_stopWhy = "time"; break; }
                if (frontier && g_work.size() > before && !g_finished) { g_work.push_back(S); requeued = true; break; }
            }
            if (g_finished) g_st.paths++;
        } catch (Kill&) { }
        if (!g_stop && g_timeUp) { g_stop = true; g_stopWhy = "time"; }
        { static double lastMem = 0; double t = nowS(); if (t - lastMem > 0.5) { lastMem = t; struct rusage ru; getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss / 1024 > optMemMB) { g_stop = true; g_stopWhy = "memory"; } } }
        if (g_stop) { g_left += g_work.size() + (g_finished ? 0 : 1); return; }
        if (!requeued) { delete S; S = nullptr; }
    }
}
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void dump(FILE* f)
{
    fprintf(f, "S %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %f %llu\n", (unsigned long long)g_st.paths, (unsigned long long)g_st.killedAssume, (unsigned long long)g_st.queries, (unsigned long long)g_st.qsat, (unsigned long long)g_st.qunsat, (unsigned long long)g_st.qunk, (unsigned long long)g_st.instrs, (unsigned long long)g_st.errs, (unsigned long long)g_st.forks, (unsigned long long)g_st.unsup, (unsigned long long)g_st.limit, (unsigned long long)g_st.asserts, (unsigned long long)g_st.checks, g_st.solver, (unsigned long long)g_left);
    for (auto& w : g_wit) fprintf(f, "W %llu %s\n", (unsigned long long)w.second, w.first.c_str());
    for (auto& w : g_unsup) fprintf(f, "U %llu %s\n", (unsigned long long)w.second, w.first.c_str());
    for (auto& p : g_funcs) if (p.second->calls) fprintf(f, "F %llu %d %s\n", (unsigned long long)p.second->calls, p.second->isRepo ? 1 : 0, p.second->name.c_str());
    for (auto& e : g_errs) { fprintf(f, "E %s\nM %s\nL %s\n", e.kind.c_str(), e.msg.c_str(), e.loc.c_str()); for (auto& i : e.in) fprintf(f, "I %d %llu %s\n", i.second.first, (unsigned long long)i.second.second, i.first.c_str()); fprintf(f, "X\n"); }
    if (*g_stopWhy) fprintf(f, "T %s\n", g_stopWhy);
}
static std::set<std::string> g_stopWhys; static std::map<std::string, uint64_t> g_fcalls;
static void merge(FILE* f)
{
    char* line = nullptr; size_t cap = 0; ssize_t n; ErrRec cur;
    while ((n = getline(&line, &cap, f)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        char k = line[0]; char* p = line + 2; unsigned long long a[15]; double d;
        if (k == 'S') { if (sscanf(p, "%llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %lf %llu", a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7, a + 8, a + 9, a + 10, a + 11, a + 12, &d, a + 13) == 15) {
                g_st.paths += a[0]; g_st.killedAssume += a[1]; g_st.queries += a[2]; g_st.qsat += a[3]; g_st.qunsat += a[4]; g_st.qunk += a[5]; g_st.instrs += a[6]; g_st.errs += a[7]; g_st.forks += a[8]; g_st.unsup += a[9]; g_st.limit += a[10]; g_st.asserts += a[11]; g_st.checks += a[12]; g_st.solver += d; g_left += a[13]; } }
        else if (k == 'W') { unsigned long long c; int o; sscanf(p, "%llu %n", &c, &o); g_wit[p + o] += c; }
        else if (k == 'U') { unsigned long long c; int o; sscanf(p, "%llu %n", &c, &o); g_unsup[p + o] += c; }
        else if (k == 'F') { unsigned long long c; int r, o; sscanf(p, "%llu %d %n", &c, &r, &o); if (r) g_fcalls[p + o] += c; }
        else if (k == 'E') { cur = ErrRec(); cur.kind = p; } else if (k == 'M') cur.msg = n > 2 ? p : ""; else if (k == 'L') cur.loc = p;
        else if (k == 'I') { int w, o; unsigned long long v; sscanf(p, "%d %llu %n", &w, &v, &o); cur.in.push_back({ p + o, { w, v } }); }
        else if (k == 'X') { std::string key = cur.kind + "|" + cur.msg + "|" + cur.loc; if (++g_errKeys[key] <= 3) g_errs.push_back(cur); }
        else if (k == 'T') g_stopWhys.insert(p);
    }
    free(line);
}
static void zerr(Z3_context, Z3_error_code e) { if (g_timeUp) { g_stop = true; g_stopWhy = "time"; throw Kill(); } fprintf(stderr, "symx: z3 error %d\n", (int)e); exit(4); }

int main(int argc, char** argv)
{
    const char* file = nullptr;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "-j") optJ = atoi(argv[++i]); else if (a == "-t") optTime = atof(argv[++i]); else if (a == "-o") optOut = argv[++i]; else if (a == "-e") optEntry = argv[++i]; else if (a == "-v") optVerbose = true;
        else if (a == "-i") optInstr = strtoull(argv[++i], 0, 10); else if (a == "-r") optRlimit = (unsigned)strtoul(argv[++i], 0, 10); else if (a == "-m") optMemMB = atoi(argv[++i]); else if (a == "-s") optSimple = true; else if (a == "-f") optFrontier = atoi(argv[++i]); else if (a == "-g") optErrGrace = atoi(argv[++i]);
        else file = argv[i];
    }
    if (!file) die("usage: symx [-j N] [-t sec] [-e entry] [-o out.json] file.bc");
    struct rlimit rl = { 512u << 20, 512u << 20 }; setrlimit(RLIMIT_STACK, &rl);
    if (!getenv("SYMX_REEXEC")) { setenv("SYMX_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    g_start = nowS(); S = new State; State* init = S; loadProgram(file); zInit(); Z3_set_error_handler(zc, zerr); startWatchdog();
    Func* ef = nullptr; for (auto& p : g_funcs) if (p.second->name == optEntry) ef = p.second; if (!ef) die("no entry function");
    // constant objects are read with one shared vector; sort both
    auto byBase = [](MemObj* a, MemObj* b) { return a->base < b->base; }; std::sort(g_cobjs.begin(), g_cobjs.end(), byBase); std::sort(init->objs.begin(), init->objs.end(), byBase);
    enter(ef, {}, -1); g_work.push_back(S);
    g_shErr = (volatile int*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); volatile int* ctr = g_shErr + 64;
    bool par = optJ > 1;
    runAll(par ? (optFrontier ? optFrontier : 24 * optJ) : 0);
    if (par && !g_stop && !g_work.empty()) {
        std::vector<State*> fr; fr.swap(g_work); std::vector<std::pair<pid_t, FILE*>> ch; int nf = (int)fr.size(); int J = std::min(optJ, nf);
        fflush(stdout); fflush(stderr);
        for (int k = 0; k < J; k++) {
            FILE* tf = tmpfile(); if (!tf) die("tmpfile"); pid_t pid = fork(); if (pid < 0) die("fork");
            if (pid == 0) {
                g_st = Stats(); g_wit.clear(); g_unsup.clear(); g_errs.clear(); g_left = 0; for (auto& p : g_funcs) p.second->calls = 0;
                zInit(); Z3_set_error_handler(zc, zerr); startWatchdog();
                while (!g_stop) { int i = __sync_fetch_and_add((int*)ctr, 1); if (i >= nf) break; g_work.clear(); g_work.push_back(fr[i]); runAll(0); }
                dump(tf); fflush(tf); _exit(0);
            }
            ch.push_back({ pid, tf });
        }
        for (auto& c : ch) { int st; waitpid(c.first, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { g_stopWhys.insert(WIFSIGNALED(st) ? "worker killed by signal " + std::to_string(WTERMSIG(st)) : "worker failed"); g_left++; } rewind(c.second); merge(c.second); }
        int done = *ctr; if (done < nf) g_left += nf - done;
    }
    for (auto& p : g_funcs) if (p.second->calls && p.second->isRepo) g_fcalls[p.second->name] += p.second->calls;
    if (*g_stopWhy) g_stopWhys.insert(g_stopWhy);
    bool complete = g_left == 0 && g_st.unsup == 0 && g_st.limit == 0 && g_stopWhys.empty();
    const char* status = !g_errs.empty() ? "error" : complete ? "proved" : "incomplete";
    FILE* o = optOut ? fopen(optOut, "w") : stdout;
    fprintf(o, "{\"status\":\"%s\",\"complete\":%s,\"paths\":%llu,\"assume_killed\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"instructions\":%llu,\"forks\":%llu,\"unsupported\":%llu,\"solver_limit\":%llu,\"assertions\":%llu,\"checks\":%llu,\"solver_seconds\":%.3f,\"seconds\":%.3f,\"states_left\":%llu",
        status, complete ? "true" : "false", (unsigned long long)g_st.paths, (unsigned long long)g_st.killedAssume, (unsigned long long)g_st.queries, (unsigned long long)g_st.qsat, (unsigned long long)g_st.qunsat, (unsigned long long)g_st.qunk, (unsigned long long)g_st.instrs, (unsigned long long)g_st.forks, (unsigned long long)g_st.unsup, (unsigned long long)g_st.limit, (unsigned long long)g_st.asserts, (unsigned long long)g_st.checks, g_st.solver, nowS() - g_start, (unsigned long long)g_left);
    auto list = [&](const char* n, const std::map<std::string, uint64_t>& m) { fprintf(o, ",\"%s\":{", n); bool first = true; for (auto& p : m) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", esc(p.first).c_str(), (unsigned long long)p.second); first = false; } fprintf(o, "}"); };
    list("witnesses", g_wit); list("unsupported_sites", g_unsup); list("functions", g_fcalls);
    fprintf(o, ",\"stopped\":["); { bool first = true; for (auto& s : g_stopWhys) { fprintf(o, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; } } fprintf(o, "]");
    fprintf(o, ",\"errors\":["); for (size_t k = 0; k < g_errs.size(); k++) { auto& e = g_errs[k]; fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"inputs\":[", k ? "," : "", esc(e.kind).c_str(), esc(e.msg).c_str(), esc(e.loc).c_str());
        for (size_t i = 0; i < e.in.size(); i++) fprintf(o, "%s[\"%s\",%d,%llu]", i ? "," : "", esc(e.in[i].first).c_str(), e.in[i].second.first, (unsigned long long)e.in[i].second.second); fprintf(o, "]}"); }
    fprintf(o, "]}\n"); fflush(o);
    _exit(g_errs.empty() ? (complete ? 0 : 2) : 1);
}
