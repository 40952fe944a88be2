// symx: a small symbolic executor for LLVM bitcode (LLVM 18 for reading the program, Z3 for deciding).
// Every input created by vp_sym is a bit-vector variable; every path condition, assertion and memory-safety
// condition is decided by the solver for all values.  See DESIGN.md for the semantics implemented here.
#include "expr.h"
#include <z3.h>
#include <pthread.h>
#include <time.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <algorithm>
#include <map>
#include <set>
#include <memory>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <math.h>
#include <time.h>
#include <signal.h>

using llvm::dyn_cast; using llvm::isa; using llvm::cast;

// ---------------------------------------------------------------- options
static int optJ = 8; static double optTime = 300; static uint64_t optInstr = 3000000; static unsigned optRlimit = 60000000;
static bool optVerbose = false; static const char* optOut = nullptr; static const char* optEntry = "harness";
static int optMaxErr = 9; static int optMemMB = 3500; static bool optSimple = false; static int optFrontier = 0; static int optErrGrace = 8;
static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double g_start;

// ---------------------------------------------------------------- program representation
enum IOp : uint8_t { I_BIN, I_ICMP, I_SELECT, I_CAST, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_COPY, I_FBIN, I_FCMP, I_FCAST, I_FNEG, I_UNREACHABLE, I_NOP, I_UNSUP, I_ICALL, I_FREEZE };
struct Opnd { int32_t slot = -1; uint64_t c = 0; };
struct Edge { uint32_t target = 0; std::vector<std::pair<int32_t, Opnd>> copies; };
struct Func;
struct GepTerm { Opnd o; uint8_t w; uint64_t scale; };
struct Inst {
    IOp op = I_NOP; Op bop = O_ADD; uint8_t w = 0, w2 = 0; uint8_t flags = 0; uint8_t pred = 0;
    int32_t dst = -1; Opnd a, b, c;
    int intr = -1; Func* callee = nullptr;
    std::vector<Opnd> args; std::vector<uint8_t> argw;
    std::vector<GepTerm> terms; uint64_t cofs = 0;
    std::vector<Edge> edges; std::vector<uint64_t> cases;
    std::vector<std::pair<Opnd, uint8_t>> parts; std::vector<uint32_t> offs; // multi-slot load/store/ret: widths, byte offsets
    const llvm::Instruction* I = nullptr;
    std::string note;
};
struct Func { const llvm::Function* F; std::string name; std::vector<Inst> code; int nslots = 0; std::vector<int32_t> argSlots; std::vector<uint8_t> argW; std::vector<uint8_t> retw; uint64_t addr = 0; bool ready = false; uint64_t calls = 0; bool isRepo = false; };

static llvm::LLVMContext g_ctx; static std::unique_ptr<llvm::Module> g_mod; static const llvm::DataLayout* g_dl;
static std::map<const llvm::Function*, Func*> g_funcs; static std::map<uint64_t, Func*> g_faddr;
static std::map<const llvm::GlobalVariable*, uint64_t> g_gaddr;

// ---------------------------------------------------------------- memory
struct SymB { Expr* e; uint8_t off; };
enum { ST_C = 0, ST_S = 1, ST_U = 2 };
struct MemObj {
    int rc = 1; uint64_t base = 0, cap = 0; V size; uint8_t kind = 0; bool ro = false;  // kind 0 global 1 stack 2 heap
    std::vector<uint8_t> c, st; std::vector<SymB> s;
};
static MemObj* objNew(uint64_t base, uint64_t cap, V size, int kind, bool uninit)
{
    MemObj* o = new MemObj; o->base = base; o->cap = cap; o->size = size; o->kind = kind; o->c.assign(cap, 0); o->st.assign(cap, uninit ? ST_U : ST_C); return o;
}
static void objUnref(MemObj* o) { if (--o->rc == 0) delete o; }

struct Frame { Func* f; uint32_t pc; int32_t retDst; uint32_t regBase; std::vector<uint64_t> allocas; };
struct InLog { uint32_t nameIdx; uint8_t w; V v; };
struct State {
    std::vector<Frame> frames; std::vector<V> regs; std::vector<MemObj*> objs;
    std::vector<Expr*> pc; ModelV model; std::vector<InLog> log; uint64_t next = 0x20000000; uint64_t instrs = 0; uint32_t depth = 0;
    uint64_t hmask = 0; // heap call counters etc. unused
    ~State() { for (auto o : objs) objUnref(o); }
    State* clone() const { State* n = new State; n->frames = frames; n->regs = regs; n->objs = objs; for (auto o : objs) o->rc++; n->pc = pc; n->model = model; n->log = log; n->next = next; n->instrs = instrs; n->depth = depth + 1; return n; }
};
static std::vector<MemObj*> g_cobjs;   // constant globals
static State* S;                       // active state
static std::vector<State*> g_work;     // DFS stack
static std::vector<std::string> g_names; static std::map<std::string, uint32_t> g_nameIdx;
static uint32_t g_nvars = 0;

// ---------------------------------------------------------------- statistics
struct Stats { uint64_t paths = 0, killedAssume = 0, queries = 0, qsat = 0, qunsat = 0, qunk = 0, instrs = 0, errs = 0, forks = 0, unsup = 0, limit = 0, asserts = 0, checks = 0; double solver = 0; };
static Stats g_st; static std::map<std::string, uint64_t> g_wit; static std::map<std::string, uint64_t> g_unsup;
struct ErrRec { std::string kind, msg, loc; std::vector<std::pair<std::string, std::pair<int, uint64_t>>> in; };
static std::vector<ErrRec> g_errs; static std::map<std::string, int> g_errKeys; static double g_firstErr = 0; static bool g_stop = false;
static volatile int* g_shErr = nullptr;

// ---------------------------------------------------------------- solver (Z3, incremental, scopes follow the path condition)
static Z3_context zc = nullptr; static Z3_solver zs = nullptr; static uint32_t zEpoch = 0; static std::vector<Expr*> zStack; static std::vector<uint32_t> zVarsUsed;
static std::vector<Z3_ast> zVarAst; static std::vector<uint8_t> zVarW;
static std::vector<Z3_ast> zKeep;
static void zInit()
{
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); zc = Z3_mk_context(cfg); Z3_del_config(cfg); zEpoch++;
    zs = optSimple ? Z3_mk_simple_solver(zc) : Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
    Z3_solver_inc_ref(zc, zs); Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), optRlimit);
    Z3_solver_set_params(zc, zs, p); Z3_params_dec_ref(zc, p); zStack.clear(); zVarAst.clear();
}
static Z3_ast zref(Z3_ast a) { return a; }
static Z3_ast zNum(uint64_t v, int w) { return Z3_mk_unsigned_int64(zc, v, Z3_mk_bv_sort(zc, w)); }
static Z3_ast zE(Expr* e);
static Z3_ast zBV(Expr* e) { Z3_ast a = zE(e); if (e->w != 1) return a; return Z3_mk_ite(zc, a, zNum(1, 1), zNum(0, 1)); }
static Z3_ast zE(Expr* e)
{
    if (e->z3Epoch == zEpoch && e->z3) return (Z3_ast)e->z3;
    Z3_ast r = nullptr; int w = e->w;
    switch (e->op) {
    case O_CONST: r = w == 1 ? (e->c ? Z3_mk_true(zc) : Z3_mk_false(zc)) : zNum(e->c, w); break;
    case O_VAR: { char n[24]; snprintf(n, sizeof n, "v%u", (unsigned)e->c); r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n), w == 1 ? Z3_mk_bool_sort(zc) : Z3_mk_bv_sort(zc, w));
        if (zVarAst.size() <= e->c) { zVarAst.resize(e->c + 1, nullptr); zVarW.resize(e->c + 1, 0); } zVarAst[e->c] = r; zVarW[e->c] = w; break; }
    case O_AND: case O_OR: case O_XOR: case O_ADD: case O_SUB: case O_MUL:
        if (w == 1) { Z3_ast x[2] = { zE(e->a), zE(e->b) }; r = (e->op == O_AND || e->op == O_MUL) ? Z3_mk_and(zc, 2, x) : e->op == O_OR ? Z3_mk_or(zc, 2, x)
            : (e->b->op == O_CONST && e->b->c) ? Z3_mk_not(zc, x[0]) : Z3_mk_xor(zc, x[0], x[1]); break; }
        { Z3_ast x = zE(e->a), y = zE(e->b);
          r = e->op == O_AND ? Z3_mk_bvand(zc, x, y) : e->op == O_OR ? Z3_mk_bvor(zc, x, y) : e->op == O_XOR ? Z3_mk_bvxor(zc, x, y) : e->op == O_ADD ? Z3_mk_bvadd(zc, x, y) : e->op == O_SUB ? Z3_mk_bvsub(zc, x, y) : Z3_mk_bvmul(zc, x, y); }
        break;
    case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_SHL: case O_LSHR: case O_ASHR: { Z3_ast x = zBV(e->a), y = zBV(e->b);
        switch (e->op) { case O_UDIV: r = Z3_mk_bvudiv(zc, x, y); break; case O_SDIV: r = Z3_mk_bvsdiv(zc, x, y); break; case O_UREM: r = Z3_mk_bvurem(zc, x, y); break;
            case O_SREM: r = Z3_mk_bvsrem(zc, x, y); break; case O_SHL: r = Z3_mk_bvshl(zc, x, y); break; case O_LSHR: r = Z3_mk_bvlshr(zc, x, y); break; default: r = Z3_mk_bvashr(zc, x, y); break; }
        if (w == 1) r = Z3_mk_eq(zc, r, zNum(1, 1));
        break; }
    case O_EQ: r = Z3_mk_eq(zc, zE(e->a), zE(e->b)); break;
    case O_ULT: r = Z3_mk_bvult(zc, zBV(e->a), zBV(e->b)); break;
    case O_SLT: r = Z3_mk_bvslt(zc, zBV(e->a), zBV(e->b)); break;
    case O_ITE: r = Z3_mk_ite(zc, zE(e->a), zE(e->b), zE(e->d)); break;
    case O_CONCAT: r = Z3_mk_concat(zc, zBV(e->a), zBV(e->b)); break;
    case O_EXTRACT: r = Z3_mk_extract(zc, (unsigned)(e->c + w - 1), (unsigned)e->c, zBV(e->a)); if (w == 1) r = Z3_mk_eq(zc, r, zNum(1, 1)); break;
    case O_ZEXT: r = e->a->w == 1 ? Z3_mk_ite(zc, zE(e->a), zNum(1, w), zNum(0, w)) : Z3_mk_zero_ext(zc, w - e->a->w, zE(e->a)); break;
    case O_SEXT: r = e->a->w == 1 ? Z3_mk_ite(zc, zE(e->a), zNum(~0ULL & maskw(w), w), zNum(0, w)) : Z3_mk_sign_ext(zc, w - e->a->w, zE(e->a)); break;
    case O_UMULO: r = Z3_mk_not(zc, Z3_mk_bvmul_no_overflow(zc, zBV(e->a), zBV(e->b), false)); break;
    case O_SMULO: { Z3_ast x[2] = { Z3_mk_bvmul_no_overflow(zc, zBV(e->a), zBV(e->b), true), Z3_mk_bvmul_no_underflow(zc, zBV(e->a), zBV(e->b)) }; r = Z3_mk_not(zc, Z3_mk_and(zc, 2, x)); break; }
    }
    e->z3 = zref(r); e->z3Epoch = zEpoch; return r;
}
static void zSync(const std::vector<Expr*>& pc)
{
    size_t k = 0; while (k < pc.size() && k < zStack.size() && pc[k] == zStack[k]) k++;
    if (zStack.size() > k) { Z3_solver_pop(zc, zs, (unsigned)(zStack.size() - k)); zStack.resize(k); }
    for (; k < pc.size(); k++) { Z3_solver_push(zc, zs); Z3_solver_assert(zc, zs, zE(pc[k])); zStack.push_back(pc[k]); }
}
static void collectVars(Expr* e, std::unordered_set<Expr*>& seen, std::vector<Expr*>& out)
{
    if (!e || !seen.insert(e).second) return;
    if (e->op == O_VAR) out.push_back(e);
    collectVars(e->a, seen, out); collectVars(e->b, seen, out); collectVars(e->d, seen, out);
}
// 1 sat (model filled), 0 unsat, -1 unknown
static std::unordered_map<uint64_t, int> g_qcache;
static volatile bool g_inCheck = false;
static int solve(const std::vector<Expr*>& pc, Expr* extra, ModelV* out)
{
    double t0 = nowS(); zSync(pc);
    Z3_lbool r;
    if (extra) { Z3_solver_push(zc, zs); Z3_solver_assert(zc, zs, zE(extra)); }
    g_inCheck = true; r = Z3_solver_check(zc, zs); g_inCheck = false;
    g_st.queries++;
    if (r == Z3_L_TRUE) {
        g_st.qsat++;
        Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m);
        if (out) { ModelV res(g_nvars, 0);
            unsigned n = Z3_model_get_num_consts(zc, m);
            for (unsigned i = 0; i < n; i++) { Z3_func_decl d = Z3_model_get_const_decl(zc, m, i); const char* nm = Z3_get_symbol_string(zc, Z3_get_decl_name(zc, d));
                if (nm[0] != 'v') continue; unsigned id = (unsigned)atoi(nm + 1); if (id >= g_nvars) continue;
                Z3_ast v = Z3_model_get_const_interp(zc, m, d); if (!v) continue; uint64_t u = 0;
                if (Z3_get_bool_value(zc, v) == Z3_L_TRUE) u = 1; else if (Z3_get_bool_value(zc, v) == Z3_L_FALSE) u = 0; 
                if (Z3_get_ast_kind(zc, v) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(zc, v, &u);
                res[id] = u; }
            *out = res; }
        Z3_model_dec_ref(zc, m);
    } else if (r == Z3_L_FALSE) g_st.qunsat++; else g_st.qunk++;
    if (extra) Z3_solver_pop(zc, zs, 1);
    g_st.solver += nowS() - t0;
    return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}

// ---------------------------------------------------------------- facts known on the active path
static uint64_t g_kn = 1, g_rd = 1;
static std::unordered_map<Expr*, std::pair<uint64_t, V>> g_rdMemo;
static void stampV(Expr* e, uint64_t v)
{
    if (e->op == O_CONST || (e->knEpoch == g_kn && e->knVal == v)) return;
    e->knEpoch = g_kn; e->knVal = v;
    if (e->w == 1) {
        if (e->op == O_XOR && e->b->op == O_CONST) stampV(e->a, v ^ e->b->c);
        else if (e->op == O_AND && v) { stampV(e->a, 1); stampV(e->b, 1); }
        else if (e->op == O_OR && !v) { stampV(e->a, 0); stampV(e->b, 0); }
        else if (e->op == O_EQ && v && e->b->op == O_CONST) stampV(e->a, e->b->c);
        else if (e->op == O_EQ && v && e->a->op == O_CONST) stampV(e->b, e->a->c);
    } else if (e->op == O_ZEXT) stampV(e->a, v);
}
static void restamp() { g_kn++; g_rd++; g_rdMemo.clear(); for (Expr* e : S->pc) stampV(e, 1); }
static int g_redBudget;
static V red1(Expr* e)
{
    if (e->op == O_CONST) return V(e->c);
    if (e->knEpoch == g_kn) return V(e->knVal);
    if (e->op == O_VAR) return V(e, 0);
    auto it = g_rdMemo.find(e); if (it != g_rdMemo.end()) return it->second.second;
    if (--g_redBudget < 0) return V(e, 0);
    V r(e, 0);
    if (e->op == O_ITE) {
        V c = red1(e->a);
        if (!c.e) r = (c.c & 1) ? red1(e->b) : red1(e->d);
        else { V x = red1(e->b), y = red1(e->d); if (c.e != e->a || x.e != e->b || y.e != e->d) r = mkIte(c, x, y, e->w); }
    } else {
        V x = red1(e->a), y = e->b ? red1(e->b) : V(0);
        bool ch = !(x.e ? x.e == e->a : (e->a->op == O_CONST)) || (e->b && !(y.e ? y.e == e->b : e->b->op == O_CONST));
        if (ch) switch (e->op) {
            case O_EQ: r = mkEq(x, y, e->a->w); break;
            case O_ULT: r = mkUlt(x, y, e->a->w); break;
            case O_SLT: r = mkSlt(x, y, e->a->w); break;
            case O_CONCAT: r = mkConcat(x, e->a->w, y, e->b->w); break;
            case O_EXTRACT: r = mkExtract(x, e->a->w, (int)e->c, e->w); break;
            case O_ZEXT: r = mkZext(x, e->a->w, e->w); break;
            case O_SEXT: r = mkSext(x, e->a->w, e->w); break;
            case O_UMULO: case O_SMULO: r = mkOvf(e->op, x, y, e->a->w); break;
            default: r = mkBin(e->op, x, y, e->w); break;
        }
    }
    if (r.e && r.e != e && r.e->knEpoch == g_kn) r = V(r.e->knVal);
    if (g_redBudget >= 0) g_rdMemo[e] = { 0, r };
    return r;
}
static V red(V v) { if (!v.e) return v; g_redBudget = 4000; return red1(v.e); }

struct Kill { }; struct Reschedule { };
[[noreturn]] static void kill() { throw Kill(); }
static std::string locStr();
static void unsup(const std::string& w) { g_st.unsup++; g_unsup[w + " @ " + locStr()]++; if (optVerbose) fprintf(stderr, "unsupported: %s @ %s\n", w.c_str(), locStr().c_str()); kill(); }

static void pushC(State* st, Expr* e)   // split conjunctions
{
    if (e->op == O_AND && e->w == 1) { pushC(st, e->a); pushC(st, e->b); return; }
    for (Expr* x : st->pc) if (x == e) return;
    st->pc.push_back(e);
}
static void addC(V c) { if (!c.e) { if (!(c.c & 1)) kill(); return; } pushC(S, c.e); stampV(c.e, 1); g_rdMemo.clear(); }
static bool evalUnder(V c) { if (!c.e) return c.c & 1; evalNewEpoch(); return evalExpr(c.e, S->model) & 1; }
// is PC && c satisfiable?  fills model on success
static int feas(V c, ModelV* m) { if (!c.e) { if (c.c & 1) { if (m) *m = S->model; return 1; } return 0; } return solve(S->pc, c.e, m); }

static Inst* curInst();
// Branch on a condition. Returns the side taken by the active state; the other side, when feasible, becomes a clone that re-executes the instruction.
static bool branch(V c)
{
    c = red(c);
    if (!c.e) return c.c & 1;
    bool side = evalUnder(c); V oc = side ? mkNot(c) : c; ModelV m;
    int r = feas(oc, &m);
    if (r == 1) { State* n = S->clone(); n->model = m; pushC(n, oc.e); g_work.push_back(n); g_st.forks++; }
    else if (r < 0) { g_st.limit++; }
    if (r != 0) addC(side ? c : mkNot(c)); else { V k = side ? c : mkNot(c); if (k.e) { stampV(k.e, 1); g_rdMemo.clear(); } }
    return side;
}
static std::string locStr()
{
    if (!S || S->frames.empty()) return "?";
    std::string r;
    for (int i = (int)S->frames.size() - 1, n = 0; i >= 0 && n < 4; i--, n++) { Frame& f = S->frames[i]; const llvm::Instruction* I = f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr;
        if (n) r += " < "; r += f.f->name; if (I && I->getDebugLoc()) r += ":" + std::to_string(I->getDebugLoc().getLine()); }
    return r;
}
static void recordErr(const char* kind, const std::string& msg, const ModelV& m)
{
    g_st.errs++;
    std::string loc = locStr(), key = std::string(kind) + "|" + msg + "|" + loc;
    if (optVerbose) fprintf(stderr, "ERROR %s: %s @ %s\n", kind, msg.c_str(), loc.c_str());
    if (!g_firstErr) g_firstErr = nowS();
    if (g_shErr) __sync_fetch_and_add((int*)g_shErr, 1);
    if (++g_errKeys[key] > 3 || (int)g_errs.size() >= optMaxErr) return;
    ErrRec r; r.kind = kind; r.msg = msg; r.loc = loc; evalNewEpoch();
    for (auto& l : S->log) r.in.push_back({ g_names[l.nameIdx], { l.w, l.v.e ? evalExpr(l.v.e, m) : l.v.c } });
    g_errs.push_back(r);
}
// error condition: report when satisfiable, then continue on the paths where it does not hold
static void check(V bad, const char* kind, const std::string& msg)
{
    g_st.checks++;
    bad = red(bad);
    if (!bad.e) { if (bad.c & 1) { recordErr(kind, msg, S->model); kill(); } return; }
    if (evalUnder(bad)) {
        recordErr(kind, msg, S->model);
        ModelV m; V g = mkNot(bad); if (feas(g, &m) != 1) kill();
        S->model = m; addC(g); return;
    }
    ModelV m; int r = feas(bad, &m);
    if (r == 1) { recordErr(kind, msg, m); addC(mkNot(bad)); }
    else if (r < 0) { g_st.limit++; addC(mkNot(bad)); }
    else { V g = mkNot(bad); if (g.e) { stampV(g.e, 1); g_rdMemo.clear(); } }
}
static void assume(V c)
{
    c = red(c);
    if (!c.e) { if (!(c.c & 1)) { g_st.killedAssume++; kill(); } return; }
    if (evalUnder(c)) { addC(c); return; }
    ModelV m; int r = feas(c, &m); if (r != 1) { if (r < 0) g_st.limit++; g_st.killedAssume++; kill(); }
    S->model = m; addC(c);
}
static V freshVar(int w) { uint32_t id = g_nvars++; Expr* e = mkVar(w, id); if (S->model.size() <= id) S->model.resize(id + 1, 0); return V(e, 0); }
// make a value concrete, forking over the other feasible values
static uint64_t concretize(V v, int w)
{
    v = red(v);
    if (!v.e) return v.c;
    evalNewEpoch(); uint64_t x = evalExpr(v.e, S->model);
    V eq = mkEq(v, V(x), w); V ne = mkNot(eq); ModelV m; int r = feas(ne, &m);
    if (r == 1) { State* n = S->clone(); n->model = m; pushC(n, ne.e); g_work.push_back(n); g_st.forks++; }
    else if (r < 0) g_st.limit++;
    if (eq.e) addC(eq);
    return x;
}

// ---------------------------------------------------------------- memory access
static int objIdx(const std::vector<MemObj*>& v, uint64_t a)
{
    size_t lo = 0, hi = v.size(); while (lo < hi) { size_t mid = (lo + hi) / 2; if (v[mid]->base <= a) lo = mid + 1; else hi = mid; }
    return (int)lo - 1;
}
struct Ref { std::vector<MemObj*>* vec; int idx; MemObj* o; };
static bool findObj(uint64_t a, Ref& r)
{
    // an address one past the end belongs to the object below (red zones keep objects apart)
    int i = objIdx(S->objs, a); if (i >= 0) { MemObj* o = S->objs[i]; if (a - o->base <= o->cap) { r = { &S->objs, i, o }; return true; } }
    i = objIdx(g_cobjs, a); if (i >= 0) { MemObj* o = g_cobjs[i]; if (a - o->base <= o->cap) { r = { &g_cobjs, i, o }; return true; } }
    return false;
}
static MemObj* writable(Ref& r) { if (r.o->rc > 1) { MemObj* n = new MemObj(*r.o); n->rc = 1; r.o->rc--; (*r.vec)[r.idx] = n; r.o = n; } return r.o; }
static V ldByte(Ref& r, uint64_t off)
{
    MemObj* o = r.o;
    switch (o->st[off]) {
    case ST_C: return V(o->c[off]);
    case ST_S: { SymB& s = o->s[off]; return mkExtract(V(s.e, 0), s.e->w, s.off * 8, 8); }
    default: { V v = freshVar(8); MemObj* n = writable(r); if (n->s.empty()) n->s.resize(n->cap); n->st[off] = ST_S; n->s[off] = { v.e, 0 }; return v; }
    }
}
static V ldN(Ref& r, uint64_t off, int n)
{
    MemObj* o = r.o; bool allc = true;
    for (int i = 0; i < n; i++) if (o->st[off + i] != ST_C) { allc = false; break; }
    if (allc) { uint64_t v = 0; memcpy(&v, &o->c[off], n); return V(v); }
    if (o->st[off] == ST_S) { SymB& s = o->s[off]; if (s.e->w == n * 8 && s.off == 0) { bool same = true; for (int i = 1; i < n; i++) if (o->st[off + i] != ST_S || o->s[off + i].e != s.e || o->s[off + i].off != i) { same = false; break; } if (same) return V(s.e, 0); } }
    bool allu = true; for (int i = 0; i < n; i++) if (o->st[off + i] != ST_U) { allu = false; break; }
    if (allu) { V v = freshVar(n * 8); MemObj* m = writable(r); if (m->s.empty()) m->s.resize(m->cap); for (int i = 0; i < n; i++) { m->st[off + i] = ST_S; m->s[off + i] = { v.e, (uint8_t)i }; } return v; }
    V v = ldByte(r, off); int w = 8;
    for (int i = 1; i < n; i++) { V b = ldByte(r, off + i); v = mkConcat(b, 8, v, w); w += 8; }
    return v;
}
static void stN(Ref& r, uint64_t off, V v, int n)
{
    MemObj* o = writable(r);
    if (!v.e) { memcpy(&o->c[off], &v.c, n); memset(&o->st[off], ST_C, n); return; }
    if (o->s.empty()) o->s.resize(o->cap);
    for (int i = 0; i < n; i++) { o->st[off + i] = ST_S; o->s[off + i] = { v.e, (uint8_t)i }; }
}
static V inBounds(MemObj* o, V off, int n)   // off as 64-bit value, n > 0
{
    if (!o->size.e) { if (o->size.c < (uint64_t)n) return V(0); return mkNot(mkUlt(V(o->size.c - n), off, 64)); }
    // off + n <= size, off <= cap
    V okcap = mkNot(mkUlt(V(o->cap), off, 64));
    V ge = mkNot(mkUlt(o->size, mkBin(O_ADD, off, V(n), 64), 64));
    return mkAnd(okcap, ge);
}
// collect the constant leaves of an ITE tree
static void leavesOf(Expr* e, std::vector<uint64_t>& out, std::unordered_set<Expr*>& seen) { if (!seen.insert(e).second) return; if (e->op == O_CONST) { out.push_back(e->c); return; } leavesOf(e->b, out, seen); leavesOf(e->d, out, seen); }
static const char* kindName(int k) { return k == 0 ? "global" : k == 1 ? "stack" : "heap"; }

static bool addrOk(uint64_t a, int n, bool write, Ref& r)
{
    if (!findObj(a, r)) return false;
    if (write && r.o->ro) return false;
    if (r.o->size.e) return true; // checked separately
    return a - r.o->base + n <= r.o->size.c;
}
static V treeLoad(Expr* t, int n, std::unordered_map<Expr*, std::pair<bool, V>>& memo, bool& any)
{
    auto it = memo.find(t); if (it != memo.end()) { any = it->second.first; return it->second.second; }
    V res; bool ok;
    if (t->op == O_CONST) { Ref r; ok = addrOk(t->c, n, false, r); if (ok) res = ldN(r, t->c - r.o->base, n); }
    else { bool x, y; V a = treeLoad(t->b, n, memo, x), b = treeLoad(t->d, n, memo, y); ok = x || y; res = x && y ? mkIte(V(t->a, 0), a, b, n * 8) : x ? a : b; }
    memo[t] = { ok, res }; any = ok; return res;
}
static std::string accMsg(uint64_t a, int n, bool write)
{
    char b[160]; Ref r;
    if (a < 4096) snprintf(b, sizeof b, "%s of %d bytes through a null pointer", write ? "write" : "read", n);
    else if (findObj(a, r)) snprintf(b, sizeof b, "%s of %d bytes outside a %s object", write ? "write" : "read", n, kindName(r.o->kind));
    else snprintf(b, sizeof b, "%s of %d bytes at an invalid address", write ? "write" : "read", n);
    return b;
}
// Resolve a symbolic pointer. Either `tree` (constant-leaf tree, all feasible leaves valid) or object+offset.
struct Res { bool tree = false; Expr* t = nullptr; Ref r; V off; };
static Res resolve(V p, int n, bool write)
{
    Res R; p = red(p);
    if (p.e && p.e->op == O_ITE && p.e->leafc) {
        std::vector<uint64_t> lv; std::unordered_set<Expr*> seen; leavesOf(p.e, lv, seen); std::sort(lv.begin(), lv.end()); lv.erase(std::unique(lv.begin(), lv.end()), lv.end());
        V bad(0); bool symsz = false; uint64_t anyBad = 0; int nb = 0;
        for (uint64_t a : lv) { Ref r; if (!addrOk(a, n, write, r)) { bad = mkOr(bad, mkEq(p, V(a), 64)); anyBad = a; nb++; } else if (r.o->size.e) symsz = true; }
        if (!symsz) {
            if (nb) { check(bad, "memory", accMsg(anyBad, n, write)); p = red(p); }
            if (p.e && p.e->op == O_ITE) { R.tree = true; R.t = p.e; return R; }
        }
    }
    if (!p.e) {
        Ref r; if (!findObj(p.c, r)) { recordErr("memory", accMsg(p.c, n, write), S->model); kill(); }
        if (write && r.o->ro) { recordErr("memory", "write to constant memory", S->model); kill(); }
        V off = V(p.c - r.o->base); check(mkNot(inBounds(r.o, off, n)), "memory", accMsg(p.c, n, write));
        R.r = r; R.off = off; return R;
    }
    evalNewEpoch(); uint64_t a = evalExpr(p.e, S->model); Ref r;
    if (!findObj(a, r)) {
        // maybe only this model: report, then continue with other targets by excluding this address
        recordErr("memory", accMsg(a, n, write), S->model); kill();
    }
    if (write && r.o->ro) { recordErr("memory", "write to constant memory", S->model); kill(); }
    V off = mkBin(O_SUB, p, V(r.o->base), 64);
    V inb = red(inBounds(r.o, off, n));
    if (inb.e || !(inb.c & 1)) {
        if (!inb.e || !evalUnder(inb)) {
            // the model itself is out of bounds of the object below it
            recordErr("memory", accMsg(a, n, write), S->model); 
            ModelV m; if (feas(inb, &m) != 1) kill(); S->model = m; addC(inb);
        } else {
            // other targets?  split: this object / everything else (the clone re-executes)
            ModelV m; V out = mkNot(inb); int q = feas(out, &m);
            if (q == 1) { State* nst = S->clone(); nst->model = m; pushC(nst, out.e); g_work.push_back(nst); g_st.forks++; addC(inb); }
            else if (q < 0) { g_st.limit++; addC(inb); }
            else if (inb.e) { stampV(inb.e, 1); g_rdMemo.clear(); }
        }
    }
    off = red(off);
    R.r = r; R.off = off; return R;
}
// candidate offsets of a symbolic in-object offset, in a form suited to a bit-indexed mux
static V muxLoad(Ref& r, V off, int n)
{
    Expr* e = off.e; uint64_t kz = e->kz; uint64_t lim = r.o->cap - n; // max offset
    int hb = 64 - __builtin_clzll(lim | 1);
    std::vector<int> bits; for (int i = 0; i < hb; i++) if (!(kz >> i & 1)) bits.push_back(i);
    // recursion over bits, high to low
    struct Rec { static V go(Ref& r, V off, const std::vector<int>& bits, int k, uint64_t acc, uint64_t lim, int n, bool& ok) {
        if (acc > lim) { ok = false; return V(0); }
        if (k < 0) { ok = true; return ldN(r, acc, n); }
        bool x, y; V a = go(r, off, bits, k - 1, acc | 1ULL << bits[k], lim, n, x), b = go(r, off, bits, k - 1, acc, lim, n, y);
        ok = x || y; if (x && y) return mkIte(mkExtract(off, 64, bits[k], 1), a, b, n * 8); return x ? a : b; } };
    if (bits.size() > 14) unsup("symbolic offset into a large object");
    bool ok; V v = Rec::go(r, off, bits, (int)bits.size() - 1, 0, lim, n, ok); return v;
}
static V loadV(V p, int n)
{
    if (!p.e) { Ref r; if (findObj(p.c, r) && !r.o->size.e && p.c - r.o->base + n <= r.o->size.c) return ldN(r, p.c - r.o->base, n); }
    Res R = resolve(p, n, false);
    if (R.tree) { std::unordered_map<Expr*, std::pair<bool, V>> memo; bool any; V v = treeLoad(R.t, n, memo, any); if (!any) kill(); return red(v); }
    if (!R.off.e) return ldN(R.r, R.off.c, n);
    return muxLoad(R.r, R.off, n);
}
static void storeV(V p, V v, int n)
{
    if (!p.e) { Ref r; if (findObj(p.c, r) && !r.o->ro && !r.o->size.e && p.c - r.o->base + n <= r.o->size.c) { stN(r, p.c - r.o->base, v, n); return; } }
    Res R = resolve(p, n, true);
    if (R.tree) {
        std::vector<uint64_t> lv; std::unordered_set<Expr*> seen; leavesOf(R.t, lv, seen); std::sort(lv.begin(), lv.end()); lv.erase(std::unique(lv.begin(), lv.end()), lv.end());
        for (uint64_t a : lv) { Ref r; if (!addrOk(a, n, true, r)) continue; V c = mkEq(V(R.t, 0), V(a), 64); V old = ldN(r, a - r.o->base, n); stN(r, a - r.o->base, mkIte(c, v, old, n * 8), n); }
        return;
    }
    if (!R.off.e) { stN(R.r, R.off.c, v, n); return; }
    Expr* e = R.off.e; uint64_t lim = R.r.o->cap - n; uint64_t step = 1; while (step < 4096 && (e->kz & step)) step <<= 1;
    if (lim / step > 4096) unsup("symbolic store into a large object");
    for (uint64_t o = 0; o <= lim; o += step) {
        if (o & e->kz) continue;
        V c = red(mkEq(R.off, V(o), 64)); if (!c.e && !(c.c & 1)) continue;
        V old = ldN(R.r, o, n); stN(R.r, o, mkIte(c, v, old, n * 8), n);
    }
}
static uint64_t allocObj(V size, int kind, uint64_t align, bool uninit, uint64_t symCap)
{
    uint64_t cap = size.e ? symCap : size.c;
    uint64_t base = (S->next + align - 1) & ~(align - 1);
    MemObj* o = objNew(base, cap, size, kind, uninit); S->objs.push_back(o);
    S->next = base + cap + 128; S->next = (S->next + 63) & ~63ULL;
    return base;
}
static bool removeObj(uint64_t base) { int i = objIdx(S->objs, base); if (i < 0 || S->objs[i]->base != base) return false; objUnref(S->objs[i]); S->objs.erase(S->objs.begin() + i); return true; }

#include "program.inc"
#include "interp.inc"
