// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

enum Op : uint8_t { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
    O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_SLT, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_UMULO, O_SMULO };

struct Expr {
    Op op; uint8_t w; bool leafc; uint16_t leaves;
    uint32_t id;
    uint64_t c;            // CONST value, VAR id, EXTRACT offset
    Expr *a, *b, *d;
    uint64_t kz;           // known-zero bits (within width)
    uint64_t hash;
    // caches
    uint64_t evEpoch, evVal;
    uint64_t knEpoch; uint64_t knVal;      // value implied by the active state's path condition
    void* z3; uint32_t z3Epoch;
};

struct V { Expr* e; uint64_t c; V() : e(nullptr), c(0) {} V(uint64_t x) : e(nullptr), c(x) {} V(Expr* x, uint64_t y) : e(x), c(y) {} };

static inline uint64_t maskw(int w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, int w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

Expr* mkConst(int w, uint64_t c);
Expr* mkVar(int w, uint32_t id);
V mkBin(Op op, V a, V b, int w);           // arithmetic / bitwise; result width w
V mkEq(V a, V b, int w);                   // w: operand width; result width 1
V mkUlt(V a, V b, int w);
V mkSlt(V a, V b, int w);
V mkIte(V c, V a, V b, int w);
V mkConcat(V hi, int wh, V lo, int wl);
V mkExtract(V a, int aw, int off, int w);
V mkZext(V a, int aw, int w);
V mkSext(V a, int aw, int w);
V mkOvf(Op op, V a, V b, int w);           // UMULO / SMULO
static inline V mkNot(V a) { return mkBin(O_XOR, a, V(1), 1); }
static inline V mkAnd(V a, V b) { return mkBin(O_AND, a, b, 1); }
static inline V mkOr(V a, V b) { return mkBin(O_OR, a, b, 1); }
Expr* toE(V v, int w);
uint64_t foldBin(Op op, uint64_t a, uint64_t b, int w, bool* ok);

typedef std::vector<uint64_t> ModelV;
uint64_t evalExpr(Expr* e, const ModelV& m);     // memoised per evalNewEpoch()
void evalNewEpoch();
static inline uint64_t evalV(V v, const ModelV& m) { return v.e ? evalExpr(v.e, m) : v.c; }
std::string exprStr(Expr* e, int depth = 6);
extern uint64_t g_numExprs;
