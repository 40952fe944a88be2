#include "expr.h"
#include <unordered_set>

uint64_t g_numExprs = 0;
static std::vector<Expr*> g_tab(1 << 16, nullptr);
static size_t g_cnt = 0;
static char* g_pool = nullptr; static size_t g_poolLeft = 0;

static uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }

static Expr* intern(Op op, int w, uint64_t c, Expr* a, Expr* b, Expr* d)
{
    uint64_t h = mix(mix(mix(mix(mix((uint64_t)op * 131 + w, c), (uint64_t)a), (uint64_t)b), (uint64_t)d), 7);
    if (g_cnt * 2 > g_tab.size()) {
        std::vector<Expr*> n(g_tab.size() * 2, nullptr);
        for (Expr* e : g_tab) if (e) { size_t i = e->hash & (n.size() - 1); while (n[i]) i = (i + 1) & (n.size() - 1); n[i] = e; }
        g_tab.swap(n);
    }
    size_t i = h & (g_tab.size() - 1);
    while (g_tab[i]) {
        Expr* e = g_tab[i];
        if (e->hash == h && e->op == op && e->w == w && e->c == c && e->a == a && e->b == b && e->d == d) return e;
        i = (i + 1) & (g_tab.size() - 1);
    }
    if (g_poolLeft < sizeof(Expr)) { g_poolLeft = sizeof(Expr) * 8192; g_pool = (char*)malloc(g_poolLeft); if (!g_pool) { fprintf(stderr, "symx: out of memory\n"); exit(3); } }
    Expr* e = (Expr*)g_pool; g_pool += sizeof(Expr); g_poolLeft -= sizeof(Expr);
    memset(e, 0, sizeof *e);
    e->op = op; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->hash = h; e->id = (uint32_t)g_numExprs++;
    uint64_t m = maskw(w), kz = 0;
    switch (op) {
    case O_CONST: kz = ~c & m; e->leafc = true; e->leaves = 1; break;
    case O_AND: kz = a->kz | b->kz; break;
    case O_OR: case O_XOR: kz = a->kz & b->kz; break;
    case O_ITE: kz = b->kz & d->kz; e->leafc = b->leafc && d->leafc && (int)b->leaves + d->leaves < 2000; e->leaves = e->leafc ? b->leaves + d->leaves : 0; break;
    case O_ZEXT: kz = a->kz | (m & ~maskw(a->w)); break;
    case O_CONCAT: kz = (a->kz << b->w) | b->kz; break;
    case O_EXTRACT: kz = (a->kz >> c) & m; break;
    case O_SHL: if (b->op == O_CONST && b->c < (uint64_t)w) kz = ((a->kz << b->c) | maskw((int)b->c)) & m; break;
    case O_LSHR: if (b->op == O_CONST && b->c < (uint64_t)w) kz = (a->kz >> b->c) | (m & ~(m >> b->c)); break;
    case O_ADD: case O_SUB: case O_MUL: {
        int ta = 0, tb = 0; while (ta < w && (a->kz >> ta & 1)) ta++; while (tb < w && (b->kz >> tb & 1)) tb++;
        int t = op == O_MUL ? ta + tb : (ta < tb ? ta : tb); if (t > w) t = w; kz = maskw(t); if (t == 0) kz = 0;
        if (op == O_ADD) { // no carry beyond the sum of maxima
            uint64_t ma = ~a->kz & m, mb = ~b->kz & m; unsigned __int128 s = (unsigned __int128)ma + mb;
            if (s <= m) { uint64_t hi = (uint64_t)s; int k = 64 - (hi ? __builtin_clzll(hi) : 64); kz |= m & ~maskw(k); if (k == 0) kz = m; }
        } else if (op == O_MUL) {
            uint64_t ma = ~a->kz & m, mb = ~b->kz & m; unsigned __int128 s = (unsigned __int128)ma * mb;
            if (s <= m) { uint64_t hi = (uint64_t)s; int k = 64 - (hi ? __builtin_clzll(hi) : 64); kz |= m & ~maskw(k); if (k == 0) kz = m; }
        }
        break; }
    case O_UREM: if (b->op == O_CONST && b->c) { uint64_t hi = b->c - 1; int k = hi ? 64 - __builtin_clzll(hi) : 0; kz = m & ~(k ? maskw(k) : 0); } break;
    case O_UDIV: { uint64_t ma = ~a->kz & m; if (b->op == O_CONST && b->c) { ma /= b->c; } int k = ma ? 64 - __builtin_clzll(ma) : 0; kz = m & ~(k ? maskw(k) : 0); } break;
    default: break;
    }
    e->kz = kz;
    g_tab[i] = e; g_cnt++;
    return e;
}

Expr* mkConst(int w, uint64_t c) { return intern(O_CONST, w, c & maskw(w), nullptr, nullptr, nullptr); }
Expr* mkVar(int w, uint32_t id) { return intern(O_VAR, w, id, nullptr, nullptr, nullptr); }
Expr* toE(V v, int w) { return v.e ? v.e : mkConst(w, v.c); }
static V fromE(Expr* e) { return e->op == O_CONST ? V(e->c) : V(e, 0); }

uint64_t foldBin(Op op, uint64_t a, uint64_t b, int w, bool* ok)
{
    uint64_t m = maskw(w); a &= m; b &= m; *ok = true;
    switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= (uint64_t)w ? 0 : (a << b) & m;
    case O_LSHR: return b >= (uint64_t)w ? 0 : a >> b;
    case O_ASHR: return (uint64_t)(sx(a, w) >> (b >= (uint64_t)w ? w - 1 : b)) & m;
    case O_UDIV: return b ? a / b : m;
    case O_UREM: return b ? a % b : a;
    case O_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x >= 0 ? m : 1; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case O_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_SLT: return sx(a, w) < sx(b, w);
    case O_UMULO: { unsigned __int128 r = (unsigned __int128)a * b; return r > m; }
    case O_SMULO: { __int128 r = (__int128)sx(a, w) * sx(b, w); return r != (__int128)sx((uint64_t)r & m, w); }
    default: *ok = false; return 0;
    }
}

// Push an operation with a constant operand into an ITE tree with constant leaves.
static V mapLeaves1(Expr* t, int resw, V (*f)(uint64_t leaf, const uint64_t* arg), const uint64_t* arg, std::unordered_map<Expr*, V>& memo)
{
    if (t->op == O_CONST) return f(t->c, arg);
    auto it = memo.find(t); if (it != memo.end()) return it->second;
    V x = mapLeaves1(t->b, resw, f, arg, memo), y = mapLeaves1(t->d, resw, f, arg, memo);
    V r = mkIte(V(t->a, 0), x, y, resw);
    memo[t] = r; return r;
}
static V mapLeaves(Expr* t, int resw, V (*f)(uint64_t, const uint64_t*), const uint64_t* arg)
{
    std::unordered_map<Expr*, V> memo; return mapLeaves1(t, resw, f, arg, memo);
}
static bool isTree(V v) { return v.e && v.e->op == O_ITE && v.e->leafc; }
static V fBinR(uint64_t leaf, const uint64_t* g) { bool ok; return V(foldBin((Op)g[0], leaf, g[1], (int)g[2], &ok)); }
static V fBinL(uint64_t leaf, const uint64_t* g) { bool ok; return V(foldBin((Op)g[0], g[1], leaf, (int)g[2], &ok)); }
static V fExt(uint64_t leaf, const uint64_t* g) { return V((leaf >> g[0]) & maskw((int)g[1])); }
static V fSext(uint64_t leaf, const uint64_t* g) { return V((uint64_t)sx(leaf, (int)g[0]) & maskw((int)g[1])); }
static V fZext(uint64_t leaf, const uint64_t*) { return V(leaf); }

static V mapTree2(Op op, Expr* a, Expr* b, int w, int resw)
{
    if (a->op == O_CONST) { uint64_t g[3] = { (uint64_t)op, a->c, (uint64_t)w }; if (b->op == O_CONST) { bool ok; return V(foldBin(op, a->c, b->c, w, &ok)); } return mapLeaves(b, resw, fBinL, g); }
    V x = mapTree2(op, a->b, b, w, resw), y = mapTree2(op, a->d, b, w, resw);
    return mkIte(V(a->a, 0), x, y, resw);
}

static inline uint64_t umaxOf(V v, int w) { return v.e ? (~v.e->kz & maskw(w)) : v.c; }
static inline uint64_t kzOf(V v, int w) { return v.e ? v.e->kz : (~v.c & maskw(w)); }

// a sound upper bound through sums and constant products (used to know that nothing wraps)
static unsigned __int128 rangeMax(V v, int w, int depth)
{
    unsigned __int128 k = umaxOf(v, w), r = k; if (!v.e || depth > 6) return k;
    if (v.e->op == O_ADD) { r = rangeMax(fromE(v.e->a), w, depth + 1) + rangeMax(fromE(v.e->b), w, depth + 1); }
    else if (v.e->op == O_MUL && v.e->b->op == O_CONST) { r = rangeMax(fromE(v.e->a), w, depth + 1) * v.e->b->c; }
    else if (v.e->op == O_ZEXT) r = rangeMax(fromE(v.e->a), v.e->a->w, depth + 1);
    return r < k ? r : k;
}
// v modulo c, dropping summands that are multiples of c (nothing wraps); changed = something was dropped
static V dropMultiples(V v, uint64_t c, int w, bool* changed, int depth)
{
    if (!v.e || depth > 6) { if (!v.e && v.c >= c) { *changed = true; return V(v.c % c); } return v; }
    if (v.e->op == O_MUL && v.e->b->op == O_CONST && v.e->b->c % c == 0 && rangeMax(fromE(v.e->a), w, 0) * v.e->b->c <= maskw(w)) { *changed = true; return V(0); }
    if (v.e->op == O_ADD) { V x = fromE(v.e->a), y = fromE(v.e->b);
        if (rangeMax(x, w, 0) + rangeMax(y, w, 0) > maskw(w)) return v;
        bool ch = false; V p = dropMultiples(x, c, w, &ch, depth + 1), q = dropMultiples(y, c, w, &ch, depth + 1);
        if (!ch) return v; *changed = true; return mkBin(O_ADD, p, q, w); }
    return v;
}

V mkBin(Op op, V a, V b, int w)
{
    uint64_t m = maskw(w);
    if (!a.e && !b.e) { bool ok; return V(foldBin(op, a.c, b.c, w, &ok)); }
    bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR;
    if (comm && !a.e) std::swap(a, b);
    if (comm && a.e && b.e && a.e->id > b.e->id) std::swap(a, b);
    // leaf trees
    if (isTree(a) && !b.e && a.e->leaves <= 600) { uint64_t g[3] = { (uint64_t)op, b.c & m, (uint64_t)w }; return mapLeaves(a.e, w, fBinR, g); }
    if (isTree(b) && !a.e && b.e->leaves <= 600) { uint64_t g[3] = { (uint64_t)op, a.c & m, (uint64_t)w }; return mapLeaves(b.e, w, fBinL, g); }
    if (isTree(a) && isTree(b) && w > 1 && (int)a.e->leaves * b.e->leaves <= 16) return mapTree2(op, a.e, b.e, w, w);
    switch (op) {
    case O_ADD:
        if (!b.e) { if ((b.c & m) == 0) return a;
            if (a.e->op == O_ADD && a.e->b->op == O_CONST) return mkBin(O_ADD, fromE(a.e->a), V((a.e->b->c + b.c) & m), w); }
        else {
            if (a.e->op == O_ADD && a.e->b->op == O_CONST) return mkBin(O_ADD, mkBin(O_ADD, fromE(a.e->a), b, w), V(a.e->b->c), w);
            if (b.e->op == O_ADD && b.e->b->op == O_CONST) return mkBin(O_ADD, mkBin(O_ADD, a, fromE(b.e->a), w), V(b.e->b->c), w);
            // x + (y - x)
            if (b.e->op == O_SUB && b.e->b == a.e) return fromE(b.e->a);
            if (a.e->op == O_SUB && a.e->b == b.e) return fromE(a.e->a);
        }
        break;
    case O_SUB:
        if (a.e && b.e && a.e == b.e) return V(0);
        if (!b.e) return mkBin(O_ADD, a, V((0 - b.c) & m), w);
        if (a.e) {
            if (a.e->op == O_ADD) { // (x + y) - x
                if (a.e->a == b.e) return fromE(a.e->b);
                if (a.e->b == b.e) return fromE(a.e->a);
                if (a.e->b->op == O_CONST) return mkBin(O_ADD, mkBin(O_SUB, fromE(a.e->a), b, w), V(a.e->b->c), w);
            }
        }
        if (b.e->op == O_ADD && b.e->b->op == O_CONST) return mkBin(O_ADD, mkBin(O_SUB, a, fromE(b.e->a), w), V((0 - b.e->b->c) & m), w);
        break;
    case O_MUL:
        if (!b.e) { b.c &= m; if (b.c == 0) return V(0); if (b.c == 1) return a;
            if (a.e->op == O_MUL && a.e->b->op == O_CONST) return mkBin(O_MUL, fromE(a.e->a), V((a.e->b->c * b.c) & m), w);
            if (a.e->op == O_SHL && a.e->b->op == O_CONST && a.e->b->c < (uint64_t)w) return mkBin(O_MUL, fromE(a.e->a), V((b.c << a.e->b->c) & m), w);
            if (a.e->op == O_ADD && a.e->b->op == O_CONST) return mkBin(O_ADD, mkBin(O_MUL, fromE(a.e->a), b, w), V((a.e->b->c * b.c) & m), w);
            if ((b.c & (b.c - 1)) == 0) return mkBin(O_SHL, a, V(__builtin_ctzll(b.c)), w); }
        break;
    case O_UDIV:
        if (!b.e) { if (b.c == 1) return a; if (b.c && (b.c & (b.c - 1)) == 0) return mkBin(O_LSHR, a, V(__builtin_ctzll(b.c)), w);
            if (b.c && umaxOf(a, w) < b.c) return V(0);
            // (x * (k*c) + y) / c = x * k + y / c when nothing wraps
            if (b.c && a.e) { Expr* mul = a.e->op == O_ADD ? a.e->a : a.e; V y = a.e->op == O_ADD ? fromE(a.e->b) : V(0);
                if (mul->op == O_MUL && mul->b->op == O_CONST && mul->b->c % b.c == 0) { V x = fromE(mul->a); unsigned __int128 mx = (unsigned __int128)rangeMax(x, w, 0) * mul->b->c + rangeMax(y, w, 0);
                    if (mx <= m) return mkBin(O_ADD, mkBin(O_MUL, x, V(mul->b->c / b.c), w), mkBin(O_UDIV, y, b, w), w); } } }
        if (!a.e && a.c == 0 && !b.e) return V(0);
        break;
    case O_UREM:
        if (!b.e) { if (b.c == 1) return V(0); if (b.c && (b.c & (b.c - 1)) == 0) return mkBin(O_AND, a, V(b.c - 1), w);
            if (b.c && umaxOf(a, w) < b.c) return a;
            if (b.c && a.e && a.e->op == O_ZEXT && b.c <= maskw(a.e->a->w)) return mkZext(mkBin(O_UREM, fromE(a.e->a), V(b.c), a.e->a->w), a.e->a->w, w);
            if (b.c && a.e) { bool ch = false; V x = dropMultiples(a, b.c, w, &ch, 0); if (ch) return mkBin(O_UREM, x, b, w); } }
        break;
    case O_SDIV: case O_SREM:
        if (!b.e && (b.c >> (w - 1) & 1) == 0 && b.c && a.e && (a.e->kz >> (w - 1) & 1)) return mkBin(op == O_SDIV ? O_UDIV : O_UREM, a, b, w);
        break;
    case O_AND:
        if (!b.e) { b.c &= m; uint64_t nz = ~a.e->kz & m;
            if ((b.c & nz) == 0) return V(0);
            if ((b.c & nz) == nz) return a;
            if (a.e->op == O_AND && a.e->b->op == O_CONST) return mkBin(O_AND, fromE(a.e->a), V(a.e->b->c & b.c), w);
            if (a.e->op == O_OR) { V x = mkBin(O_AND, fromE(a.e->a), b, w), y = mkBin(O_AND, fromE(a.e->b), b, w);
                if (!x.e || !y.e || x.e == a.e->a || y.e == a.e->b) return mkBin(O_OR, x, y, w); }
            if (a.e->op == O_ITE) { V x = mkBin(O_AND, fromE(a.e->b), b, w), y = mkBin(O_AND, fromE(a.e->d), b, w);
                if (!x.e || !y.e) return mkIte(fromE(a.e->a), x, y, w); }
            // low mask -> zext(extract)
            if (w > 1 && (b.c & (b.c + 1)) == 0) { int k = 64 - __builtin_clzll(b.c); return mkZext(mkExtract(a, w, 0, k), k, w); }
        } else {
            if (a.e == b.e) return a;
            if (((~a.e->kz & m) & (~b.e->kz & m)) == 0) return V(0);
            if (w == 1) {
                if (a.e->op == O_XOR && a.e->b->op == O_CONST && a.e->a == b.e) return V(0);
                if (b.e->op == O_XOR && b.e->b->op == O_CONST && b.e->a == a.e) return V(0);
                if (a.e->op == O_AND && (a.e->a == b.e || a.e->b == b.e)) return a;
                if (b.e->op == O_AND && (b.e->a == a.e || b.e->b == a.e)) return b;
                if (a.e->op == O_OR && (a.e->a == b.e || a.e->b == b.e)) return b;
                if (b.e->op == O_OR && (b.e->a == a.e || b.e->b == a.e)) return a;
            }
        }
        break;
    case O_OR:
        if (!b.e) { b.c &= m; if (b.c == 0) return a; if (b.c == m) return V(m);
            if (a.e->op == O_OR && a.e->b->op == O_CONST) return mkBin(O_OR, fromE(a.e->a), V(a.e->b->c | b.c), w);
        } else {
            if (a.e == b.e) return a;
            if (w == 1) {
                if (a.e->op == O_XOR && a.e->b->op == O_CONST && a.e->a == b.e) return V(1);
                if (b.e->op == O_XOR && b.e->b->op == O_CONST && b.e->a == a.e) return V(1);
                if (a.e->op == O_OR && (a.e->a == b.e || a.e->b == b.e)) return a;
                if (b.e->op == O_OR && (b.e->a == a.e || b.e->b == a.e)) return b;
            }
            // zext(lo) | (x << k) with disjoint low part -> concat
            for (int t = 0; t < 2; t++) {
                Expr* z = t ? b.e : a.e; Expr* s = t ? a.e : b.e;
                if (z->op == O_ZEXT && s->op == O_SHL && s->b->op == O_CONST && s->b->c < (uint64_t)w && z->a->w == s->b->c)
                    return mkConcat(mkExtract(fromE(s->a), w, 0, w - (int)s->b->c), w - (int)s->b->c, fromE(z->a), (int)s->b->c);
            }
        }
        break;
    case O_XOR:
        if (!b.e) { b.c &= m; if (b.c == 0) return a;
            if (a.e->op == O_XOR && a.e->b->op == O_CONST) return mkBin(O_XOR, fromE(a.e->a), V(a.e->b->c ^ b.c), w);
            if (w == 1 && a.e->op == O_ITE) return mkIte(fromE(a.e->a), mkBin(O_XOR, fromE(a.e->b), b, 1), mkBin(O_XOR, fromE(a.e->d), b, 1), 1);
        } else if (a.e == b.e) return V(0);
        break;
    case O_SHL:
        if (!b.e) { if (b.c == 0) return a; if (b.c >= (uint64_t)w) return V(0);
            if (a.e->op == O_SHL && a.e->b->op == O_CONST) return mkBin(O_SHL, fromE(a.e->a), V(a.e->b->c + b.c), w); }
        break;
    case O_LSHR:
        if (!b.e) { if (b.c == 0) return a; if (b.c >= (uint64_t)w) return V(0);
            return mkZext(mkExtract(a, w, (int)b.c, w - (int)b.c), w - (int)b.c, w); }
        break;
    case O_ASHR:
        if (!b.e) { if (b.c == 0) return a; if (b.c >= (uint64_t)w) b.c = w - 1;
            return mkSext(mkExtract(a, w, (int)b.c, w - (int)b.c), w - (int)b.c, w); }
        break;
    default: break;
    }
    Expr *ea = toE(a, w), *eb = toE(b, w);
    if (comm && ea->op != O_CONST && eb->op != O_CONST && ea->id > eb->id) std::swap(ea, eb);
    return fromE(intern(op, w, 0, ea, eb, nullptr));
}

V mkOvf(Op op, V a, V b, int w)
{
    if (!a.e && !b.e) { bool ok; return V(foldBin(op, a.c, b.c, w, &ok)); }
    if (!a.e) std::swap(a, b);
    if (!b.e && (b.c == 0 || b.c == 1)) return V(0);
    if (op == O_UMULO) { unsigned __int128 s = (unsigned __int128)umaxOf(a, w) * umaxOf(b, w); if (s <= maskw(w)) return V(0);
        if (!b.e) return mkUlt(V(maskw(w) / b.c), a, w); }
    return fromE(intern(op, 1, 0, toE(a, w), toE(b, w), nullptr));
}

V mkEq(V a, V b, int w)
{
    uint64_t m = maskw(w);
    if (!a.e && !b.e) return V((a.c & m) == (b.c & m));
    if (!a.e) std::swap(a, b);
    if (a.e == b.e) return V(1);
    if (isTree(a) && !b.e && a.e->leaves <= 600) { uint64_t g[3] = { O_EQ, b.c & m, (uint64_t)w }; return mapLeaves(a.e, 1, fBinR, g); }
    if (isTree(a) && isTree(b) && (int)a.e->leaves * b.e->leaves <= 64) return mapTree2(O_EQ, a.e, b.e, w, 1);
    if (!b.e) {
        b.c &= m;
        if (b.c & a.e->kz) return V(0);
        if (w == 1) return b.c ? a : mkNot(a);
        switch (a.e->op) {
        case O_ZEXT: return mkEq(fromE(a.e->a), V(b.c), a.e->a->w);
        case O_SEXT: { int aw = a.e->a->w; if ((uint64_t)sx(b.c & maskw(aw), aw) % 1 == 0 && ((uint64_t)sx(b.c & maskw(aw), aw) & m) != b.c) return V(0); return mkEq(fromE(a.e->a), V(b.c & maskw(aw)), aw); }
        case O_ADD: if (a.e->b->op == O_CONST) return mkEq(fromE(a.e->a), V((b.c - a.e->b->c) & m), w); break;
        case O_XOR: if (a.e->b->op == O_CONST) return mkEq(fromE(a.e->a), V((b.c ^ a.e->b->c) & m), w); break;
        case O_CONCAT: { int lw = a.e->b->w; return mkAnd(mkEq(fromE(a.e->a), V(b.c >> lw), a.e->a->w), mkEq(fromE(a.e->b), V(b.c & maskw(lw)), lw)); }
        case O_SHL: if (a.e->b->op == O_CONST) { int k = (int)a.e->b->c; return mkEq(mkExtract(fromE(a.e->a), w, 0, w - k), V(b.c >> k), w - k); } break;
        case O_ITE: {
            V x = mkEq(fromE(a.e->b), b, w), y = mkEq(fromE(a.e->d), b, w);
            if (!x.e || !y.e) return mkIte(fromE(a.e->a), x, y, 1); break; }
        default: break;
        }
    } else {
        if (a.e->op == O_ZEXT && b.e->op == O_ZEXT && a.e->a->w == b.e->a->w) return mkEq(fromE(a.e->a), fromE(b.e->a), a.e->a->w);
        if (w == 1) return mkNot(mkBin(O_XOR, a, b, 1));
        if (a.e->op == O_ADD && b.e->op == O_ADD && a.e->a == b.e->a) return mkEq(fromE(a.e->b), fromE(b.e->b), w);
        if (a.e->op == O_ADD && a.e->a == b.e && a.e->b->op == O_CONST) return V(0); // x + c == x, c != 0
        if (b.e->op == O_ADD && b.e->a == a.e && b.e->b->op == O_CONST) return V(0);
        if (a.e->op == O_CONCAT && b.e->op == O_CONCAT && a.e->b->w == b.e->b->w)
            return mkAnd(mkEq(fromE(a.e->a), fromE(b.e->a), a.e->a->w), mkEq(fromE(a.e->b), fromE(b.e->b), a.e->b->w));
        if (a.e->id > b.e->id) std::swap(a, b);
    }
    return fromE(intern(O_EQ, 1, 0, toE(a, w), toE(b, w), nullptr));
}

V mkUlt(V a, V b, int w)
{
    uint64_t m = maskw(w);
    if (!a.e && !b.e) return V((a.c & m) < (b.c & m));
    if (a.e && a.e == b.e) return V(0);
    if (!b.e && (b.c & m) == 0) return V(0);
    if (!a.e && (a.c & m) == m) return V(0);
    if (isTree(a) && !b.e && a.e->leaves <= 600) { uint64_t g[3] = { O_ULT, b.c & m, (uint64_t)w }; return mapLeaves(a.e, 1, fBinR, g); }
    if (isTree(b) && !a.e && b.e->leaves <= 600) { uint64_t g[3] = { O_ULT, a.c & m, (uint64_t)w }; return mapLeaves(b.e, 1, fBinL, g); }
    uint64_t bmin = b.e ? 0 : b.c & m, amin = a.e ? 0 : a.c & m;
    if (umaxOf(a, w) < bmin) return V(1);
    if (umaxOf(b, w) <= amin) return V(0);
    if (!b.e && (b.c & m) == 1) return mkEq(a, V(0), w);
    if (!a.e && (a.c & m) == 0) return mkNot(mkEq(b, V(0), w));
    if (a.e && a.e->op == O_ZEXT) { int aw = a.e->a->w;
        if (!b.e) return mkUlt(fromE(a.e->a), V(b.c), aw);   // b.c <= umax here
        if (b.e->op == O_ZEXT && b.e->a->w == aw) return mkUlt(fromE(a.e->a), fromE(b.e->a), aw); }
    if (!a.e && b.e->op == O_ZEXT) return mkUlt(V(a.c), fromE(b.e->a), b.e->a->w);
    if (w == 1) return mkAnd(mkNot(a), b);
    return fromE(intern(O_ULT, 1, 0, toE(a, w), toE(b, w), nullptr));
}

V mkSlt(V a, V b, int w)
{
    uint64_t m = maskw(w);
    if (!a.e && !b.e) return V(sx(a.c & m, w) < sx(b.c & m, w));
    if (a.e && a.e == b.e) return V(0);
    if (isTree(a) && !b.e && a.e->leaves <= 600) { uint64_t g[3] = { O_SLT, b.c & m, (uint64_t)w }; return mapLeaves(a.e, 1, fBinR, g); }
    if (isTree(b) && !a.e && b.e->leaves <= 600) { uint64_t g[3] = { O_SLT, a.c & m, (uint64_t)w }; return mapLeaves(b.e, 1, fBinL, g); }
    bool an = kzOf(a, w) >> (w - 1) & 1, bn = kzOf(b, w) >> (w - 1) & 1;   // known non-negative
    if (an && bn) return mkUlt(a, b, w);
    if (an && !b.e && (b.c >> (w - 1) & 1)) return V(0);
    if (bn && !a.e && (a.c >> (w - 1) & 1)) return V(1);
    if (a.e && a.e->op == O_SEXT) { int aw = a.e->a->w;
        if (!b.e) { int64_t bv = sx(b.c & m, w); int64_t lo = -(int64_t)(1ULL << (aw - 1)), hi = (int64_t)((1ULL << (aw - 1)) - 1);
            if (bv > hi) return V(1); if (bv <= lo) return V(0); return mkSlt(fromE(a.e->a), V(b.c & maskw(aw)), aw); }
        if (b.e->op == O_SEXT && b.e->a->w == aw) return mkSlt(fromE(a.e->a), fromE(b.e->a), aw); }
    if (!a.e && b.e->op == O_SEXT) { int bw = b.e->a->w; int64_t av = sx(a.c & m, w); int64_t lo = -(int64_t)(1ULL << (bw - 1)), hi = (int64_t)((1ULL << (bw - 1)) - 1);
        if (av >= hi) return V(0); if (av < lo) return V(1); return mkSlt(V(a.c & maskw(bw)), fromE(b.e->a), bw); }
    return fromE(intern(O_SLT, 1, 0, toE(a, w), toE(b, w), nullptr));
}

V mkIte(V c, V a, V b, int w)
{
    if (!c.e) return (c.c & 1) ? a : b;
    uint64_t m = maskw(w);
    if (!a.e) a.c &= m; if (!b.e) b.c &= m;
    if (a.e == b.e && (a.e || a.c == b.c)) return a;
    if (c.e->op == O_XOR && c.e->b->op == O_CONST) return mkIte(fromE(c.e->a), b, a, w);
    if (a.e && a.e->op == O_ITE && a.e->a == c.e) a = fromE(a.e->b);
    if (b.e && b.e->op == O_ITE && b.e->a == c.e) b = fromE(b.e->d);
    if (a.e == b.e && (a.e || a.c == b.c)) return a;
    if (w == 1) {
        if (!a.e && !b.e) return a.c ? c : mkNot(c);
        if (!a.e) return a.c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (!b.e) return b.c ? mkOr(mkNot(c), a) : mkAnd(c, a);
        if (a.e == c.e) return mkOr(c, b);
        if (b.e == c.e) return mkAnd(c, a);
    }
    return fromE(intern(O_ITE, w, 0, c.e, toE(a, w), toE(b, w)));
}

V mkConcat(V hi, int wh, V lo, int wl)
{
    int w = wh + wl;
    if (!hi.e && !lo.e) return V(((hi.c & maskw(wh)) << wl) | (lo.c & maskw(wl)));
    if (!hi.e && (hi.c & maskw(wh)) == 0) return mkZext(lo, wl, w);
    if (hi.e && lo.e) {
        Expr *h = hi.e, *l = lo.e;
        // adjacent extracts (lo may be a full expression x itself when hi = extract beyond: not possible)
        if (h->op == O_EXTRACT && l->op == O_EXTRACT && h->a == l->a && h->c == l->c + wl) return mkExtract(fromE(h->a), h->a->w, (int)l->c, w);
        if (h->op == O_EXTRACT && l->op == O_CONCAT && l->a->op == O_EXTRACT && h->a == l->a->a && h->c == l->a->c + l->a->w)
            return mkConcat(mkExtract(fromE(h->a), h->a->w, (int)l->a->c, wh + l->a->w), wh + l->a->w, fromE(l->b), l->b->w);
        if (h->op == O_ITE && l->op == O_ITE && h->a == l->a && h->leafc && l->leafc)
            return mkIte(fromE(h->a), mkConcat(fromE(h->b), wh, fromE(l->b), wl), mkConcat(fromE(h->d), wh, fromE(l->d), wl), w);
    }
    if (hi.e && hi.e->op == O_ZEXT) { // concat(zext(x), lo) = zext(concat(x, lo))
        int xw = hi.e->a->w; return mkZext(mkConcat(fromE(hi.e->a), xw, lo, wl), xw + wl, w); }
    if (lo.e && lo.e->op == O_ZEXT && !hi.e) {}
    return fromE(intern(O_CONCAT, w, 0, toE(hi, wh), toE(lo, wl), nullptr));
}

V mkExtract(V a, int aw, int off, int w)
{
    if (!a.e) return V((a.c >> off) & maskw(w));
    if (off == 0 && w == aw) return a;
    Expr* e = a.e;
    uint64_t m = maskw(w);
    if (((e->kz >> off) & m) == m) return V(0);
    switch (e->op) {
    case O_EXTRACT: return mkExtract(fromE(e->a), e->a->w, off + (int)e->c, w);
    case O_ZEXT: { int xw = e->a->w;
        if (off >= xw) return V(0);
        if (off + w <= xw) return mkExtract(fromE(e->a), xw, off, w);
        return mkZext(mkExtract(fromE(e->a), xw, off, xw - off), xw - off, w); }
    case O_SEXT: { int xw = e->a->w;
        if (off + w <= xw) return mkExtract(fromE(e->a), xw, off, w);
        if (off == 0) return mkSext(fromE(e->a), xw, w);
        if (off < xw) return mkSext(mkExtract(fromE(e->a), xw, off, xw - off), xw - off, w);
        break; }
    case O_CONCAT: { int lw = e->b->w;
        if (off + w <= lw) return mkExtract(fromE(e->b), lw, off, w);
        if (off >= lw) return mkExtract(fromE(e->a), e->a->w, off - lw, w);
        return mkConcat(mkExtract(fromE(e->a), e->a->w, 0, off + w - lw), off + w - lw, mkExtract(fromE(e->b), lw, off, lw - off), lw - off); }
    case O_AND: case O_OR: case O_XOR:
        return mkBin(e->op, mkExtract(fromE(e->a), aw, off, w), mkExtract(fromE(e->b), aw, off, w), w);
    case O_SHL: if (e->b->op == O_CONST) { int k = (int)e->b->c;
        if (off >= k) return mkExtract(fromE(e->a), aw, off - k, w);
        if (off + w <= k) return V(0);
        return mkConcat(mkExtract(fromE(e->a), aw, 0, off + w - k), off + w - k, V(0), k - off); } break;
    case O_ADD: if (off == 0 && e->b->op == O_CONST && (e->a->op == O_ZEXT || e->a->op == O_SEXT)) return mkBin(O_ADD, mkExtract(fromE(e->a), aw, 0, w), V(e->b->c & m), w); break;
    case O_ITE:
        if (e->leafc && !(w == 8 && aw > 8) && e->leaves <= 600) { uint64_t g[2] = { (uint64_t)off, (uint64_t)w }; return mapLeaves(e, w, fExt, g); }
        if (!(w == 8 && aw > 8)) { V x = mkExtract(fromE(e->b), aw, off, w), y = mkExtract(fromE(e->d), aw, off, w); return mkIte(fromE(e->a), x, y, w); }
        break;
    default: break;
    }
    return fromE(intern(O_EXTRACT, w, off, e, nullptr, nullptr));
}

V mkZext(V a, int aw, int w)
{
    if (!a.e) return V(a.c & maskw(aw));
    if (aw == w) return a;
    if (a.e->op == O_ZEXT) return mkZext(fromE(a.e->a), a.e->a->w, w);
    if (isTree(a) && a.e->leaves <= 600) return mapLeaves(a.e, w, fZext, nullptr);
    return fromE(intern(O_ZEXT, w, 0, a.e, nullptr, nullptr));
}

V mkSext(V a, int aw, int w)
{
    if (!a.e) return V((uint64_t)sx(a.c & maskw(aw), aw) & maskw(w));
    if (aw == w) return a;
    if (a.e->kz >> (aw - 1) & 1) return mkZext(a, aw, w);
    if (a.e->op == O_SEXT) return mkSext(fromE(a.e->a), a.e->a->w, w);
    if (isTree(a) && a.e->leaves <= 600) { uint64_t g[2] = { (uint64_t)aw, (uint64_t)w }; return mapLeaves(a.e, w, fSext, g); }
    return fromE(intern(O_SEXT, w, 0, a.e, nullptr, nullptr));
}

static uint64_t g_evEpoch = 1;
void evalNewEpoch() { g_evEpoch++; }

uint64_t evalExpr(Expr* e, const ModelV& mo)
{
    if (e->op == O_CONST) return e->c;
    if (e->evEpoch == g_evEpoch) return e->evVal;
    uint64_t r = 0; uint64_t m = maskw(e->w);
    switch (e->op) {
    case O_VAR: r = e->c < mo.size() ? mo[e->c] & m : 0; break;
    case O_ITE: r = evalExpr(e->a, mo) ? evalExpr(e->b, mo) : evalExpr(e->d, mo); break;
    case O_CONCAT: r = (evalExpr(e->a, mo) << e->b->w) | evalExpr(e->b, mo); break;
    case O_EXTRACT: r = (evalExpr(e->a, mo) >> e->c) & m; break;
    case O_ZEXT: r = evalExpr(e->a, mo); break;
    case O_SEXT: r = (uint64_t)sx(evalExpr(e->a, mo), e->a->w) & m; break;
    default: { bool ok; r = foldBin(e->op, evalExpr(e->a, mo), evalExpr(e->b, mo), e->a->w, &ok); break; }
    }
    e->evEpoch = g_evEpoch; e->evVal = r;
    return r;
}

static const char* opn[] = { "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "ite", "concat", "extract", "zext", "sext", "umulo", "smulo" };
std::string exprStr(Expr* e, int depth)
{
    char b[64];
    if (e->op == O_CONST) { snprintf(b, sizeof b, "0x%llx", (unsigned long long)e->c); return b; }
    if (e->op == O_VAR) { snprintf(b, sizeof b, "v%llu", (unsigned long long)e->c); return b; }
    if (depth == 0) return "..";
    std::string s = std::string("(") + opn[e->op];
    if (e->op == O_EXTRACT) { snprintf(b, sizeof b, "[%d:%d]", (int)e->c, e->w); s += b; }
    if (e->a) s += " " + exprStr(e->a, depth - 1);
    if (e->b) s += " " + exprStr(e->b, depth - 1);
    if (e->d) s += " " + exprStr(e->d, depth - 1);
    return s + ")";
}
