#include "expr.h"
#include <cmath>
#include <cstdio>
#include <algorithm>

std::vector<VarInfo> g_vars;
std::vector<Expr*>   g_varExprs;

static std::vector<Expr*> s_table(1 << 16, nullptr);
static size_t s_count = 0;
static uint32_t s_nextid = 1;

static char*  s_arena = nullptr;
static size_t s_left  = 0;
static Expr* allocExpr()
{
    if (s_left < sizeof(Expr)) {
        s_left  = 1 << 20;
        s_arena = (char*)aligned_alloc(16, s_left);
    }
    size_t sz = (sizeof(Expr) + 15) & ~size_t(15);
    if (s_left < sz) { s_left = 0; return allocExpr(); }
    Expr* e = new (s_arena) Expr();
    s_arena += sz;
    s_left -= sz;
    return e;
}

size_t exprCount() { return s_count; }

static uint32_t hmix(uint32_t h, uint64_t x)
{
    uint64_t y = (h ^ x) * 0x9E3779B97F4A7C15ULL;
    return (uint32_t)(y >> 29) ^ (uint32_t)y;
}

static Expr* intern(uint8_t op, uint16_t w, uint32_t aux, u128 val, int nk, Expr* a, Expr* b, Expr* c)
{
    uint32_t h = hmix(0x1234567u + op, w * 131u + aux);
    h = hmix(h, (uint64_t)val);
    h = hmix(h, (uint64_t)(val >> 64));
    if (nk > 0) h = hmix(h, a->id);
    if (nk > 1) h = hmix(h, b->id + 0x55555ULL);
    if (nk > 2) h = hmix(h, c->id + 0xAAAAAAULL);
    size_t mask = s_table.size() - 1;
    size_t i = h & mask;
    while (s_table[i]) {
        Expr* e = s_table[i];
        if (e->hash == h && e->op == op && e->w == w && e->aux == aux && e->val == val && e->nk == nk
            && (nk < 1 || e->k[0] == a) && (nk < 2 || e->k[1] == b) && (nk < 3 || e->k[2] == c))
            return e;
        i = (i + 1) & mask;
    }
    Expr* e = allocExpr();
    e->op = op; e->w = w; e->aux = aux; e->val = val; e->nk = nk; e->hash = h; e->id = s_nextid++;
    e->k[0] = a; e->k[1] = b; e->k[2] = c;
    s_table[i] = e;
    if (++s_count * 2 > s_table.size()) {
        std::vector<Expr*> old;
        old.swap(s_table);
        s_table.assign(old.size() * 2, nullptr);
        size_t m2 = s_table.size() - 1;
        for (Expr* x : old)
            if (x) {
                size_t j = x->hash & m2;
                while (s_table[j]) j = (j + 1) & m2;
                s_table[j] = x;
            }
    }
    return e;
}

Expr* mkConst(u128 v, unsigned w) { return intern(E_CONST, w, 0, v & wmask(w), 0, 0, 0, 0); }

Expr* mkVar(const std::string& name, unsigned w)
{
    uint32_t id = g_vars.size();
    g_vars.push_back({ name, w });
    Expr* e = intern(E_VAR, w, id, 0, 0, 0, 0, 0);
    g_varExprs.push_back(e);
    return e;
}

Expr* mkAgg(const std::vector<V>& v, const std::vector<uint16_t>& w)
{
    Expr* e = allocExpr();
    e->op = E_AGG; e->nk = 0; e->w = 0;
    e->agg = new AggData { v, w };
    return e;
}

template <class T, class U> static T bitc(U u) { T t; memcpy(&t, &u, sizeof(T)); return t; }

u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok)
{
    ok = true;
    u128 m = wmask(w);
    switch (op) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: if (!b) { return m; } return a / b;
    case E_UREM: if (!b) { return a; } return a % b;
    case E_SDIV: {
        s128 x = sext128(a, w), y = sext128(b, w);
        if (!y) return x < 0 ? 1 : m;
        if (y == -1) return (u128)(-(u128)x) & m;
        return (u128)(x / y) & m;
    }
    case E_SREM: {
        s128 x = sext128(a, w), y = sext128(b, w);
        if (!y) return a;
        if (y == -1) return 0;
        return (u128)(x % y) & m;
    }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case E_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case E_ASHR: {
        s128 x = sext128(a, w);
        unsigned s = b >= w ? w - 1 : (unsigned)b;
        return (u128)(x >> s) & m;
    }
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sext128(a, w) < sext128(b, w);
    case E_SLE: return sext128(a, w) <= sext128(b, w);
    case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_FREM:
        if (w == 64) {
            double x = bitc<double>((uint64_t)a), y = bitc<double>((uint64_t)b), r;
            switch (op) { case E_FADD: r = x + y; break; case E_FSUB: r = x - y; break; case E_FMUL: r = x * y; break;
            case E_FDIV: r = x / y; break; default: r = fmod(x, y); }
            return bitc<uint64_t>(r);
        } else if (w == 32) {
            float x = bitc<float>((uint32_t)a), y = bitc<float>((uint32_t)b), r;
            switch (op) { case E_FADD: r = x + y; break; case E_FSUB: r = x - y; break; case E_FMUL: r = x * y; break;
            case E_FDIV: r = x / y; break; default: r = fmodf(x, y); }
            return bitc<uint32_t>(r);
        }
        break;
    case E_FEQ: case E_FLT: case E_FLE: {
        double x, y;
        if (w == 64) { x = bitc<double>((uint64_t)a); y = bitc<double>((uint64_t)b); }
        else if (w == 32) { x = bitc<float>((uint32_t)a); y = bitc<float>((uint32_t)b); }
        else break;
        return op == E_FEQ ? x == y : op == E_FLT ? x < y : x <= y;
    }
    default: break;
    }
    ok = false;
    return 0;
}

u128 foldF1(Op op, u128 a, unsigned wa, unsigned w, unsigned aux, bool& ok)
{
    ok = true;
    double x = 0;
    if (op != E_SITOF && op != E_UITOF) {
        if (wa == 64) x = bitc<double>((uint64_t)a);
        else if (wa == 32) x = bitc<float>((uint32_t)a);
        else { ok = false; return 0; }
    }
    switch (op) {
    case E_FISNAN: return x != x;
    case E_FSQRT: return w == 64 ? (u128)bitc<uint64_t>(sqrt(x)) : (u128)bitc<uint32_t>(sqrtf((float)x));
    case E_FRINT: {
        double r = aux == 0 ? nearbyint(x) : aux == 1 ? floor(x) : aux == 2 ? ceil(x) : aux == 3 ? trunc(x) : round(x);
        return w == 64 ? (u128)bitc<uint64_t>(r) : (u128)bitc<uint32_t>((float)r);
    }
    case E_FTOSI: {
        // x86 semantics: out of range -> indefinite value of the (32|64)-bit conversion, truncated
        unsigned cw = w <= 32 ? 32 : 64;
        if (cw == 32 && w == 32) { if (!(x > -2147483649.0 && x < 2147483648.0)) return 0x80000000u; return (uint32_t)(int32_t)x; }
        if (cw == 32) { if (!(x > -2147483649.0 && x < 2147483648.0)) return 0x80000000u & (uint32_t)wmask(w); return (uint32_t)(int32_t)x & (uint32_t)wmask(w); }
        if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 0x8000000000000000ULL;
        return (uint64_t)(int64_t)x;
    }
    case E_FTOUI: {
        if (w <= 32) { if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 0; return (uint64_t)(int64_t)x & (uint64_t)wmask(w); }
        if (x >= 9223372036854775808.0 && x < 18446744073709551616.0) return (uint64_t)x;
        if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return 0x8000000000000000ULL;
        return (uint64_t)(int64_t)x;
    }
    case E_SITOF: { s128 s = sext128(a, wa); return w == 64 ? (u128)bitc<uint64_t>((double)(int64_t)s) : (u128)bitc<uint32_t>((float)(int64_t)s); }
    case E_UITOF: { return w == 64 ? (u128)bitc<uint64_t>((double)(uint64_t)a) : (u128)bitc<uint32_t>((float)(uint64_t)a); }
    case E_FTOF:
        if (w == 64) return bitc<uint64_t>((double)x);
        if (w == 32) return bitc<uint32_t>((float)x);
        break;
    default: break;
    }
    ok = false;
    return 0;
}

static bool isCmp(Op op) { return (op >= E_EQ && op <= E_SLE) || op == E_FEQ || op == E_FLT || op == E_FLE; }
static bool isComm(Op op) { return op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ || op == E_FADD || op == E_FMUL || op == E_FEQ; }

Expr* mkNot(Expr* a)
{
    return mkBin(E_XOR, a, mkConst(1, 1));
}
static bool isNot(Expr* a) { return a->w == 1 && a->op == E_XOR && a->k[1]->op == E_CONST; }

// sums in a canonical form: terms in order of their ids, then subtracted terms, then the constant
namespace {
struct Lin {
    enum { MAX = 12 };
    Expr* t[MAX];
    u128  c[MAX];
    int   n = 0;
    u128  k = 0;
    bool  collect(Expr* e, u128 coef, int depth = 0)
    {
        unsigned w = e->w;
        if (isConst(e)) { k += coef * e->val; return true; }
        if (depth < 24) {
            if (e->op == E_ADD) return collect(e->k[0], coef, depth + 1) && collect(e->k[1], coef, depth + 1);
            if (e->op == E_SUB) return collect(e->k[0], coef, depth + 1) && collect(e->k[1], (u128)0 - coef, depth + 1);
            if (e->op == E_MUL && isConst(e->k[1])) return collect(e->k[0], coef * e->k[1]->val, depth + 1);
            if (e->op == E_SHL && isConst(e->k[1]) && e->k[1]->val < w) return collect(e->k[0], coef << (unsigned)e->k[1]->val, depth + 1);
        }
        for (int i = 0; i < n; ++i) if (t[i] == e) { c[i] += coef; return true; }
        if (n == MAX) return false;
        int i = n++;
        while (i > 0 && t[i - 1]->id > e->id) { t[i] = t[i - 1]; c[i] = c[i - 1]; --i; }
        t[i] = e; c[i] = coef;
        return true;
    }
    Expr* build(unsigned w)
    {
        u128  m = wmask(w);
        Expr* acc = nullptr;
        for (int sign = 0; sign < 2; ++sign)
            for (int i = 0; i < n; ++i) {
                u128 x = c[i] & m;
                if (!x) continue;
                bool neg = sext128(x, w) < 0 && x != ((u128)1 << (w - 1));
                if (neg != (sign == 1)) continue;
                if (neg) x = ((u128)0 - x) & m;
                Expr* e = x == 1 ? t[i] : mkBin(E_MUL, t[i], mkConst(x, w));
                if (isConst(e)) { k += neg ? (u128)0 - e->val : e->val; continue; }
                if (!neg) {
                    if (!acc) acc = e;
                    else acc = acc->id < e->id ? intern(E_ADD, w, 0, 0, 2, acc, e, nullptr) : intern(E_ADD, w, 0, 0, 2, e, acc, nullptr);
                } else
                    acc = intern(E_SUB, w, 0, 0, 2, acc ? acc : mkConst(0, w), e, nullptr);
            }
        k &= m;
        if (!acc) return mkConst(k, w);
        if (!k) return acc;
        if (acc->op == E_SUB && isConst(acc->k[0])) return intern(E_SUB, w, 0, 0, 2, mkConst(acc->k[0]->val + k, w), acc->k[1], nullptr);
        if (acc->op == E_ITE && isConst(acc->k[1]) && isConst(acc->k[2])) return mkIte(acc->k[0], mkConst(acc->k[1]->val + k, w), mkConst(acc->k[2]->val + k, w));
        return intern(E_ADD, w, 0, 0, 2, acc, mkConst(k, w), nullptr);
    }
};
}

// Doubles that are exactly i * 2^k for a small integer i: arithmetic on them is exact, comparisons are integer comparisons.
namespace {
double signedBound(Expr* e, int depth = 0)
{
    if (isConst(e)) return e->w <= 64 ? fabs((double)sext128(e->val, e->w)) : 1e300;
    if (e->w > 64 || depth > 24) return 1e300;
    double dflt = ldexp(1.0, e->w - 1);
    uint64_t lo, hi;
    exprRange(e, lo, hi);
    if (hi < (1ULL << (e->w - 1))) dflt = (double)hi;
    double r = dflt;
    switch (e->op) {
    case E_SEXT: r = signedBound(e->k[0], depth + 1); break;
    case E_ADD: case E_SUB: r = signedBound(e->k[0], depth + 1) + signedBound(e->k[1], depth + 1); break;
    case E_MUL: r = signedBound(e->k[0], depth + 1) * signedBound(e->k[1], depth + 1); break;
    case E_ITE: r = std::max(signedBound(e->k[1], depth + 1), signedBound(e->k[2], depth + 1)); break;
    default: break;
    }
    return std::min(r, dflt);
}
const double DY_MAX = 9007199254740992.0;
struct Dy {
    Expr*  i = nullptr;
    int    k = 0;
    double b = 0;
    bool scale(int to) // represent with exponent to <= k
    {
        if (isConst(i) && !i->val) { k = to; return true; }
        if (k - to > 52) return false;
        double nb = ldexp(b, k - to);
        if (nb > DY_MAX * 256) return false;
        if (k != to) i = mkBin(E_MUL, i, mkConst((u128)1 << (k - to), 64));
        b = nb; k = to;
        return true;
    }
};
bool align(Dy& x, Dy& y) { int k = isConst(x.i) && !x.i->val ? y.k : isConst(y.i) && !y.i->val ? x.k : std::min(x.k, y.k); return x.scale(k) && y.scale(k); }
bool dyadic(Expr* e, Dy& d, int depth = 0)
{
    if (e->w != 64 || depth > 32) return false;
    Dy x, y;
    switch (e->op) {
    case E_CONST: {
        double v = bitc<double>((uint64_t)e->val);
        if (!(fabs(v) <= 1e300)) return false;
        int ex = 0;
        double m = frexp(v, &ex);
        int64_t i = (int64_t)ldexp(m, 53);
        ex -= 53;
        if (!i) ex = 0;
        while (i && !(i & 1)) { i /= 2; ++ex; }
        d.i = mkConst((u128)(uint64_t)i, 64); d.k = ex; d.b = fabs((double)i);
        return true;
    }
    case E_SITOF: {
        Expr* a = e->k[0];
        if (a->w > 64) return false;
        d.b = signedBound(a);
        if (d.b > DY_MAX) return false;
        d.i = mkSext(a, 64); d.k = 0;
        return true;
    }
    case E_UITOF: {
        Expr* a = e->k[0];
        if (a->w > 64) return false;
        uint64_t lo, hi;
        exprRange(a, lo, hi);
        if ((double)hi > DY_MAX) return false;
        d.i = mkZext(a, 64); d.k = 0; d.b = (double)hi;
        return true;
    }
    case E_FADD: case E_FSUB:
        if (!dyadic(e->k[0], x, depth + 1) || !dyadic(e->k[1], y, depth + 1) || !align(x, y)) return false;
        d.b = x.b + y.b; d.k = x.k;
        if (d.b > DY_MAX) return false;
        d.i = mkBin(e->op == E_FADD ? E_ADD : E_SUB, x.i, y.i);
        return true;
    case E_FMUL:
        if (!dyadic(e->k[0], x, depth + 1) || !dyadic(e->k[1], y, depth + 1)) return false;
        d.b = x.b * y.b; d.k = x.k + y.k;
        if (d.b > DY_MAX || d.k < -900 || d.k > 900) return false;
        d.i = mkBin(E_MUL, x.i, y.i);
        return true;
    case E_FDIV:
        if (!dyadic(e->k[1], y, depth + 1) || y.b != 1 || !isConst(y.i) || !dyadic(e->k[0], x, depth + 1)) return false;
        d.i = y.i->val == 1 ? x.i : mkBin(E_SUB, mkConst(0, 64), x.i);
        d.k = x.k - y.k; d.b = x.b;
        return d.k > -900 && d.k < 900;
    case E_XOR: // negation
        if (!isConst(e->k[1]) || e->k[1]->val != (u128)1 << 63 || !dyadic(e->k[0], x, depth + 1)) return false;
        d = x;
        d.i = mkBin(E_SUB, mkConst(0, 64), x.i);
        return true;
    case E_ITE:
        if (!dyadic(e->k[1], x, depth + 1) || !dyadic(e->k[2], y, depth + 1) || !align(x, y)) return false;
        d.i = mkIte(e->k[0], x.i, y.i); d.k = x.k; d.b = std::max(x.b, y.b);
        return d.b <= DY_MAX;
    default: return false;
    }
}
// a bound for the magnitude of a double that is not NaN, or infinity
double magBound(Expr* e, int depth = 0)
{
    if (e->w != 64 || depth > 24) return INFINITY;
    switch (e->op) {
    case E_CONST: { double v = fabs(bitc<double>((uint64_t)e->val)); return v <= 1e300 ? v : INFINITY; }
    case E_SITOF: case E_UITOF: return e->k[0]->w <= 64 ? 2e19 : INFINITY;
    case E_FADD: case E_FSUB: { double r = magBound(e->k[0], depth + 1) + magBound(e->k[1], depth + 1); return r < 1e300 ? r * 1.001 : INFINITY; }
    case E_FMUL: { double r = magBound(e->k[0], depth + 1) * magBound(e->k[1], depth + 1); return r < 1e300 ? r * 1.001 : INFINITY; }
    case E_FDIV: {
        if (!isConst(e->k[1])) return INFINITY;
        double c = fabs(bitc<double>((uint64_t)e->k[1]->val));
        if (!(c >= 1e-300)) return INFINITY;
        double r = magBound(e->k[0], depth + 1) / c;
        return r < 1e300 ? r * 1.001 : INFINITY;
    }
    case E_XOR: return isConst(e->k[1]) && e->k[1]->val == (u128)1 << 63 ? magBound(e->k[0], depth + 1) : INFINITY;
    case E_ITE: return std::max(magBound(e->k[1], depth + 1), magBound(e->k[2], depth + 1));
    default: return INFINITY;
    }
}
}

Expr* mkBin(Op op, Expr* a, Expr* b)
{
    if (op == E_FEQ || op == E_FLT || op == E_FLE) {
        if (a == b && op == E_FEQ) return mkNot(mkF1(E_FISNAN, a, 1));
        Dy x, y;
        if (!(isConst(a) && isConst(b)) && dyadic(a, x) && dyadic(b, y) && align(x, y))
            return mkBin(op == E_FEQ ? E_EQ : op == E_FLT ? E_SLT : E_SLE, x.i, y.i);
    }
    if (op == E_FMUL && a->w == 64) {
        const u128 one = bitc<uint64_t>(1.0);
        if (isConst(a) && a->val == one) return b;
        if (isConst(b) && b->val == one) return a;
    }
    if (op == E_FDIV && a->w == 64 && isConst(b) && b->val == (u128)bitc<uint64_t>(1.0)) return a;
    if ((op == E_ADD || op == E_SUB) && a->w > 1 && a->w <= 64 && !isConst(a) && !isConst(b)) {
        Lin l;
        if (l.collect(a, 1) && l.collect(b, op == E_ADD ? (u128)1 : (u128)0 - 1)) return l.build(a->w);
    }
    if (op == E_EQ && a->w > 1 && a->w <= 64 && !isConst(a) && !isConst(b) && (a->op == E_ADD || a->op == E_SUB || b->op == E_ADD || b->op == E_SUB)) {
        Lin l, x, y;
        if (l.collect(a, 1) && l.collect(b, (u128)0 - 1) && x.collect(a, 1) && y.collect(b, 1)) {
            u128 m = wmask(a->w);
            int  live = 0;
            for (int i = 0; i < l.n; ++i) live += (l.c[i] & m) != 0;
            if (!live) return mkConst((l.k & m) == 0, 1);
            if (live < x.n + y.n) { // common terms cancel
                Lin p, q;
                for (int i = 0; i < l.n; ++i) {
                    u128 c = l.c[i] & m;
                    if (!c) continue;
                    bool neg = sext128(c, a->w) < 0;
                    Lin& d = neg ? q : p;
                    d.t[d.n] = l.t[i]; d.c[d.n++] = neg ? (u128)0 - c : c;
                }
                q.k = (u128)0 - l.k;
                Expr* e = p.build(a->w); Expr* f = q.build(a->w);
                if (isConst(e) || isConst(f) || !(e == a && f == b)) {
                    if (!((e == a && f == b) || (e == b && f == a))) return mkBin(E_EQ, e, f);
                }
            }
        }
    }
    if (isComm(op)) {
        if (isConst(a) && !isConst(b)) std::swap(a, b);
        else if (!isConst(b) && a->id > b->id) std::swap(a, b);
    }
    unsigned w = a->w;
    if (isConst(a) && isConst(b)) {
        bool ok;
        u128 r = foldBin(op, a->val, b->val, w, ok);
        if (ok) return mkConst(r, isCmp(op) ? 1 : w);
    }
    u128 m = wmask(w);
    switch (op) {
    case E_ADD:
        if (isConst(b)) {
            if (b->val == 0) return a;
            if (a->op == E_ADD && isConst(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(a->k[1]->val + b->val, w));
            if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2]))
                return mkIte(a->k[0], mkConst(a->k[1]->val + b->val, w), mkConst(a->k[2]->val + b->val, w));
        } else {
            if (a->op == E_ADD && isConst(a->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a->k[0], b), a->k[1]);
            if (b->op == E_ADD && isConst(b->k[1])) return mkBin(E_ADD, mkBin(E_ADD, a, b->k[0]), b->k[1]);
            if (a->op == E_SUB && a->k[1] == b) return a->k[0];
            if (b->op == E_SUB && b->k[1] == a) return b->k[0];
        }
        break;
    case E_SUB:
        if (a == b) return mkConst(0, w);
        if (isConst(b)) return mkBin(E_ADD, a, mkConst((~b->val + 1) & m, w));
        if (isConst(a) && b->op == E_SUB && isConst(b->k[0])) return mkBin(E_ADD, b->k[1], mkConst((a->val - b->k[0]->val) & m, w));
        if (isConst(a) && b->op == E_ADD && isConst(b->k[1]) && b->k[1]->val) return mkBin(E_SUB, mkConst((a->val - b->k[1]->val) & m, w), b->k[0]);
        if (a->op == E_ADD && a->k[0] == b) return a->k[1];
        if (a->op == E_ADD && a->k[1] == b) return a->k[0];
        if (a->op == E_ADD && b->op == E_ADD && a->k[0] == b->k[0]) return mkBin(E_SUB, a->k[1], b->k[1]);
        if (b->op == E_ADD && b->k[0] == a) return mkBin(E_SUB, mkConst(0, w), b->k[1]);
        break;
    case E_MUL:
        if (isConst(b)) {
            if (b->val == 0) return b;
            if (b->val == 1) return a;
            u128 v = b->val;
            if ((v & (v - 1)) == 0) { unsigned s = 0; while (((v >> s) & 1) == 0) ++s; return mkBin(E_SHL, a, mkConst(s, w)); }
        }
        break;
    case E_UDIV:
        if (isConst(b)) {
            u128 v = b->val;
            if (v == 1) return a;
            if (v && (v & (v - 1)) == 0) { unsigned s = 0; while (((v >> s) & 1) == 0) ++s; return mkBin(E_LSHR, a, mkConst(s, w)); }
            if (w <= 64) { uint64_t lo, hi; exprRange(a, lo, hi); if (hi < (uint64_t)v) return mkConst(0, w);
                if (lo >= (uint64_t)v) { uint64_t base = lo - lo % (uint64_t)v; return mkBin(E_ADD, mkBin(E_UDIV, mkBin(E_SUB, a, mkConst(base, w)), b), mkConst(base / (uint64_t)v, w)); }
                // narrow the division
                unsigned need = 64 - (hi ? __builtin_clzll(hi) : 63); unsigned nv = 64 - __builtin_clzll((uint64_t)v);
                if (nv > need) need = nv;
                if (need + 8 <= w) { return mkZext(mkBin(E_UDIV, mkExtract(a, 0, need), mkConst(v, need)), w); } }
        }
        break;
    case E_UREM:
        if (isConst(b)) {
            u128 v = b->val;
            if (v == 1) return mkConst(0, w);
            if (v && (v & (v - 1)) == 0) return mkBin(E_AND, a, mkConst(v - 1, w));
            if (v && w <= 64) { uint64_t lo, hi; exprRange(a, lo, hi); if (hi < (uint64_t)v) return a;
                if (lo >= (uint64_t)v) { uint64_t base = lo - lo % (uint64_t)v; return mkBin(E_UREM, mkBin(E_SUB, a, mkConst(base, w)), b); }
                unsigned need = 64 - (hi ? __builtin_clzll(hi) : 63); unsigned nv = 64 - __builtin_clzll((uint64_t)v);
                if (nv > need) need = nv;
                if (need + 8 <= w) { return mkZext(mkBin(E_UREM, mkExtract(a, 0, need), mkConst(v, need)), w); } }
        }
        break;
    case E_SDIV:
        if (isConst(b) && b->val == 1) return a;
        if (w <= 64) {
            uint64_t lo, hi, lo2, hi2; exprRange(a, lo, hi); exprRange(b, lo2, hi2);
            uint64_t half = 1ULL << (w - 1);
            if (hi < half && hi2 < half) return mkBin(E_UDIV, a, b);
        }
        break;
    case E_SREM:
        if (w <= 64) {
            uint64_t lo, hi, lo2, hi2; exprRange(a, lo, hi); exprRange(b, lo2, hi2);
            uint64_t half = 1ULL << (w - 1);
            if (hi < half && hi2 < half) return mkBin(E_UREM, a, b);
        }
        break;
    case E_AND:
        if (a == b) return a;
        if (isConst(b)) {
            if (b->val == 0) return b;
            if (b->val == m) return a;
            if (a->op == E_AND && isConst(a->k[1])) return mkBin(E_AND, a->k[0], mkConst(a->k[1]->val & b->val, w));
            if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2]))
                return mkIte(a->k[0], mkConst(a->k[1]->val & b->val, w), mkConst(a->k[2]->val & b->val, w));
            // low mask -> zext(extract)
            u128 v = b->val;
            if ((v & (v + 1)) == 0 && w > 1) {
                unsigned n = 0; while ((v >> n) & 1) ++n;
                return mkZext(mkExtract(a, 0, n), w);
            }
            if (a->op == E_ZEXT && (v >> a->k[0]->w) != 0) return mkBin(E_AND, a, mkConst(v & wmask(a->k[0]->w), w));
            if (a->op == E_ZEXT) return mkZext(mkBin(E_AND, a->k[0], mkConst(v, a->k[0]->w)), w);
            if (a->op == E_CONCAT) {
                Expr* lo = a->k[1]; Expr* hi = a->k[0];
                return mkConcat(mkBin(E_AND, hi, mkConst(v >> lo->w, hi->w)), mkBin(E_AND, lo, mkConst(v, lo->w)));
            }
        }
        if (w == 1) {
            if (isNot(a) && a->k[0] == b) return mkConst(0, 1);
            if (isNot(b) && b->k[0] == a) return mkConst(0, 1);
        }
        break;
    case E_OR:
        if (a == b) return a;
        if (isConst(b)) {
            if (b->val == 0) return a;
            if (b->val == m) return b;
            if (a->op == E_OR && isConst(a->k[1])) return mkBin(E_OR, a->k[0], mkConst(a->k[1]->val | b->val, w));
        }
        if (w == 1) {
            if (isNot(a) && a->k[0] == b) return mkConst(1, 1);
            if (isNot(b) && b->k[0] == a) return mkConst(1, 1);
        } else if (!isConst(b)) {
            // disjoint or: concat(x, 0) | zext(y) -> concat(x, y)
            for (int t = 0; t < 2; ++t) {
                Expr* p = t ? b : a; Expr* q = t ? a : b;
                if (p->op == E_CONCAT && isConst(p->k[1]) && p->k[1]->val == 0) {
                    unsigned lw = p->k[1]->w;
                    if (q->op == E_ZEXT && q->k[0]->w <= lw)
                        return mkConcat(p->k[0], mkZext(q->k[0], lw));
                    if (q->op == E_ZEXT && q->k[0]->w <= w && q->k[0]->op == E_CONCAT && q->k[0]->k[1]->w == lw && isConst(p->k[0]) && p->k[0]->val == 0)
                        return q;
                }
            }
            if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[1]->w == b->k[1]->w)
                return mkConcat(mkBin(E_OR, a->k[0], b->k[0]), mkBin(E_OR, a->k[1], b->k[1]));
            for (int t = 0; t < 2; ++t) {
                Expr* p = t ? b : a; Expr* q = t ? a : b;
                if (p->op == E_CONCAT && q->op == E_ZEXT && (isConst(p->k[0]) || isConst(p->k[1]))) {
                    unsigned lw = p->k[1]->w;
                    return mkConcat(mkBin(E_OR, p->k[0], mkExtract(q, lw, w - lw)), mkBin(E_OR, p->k[1], mkExtract(q, 0, lw)));
                }
            }
        }
        break;
    case E_XOR:
        if (a == b) return mkConst(0, w);
        if (isConst(b)) {
            if (b->val == 0) return a;
            if (a->op == E_XOR && isConst(a->k[1])) return mkBin(E_XOR, a->k[0], mkConst(a->k[1]->val ^ b->val, w));
            if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2]))
                return mkIte(a->k[0], mkConst(a->k[1]->val ^ b->val, w), mkConst(a->k[2]->val ^ b->val, w));
            if (w == 1) { // negate comparisons
                if (a->op == E_ULT) return mkBin(E_ULE, a->k[1], a->k[0]);
                if (a->op == E_ULE) return mkBin(E_ULT, a->k[1], a->k[0]);
                if (a->op == E_SLT) return mkBin(E_SLE, a->k[1], a->k[0]);
                if (a->op == E_SLE) return mkBin(E_SLT, a->k[1], a->k[0]);
            }
        }
        break;
    case E_SHL:
        if (isConst(b)) {
            if (b->val == 0) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->val;
            return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        }
        if (isConst(a) && a->val == 0) return a;
        break;
    case E_LSHR:
        if (isConst(b)) {
            if (b->val == 0) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->val;
            return mkZext(mkExtract(a, s, w - s), w);
        }
        if (isConst(a) && a->val == 0) return a;
        break;
    case E_ASHR:
        if (isConst(b)) {
            if (b->val == 0) return a;
            unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
            return mkSext(mkExtract(a, s, w - s), w);
        }
        break;
    case E_EQ:
        if (a == b) return mkConst(1, 1);
        if (isConst(b)) {
            if (w == 1) return b->val ? a : mkNot(a);
            if (a->op == E_ITE) {
                Expr *x = a->k[1], *y = a->k[2];
                if (isConst(x) && isConst(y)) {
                    bool ex = x->val == b->val, ey = y->val == b->val;
                    if (ex && ey) return mkConst(1, 1);
                    if (ex) return a->k[0];
                    if (ey) return mkNot(a->k[0]);
                    return mkConst(0, 1);
                }
                if (isConst(x)) {
                    if (x->val != b->val) return mkBin(E_AND, mkNot(a->k[0]), mkBin(E_EQ, y, b));
                    return mkBin(E_OR, a->k[0], mkBin(E_EQ, y, b));
                }
                if (isConst(y)) {
                    if (y->val != b->val) return mkBin(E_AND, a->k[0], mkBin(E_EQ, x, b));
                    return mkBin(E_OR, mkNot(a->k[0]), mkBin(E_EQ, x, b));
                }
            }
            if (a->op == E_ADD && isConst(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(b->val - a->k[1]->val, w));
            if (a->op == E_XOR && isConst(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(b->val ^ a->k[1]->val, w));
            if (a->op == E_ZEXT) {
                unsigned kw = a->k[0]->w;
                if (b->val >> kw) return mkConst(0, 1);
                return mkBin(E_EQ, a->k[0], mkConst(b->val, kw));
            }
            if (a->op == E_SEXT) {
                unsigned kw = a->k[0]->w;
                Expr* lo = mkConst(b->val, kw);
                if (((u128)sext128(lo->val, kw) & m) != b->val) return mkConst(0, 1);
                return mkBin(E_EQ, a->k[0], lo);
            }
            if (a->op == E_CONCAT) {
                unsigned lw = a->k[1]->w;
                return mkBin(E_AND, mkBin(E_EQ, a->k[0], mkConst(b->val >> lw, a->k[0]->w)),
                             mkBin(E_EQ, a->k[1], mkConst(b->val, lw)));
            }
            if (w <= 64) { uint64_t lo, hi; exprRange(a, lo, hi); if ((uint64_t)b->val < lo || (uint64_t)b->val > hi) return mkConst(0, 1); }
        } else {
            if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_EQ, a->k[0], b->k[0]);
            if (a->op == E_ADD && b->op == E_ADD && a->k[1] == b->k[1]) return mkBin(E_EQ, a->k[0], b->k[0]);
            if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[1]->w == b->k[1]->w)
                return mkBin(E_AND, mkBin(E_EQ, a->k[0], b->k[0]), mkBin(E_EQ, a->k[1], b->k[1]));
        }
        break;
    case E_ULT:
    case E_ULE: {
        if (a == b) return mkConst(op == E_ULE, 1);
        if (w <= 64) {
            uint64_t alo, ahi, blo, bhi;
            exprRange(a, alo, ahi);
            exprRange(b, blo, bhi);
            if (op == E_ULT) { if (ahi < blo) return mkConst(1, 1); if (alo >= bhi) return mkConst(0, 1); }
            else { if (ahi <= blo) return mkConst(1, 1); if (alo > bhi) return mkConst(0, 1); }
            if (isConst(b)) {
                if (op == E_ULT && b->val == 1) return mkBin(E_EQ, a, mkConst(0, w));
                if (op == E_ULE && b->val == 0) return mkBin(E_EQ, a, b);
            }
            if (a->op == E_ZEXT && isConst(b)) { unsigned kw = a->k[0]->w; if ((b->val >> kw) == 0) return mkBin(op, a->k[0], mkConst(b->val, kw)); }
            if (b->op == E_ZEXT && isConst(a)) { unsigned kw = b->k[0]->w; if ((a->val >> kw) == 0) return mkBin(op, mkConst(a->val, kw), b->k[0]); }
            if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
        }
        if (a->op == E_ITE && isConst(b) && isConst(a->k[1]) && isConst(a->k[2]))
            return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        break;
    }
    case E_SLT:
    case E_SLE: {
        if (a == b) return mkConst(op == E_SLE, 1);
        if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
        if (w <= 64) {
            uint64_t alo, ahi, blo, bhi, half = 1ULL << (w - 1);
            exprRange(a, alo, ahi);
            exprRange(b, blo, bhi);
            if (ahi < half && bhi < half) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
            if (alo >= half && bhi < half) return mkConst(1, 1);
            if (ahi < half && blo >= half) return mkConst(0, 1);
        }
        if (a->op == E_ITE && isConst(b) && isConst(a->k[1]) && isConst(a->k[2]))
            return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
        break;
    }
    default: break;
    }
    return intern(op, isCmp(op) ? 1 : w, 0, 0, 2, a, b, nullptr);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b)
{
    if (isConst(c)) return c->val ? a : b;
    if (a == b) return a;
    if (isNot(c)) return mkIte(c->k[0], b, a);
    if (a->w == 1) {
        if (isConst(a) && isConst(b)) return a->val ? c : mkNot(c);
        if (isConst(a)) return a->val ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
        if (isConst(b)) return b->val ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
    }
    if (a->op == E_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
    if (b->op == E_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
    if (b->op == E_ITE && b->k[1] == a) return mkIte(mkBin(E_OR, c, b->k[0]), a, b->k[2]);
    return intern(E_ITE, a->w, 0, 0, 3, c, a, b);
}

Expr* mkExtract(Expr* a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (isConst(a)) return mkConst(a->val >> lo, w);
    switch (a->op) {
    case E_EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
    case E_CONCAT: {
        unsigned lw = a->k[1]->w;
        if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case E_ZEXT: {
        unsigned kw = a->k[0]->w;
        if (lo >= kw) return mkConst(0, w);
        if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
        return mkZext(mkExtract(a->k[0], lo, kw - lo), w);
    }
    case E_SEXT: {
        unsigned kw = a->k[0]->w;
        if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
        if (lo < kw) return mkSext(mkExtract(a->k[0], lo, kw - lo), w);
        return mkSext(mkExtract(a->k[0], kw - 1, 1), w);
    }
    case E_ITE:
        if (isConst(a->k[1]) || isConst(a->k[2]) || w == 8)
            return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        break;
    case E_AND: case E_OR: case E_XOR:
        return mkBin((Op)a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case E_ADD: case E_SUB: case E_MUL:
        if (lo == 0) return mkBin((Op)a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    default: break;
    }
    return intern(E_EXTRACT, w, lo, 0, 1, a, nullptr, nullptr);
}

Expr* mkConcat(Expr* hi, Expr* lo)
{
    unsigned w = hi->w + lo->w;
    if (isConst(hi) && isConst(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
    if (isConst(hi) && hi->val == 0) return mkZext(lo, w);
    if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
        return mkExtract(hi->k[0], lo->aux, w);
    // the low part of a sum, which mkExtract has rewritten
    if (hi->op == E_EXTRACT && hi->aux == lo->w && (hi->k[0]->op == E_ADD || hi->k[0]->op == E_SUB || hi->k[0]->op == E_MUL) && mkExtract(hi->k[0], 0, lo->w) == lo)
        return mkExtract(hi->k[0], 0, w);
    // sext(x) top part
    if (lo->op == E_CONCAT) {
        // concat(hi, concat(a,b)) with hi adjacent to a
        Expr* a = lo->k[0];
        if (hi->op == E_EXTRACT && a->op == E_EXTRACT && hi->k[0] == a->k[0] && hi->aux == a->aux + a->w)
            return mkConcat(mkExtract(hi->k[0], a->aux, hi->w + a->w), lo->k[1]);
        if (isConst(hi) && isConst(a)) return mkConcat(mkConcat(hi, a), lo->k[1]);
    }
    if (hi->op == E_CONCAT) {
        Expr* b = hi->k[1];
        if (b->op == E_EXTRACT && lo->op == E_EXTRACT && b->k[0] == lo->k[0] && b->aux == lo->aux + lo->w)
            return mkConcat(hi->k[0], mkExtract(lo->k[0], lo->aux, b->w + lo->w));
        if (isConst(b) && isConst(lo)) return mkConcat(hi->k[0], mkConcat(b, lo));
        if (b->op == E_EXTRACT && b->aux == lo->w && (b->k[0]->op == E_ADD || b->k[0]->op == E_SUB || b->k[0]->op == E_MUL) && mkExtract(b->k[0], 0, lo->w) == lo)
            return mkConcat(hi->k[0], mkExtract(b->k[0], 0, b->w + lo->w));
    }
    if (hi->op == E_ZEXT && lo->w) {
        return mkZext(mkConcat(hi->k[0], lo), w);
    }
    // ITE with identical condition on both halves
    if (hi->op == E_ITE && lo->op == E_ITE && hi->k[0] == lo->k[0])
        return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
    if (hi->op == E_ITE && isConst(lo) && isConst(hi->k[1]) && isConst(hi->k[2]))
        return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
    if (lo->op == E_ITE && isConst(hi) && isConst(lo->k[1]) && isConst(lo->k[2]))
        return mkIte(lo->k[0], mkConcat(hi, lo->k[1]), mkConcat(hi, lo->k[2]));
    return intern(E_CONCAT, w, 0, 0, 2, hi, lo, nullptr);
}

Expr* mkZext(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (isConst(a)) return mkConst(a->val, w);
    if (a->op == E_ZEXT) return mkZext(a->k[0], w);
    if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2]))
        return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
    return intern(E_ZEXT, w, 0, 0, 1, a, nullptr, nullptr);
}

Expr* mkSext(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (isConst(a)) return mkConst((u128)sext128(a->val, a->w), w);
    if (a->op == E_SEXT) return mkSext(a->k[0], w);
    if (a->op == E_ZEXT) return mkZext(a->k[0], w);
    if (a->w == 1) return mkIte(a, mkConst(wmask(w), w), mkConst(0, w));
    if (a->op == E_ITE && isConst(a->k[1]) && isConst(a->k[2]))
        return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
    if (a->w <= 64) {
        uint64_t lo, hi;
        exprRange(a, lo, hi);
        if (hi < (1ULL << (a->w - 1))) return mkZext(a, w);
    }
    return intern(E_SEXT, w, 0, 0, 1, a, nullptr, nullptr);
}

Expr* mkF1(Op op, Expr* a, unsigned w, unsigned aux)
{
    if (isConst(a)) {
        bool ok;
        u128 r = foldF1(op, a->val, a->w, w, aux, ok);
        if (ok) return mkConst(r, w);
    } else if (op == E_FISNAN && a->w == 64) {
        Dy x, y;
        if (dyadic(a, x)) return mkConst(0, 1);
        if (a->op == E_FDIV && dyadic(a->k[0], x) && dyadic(a->k[1], y)) {
            if (isConst(y.i) && y.i->val) return mkConst(0, 1);
            return mkBin(E_AND, mkBin(E_EQ, x.i, mkConst(0, 64)), mkBin(E_EQ, y.i, mkConst(0, 64)));
        }
        if (magBound(a) < 1e300) return mkConst(0, 1);
    }
    return intern(op, w, aux, 0, 1, a, nullptr, nullptr);
}
Expr* mkF2(Op op, Expr* a, Expr* b) { return mkBin(op, a, b); }

void exprRange(Expr* e, uint64_t& lo, uint64_t& hi)
{
    if (e->op == E_CONST) { lo = hi = (uint64_t)e->val; return; }
    if (e->rlo <= e->rhi) { lo = e->rlo; hi = e->rhi; return; }
    uint64_t full = e->w >= 64 ? ~0ULL : ((1ULL << e->w) - 1);
    lo = 0; hi = full;
    uint64_t l1, h1, l2, h2;
    if (e->w <= 64) switch (e->op) {
    case E_ZEXT: exprRange(e->k[0], lo, hi); break;
    case E_ITE:
        exprRange(e->k[1], l1, h1); exprRange(e->k[2], l2, h2);
        lo = std::min(l1, l2); hi = std::max(h1, h2);
        break;
    case E_AND:
        exprRange(e->k[0], l1, h1); exprRange(e->k[1], l2, h2);
        hi = std::min(h1, h2);
        break;
    case E_OR: case E_XOR: {
        exprRange(e->k[0], l1, h1); exprRange(e->k[1], l2, h2);
        uint64_t x = h1 | h2;
        hi = x ? (~0ULL >> __builtin_clzll(x)) : 0;
        if (e->op == E_OR) lo = std::max(l1, l2);
        break;
    }
    case E_ADD:
        exprRange(e->k[0], l1, h1); exprRange(e->k[1], l2, h2);
        if (h1 <= full - h2) { lo = l1 + l2; hi = h1 + h2; }
        else if (e->k[1]->op == E_CONST) { // maybe subtraction of a constant, all wrap
            uint64_t neg = (~l2 + 1) & full;
            if (l1 >= neg) { lo = l1 - neg; hi = h1 - neg; }
        }
        break;
    case E_SUB:
        exprRange(e->k[0], l1, h1); exprRange(e->k[1], l2, h2);
        if (l1 >= h2) { lo = l1 - h2; hi = h1 - l2; }
        else if (h1 < l2) { lo = (l1 - h2) & full; hi = (h1 - l2) & full; }
        break;
    case E_MUL:
        exprRange(e->k[0], l1, h1); exprRange(e->k[1], l2, h2);
        if ((u128)h1 * h2 <= full) { lo = l1 * l2; hi = h1 * h2; }
        break;
    case E_UDIV:
        exprRange(e->k[0], l1, h1); exprRange(e->k[1], l2, h2);
        if (l2 > 0) { lo = l1 / h2; hi = h1 / l2; }
        break;
    case E_UREM:
        exprRange(e->k[0], l1, h1); exprRange(e->k[1], l2, h2);
        if (l2 > 0) { hi = std::min(h1, h2 - 1); }
        break;
    case E_CONCAT:
        exprRange(e->k[0], l1, h1); exprRange(e->k[1], l2, h2);
        lo = (l1 << e->k[1]->w) | l2; hi = (h1 << e->k[1]->w) | h2;
        break;
    case E_EXTRACT:
        if (e->k[0]->w <= 64) {
            exprRange(e->k[0], l1, h1);
            if ((h1 >> e->aux) <= full) { hi = h1 >> e->aux; lo = l1 >> e->aux; }
        }
        break;
    default: break;
    }
    e->rlo = lo; e->rhi = hi;
}

struct VSHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003u + x; return h; } };
static std::unordered_map<std::vector<uint32_t>, VarSet*, VSHash> s_varsets;
static VarSet* internVS(std::vector<uint32_t>& v)
{
    auto it = s_varsets.find(v);
    if (it != s_varsets.end()) return it->second;
    VarSet* s = new VarSet;
    s->v = v;
    s->mask[0] = s->mask[1] = 0;
    for (auto x : v) s->mask[(x >> 6) & 1] |= 1ULL << (x & 63);
    s_varsets[v] = s;
    return s;
}

const VarSet* exprVars(Expr* e)
{
    if (e->vars) return e->vars;
    std::vector<uint32_t> v;
    if (e->op == E_VAR) v.push_back(e->aux);
    else if (e->nk == 1) { e->vars = (VarSet*)exprVars(e->k[0]); return e->vars; }
    else for (int i = 0; i < e->nk; ++i) {
        const VarSet* s = exprVars(e->k[i]);
        if (v.empty()) v = s->v;
        else if (!s->v.empty() && s->v != v) {
            std::vector<uint32_t> r;
            std::set_union(v.begin(), v.end(), s->v.begin(), s->v.end(), std::back_inserter(r));
            v.swap(r);
        }
    }
    e->vars = internVS(v);
    return e->vars;
}

static uint32_t s_gen = 1;
void evalNewGeneration() { ++s_gen; }

static u128 evalRec(Expr* e, const Model& m)
{
    if (e->op == E_CONST) return e->val;
    if (e->evgen == s_gen) return e->evval;
    u128 r = 0;
    bool ok = true;
    switch (e->op) {
    case E_VAR: { auto it = m.find(e->aux); r = it == m.end() ? 0 : (it->second & wmask(e->w)); break; }
    case E_ITE: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
    case E_CONCAT: r = (evalRec(e->k[0], m) << e->k[1]->w) | evalRec(e->k[1], m); break;
    case E_EXTRACT: r = (evalRec(e->k[0], m) >> e->aux) & wmask(e->w); break;
    case E_ZEXT: r = evalRec(e->k[0], m); break;
    case E_SEXT: r = (u128)sext128(evalRec(e->k[0], m), e->k[0]->w) & wmask(e->w); break;
    default:
        if (e->nk == 1) r = foldF1((Op)e->op, evalRec(e->k[0], m), e->k[0]->w, e->w, e->aux, ok);
        else { u128 a = evalRec(e->k[0], m), b = evalRec(e->k[1], m); r = foldBin((Op)e->op, a, b, e->k[0]->w, ok); }
    }
    e->evgen = s_gen;
    e->evval = r;
    return r;
}

u128 evalExpr(Expr* e, const Model& m)
{
    return evalRec(e, m);
}

std::string exprStr(Expr* e, int depth)
{
    static const char* names[] = { "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
        "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext", "fadd", "fsub",
        "fmul", "fdiv", "frem", "fsqrt", "frint", "feq", "flt", "fle", "isnan", "ftosi", "ftoui", "sitof", "uitof", "ftof", "agg" };
    if (e->op == E_CONST) { char b[48]; snprintf(b, sizeof b, "%llu:%u", (unsigned long long)e->val, e->w); return b; }
    if (e->op == E_VAR) return g_vars[e->aux].name;
    if (depth <= 0) return "...";
    std::string s = std::string("(") + names[e->op];
    if (e->op == E_EXTRACT) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
    for (int i = 0; i < e->nk; ++i) s += " " + exprStr(e->k[i], depth - 1);
    return s + ")";
}
