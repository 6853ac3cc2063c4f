// Hash-consed bit-vector expression DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
    E_CONST, E_VAR,
    E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
    E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
    E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
    E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
    E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM, E_FSQRT, E_FRINT,
    E_FEQ, E_FLT, E_FLE, E_FISNAN,
    E_FTOSI, E_FTOUI, E_SITOF, E_UITOF, E_FTOF,
    E_AGG   // not hash-consed: aggregate register value
};

struct VarSet;

struct Expr {
    uint8_t  op;
    uint8_t  nk;
    uint16_t w;
    uint32_t aux;   // extract low bit / var id / rounding mode
    uint32_t id;
    uint32_t hash;
    Expr*    k[3];
    u128     val;   // constant value / umin,umax cache for others
    void*    z3bv   = nullptr;
    void*    z3bool = nullptr;
    VarSet*  vars   = nullptr;
    uint64_t rlo = 1, rhi = 0;  // unsigned range cache (valid for w<=64 if rlo<=rhi)
    uint32_t evgen = 0;
    u128     evval = 0;
    struct AggData* agg = nullptr;
};

struct V {
    Expr*    e;
    uint64_t c;
    V() : e(nullptr), c(0) {}
    V(uint64_t x) : e(nullptr), c(x) {}
    V(Expr* x, uint64_t y) : e(x), c(y) {}
    bool conc() const { return e == nullptr; }
};

struct AggData { std::vector<V> v; std::vector<uint16_t> w; };

struct VarInfo { std::string name; unsigned w; };

struct VarSet { std::vector<uint32_t> v; uint64_t mask[2]; };

static inline u128 wmask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline uint64_t m64(uint64_t x, unsigned w) { return w >= 64 ? x : (x & ((1ULL << w) - 1)); }
static inline s128 sext128(u128 v, unsigned w)
{
    if (w >= 128) return (s128)v;
    u128 s = (u128)1 << (w - 1);
    v &= wmask(w);
    return (s128)((v ^ s) - s);
}
static inline int64_t sx(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    uint64_t s = 1ULL << (w - 1);
    return (int64_t)((m64(v, w) ^ s) - s);
}

Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(const std::string& name, unsigned w);
Expr* mkBin(Op op, Expr* a, Expr* b);   // arithmetic: result width = a->w; comparison: 1
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZext(Expr* a, unsigned w);
Expr* mkSext(Expr* a, unsigned w);
Expr* mkNot(Expr* a);  // width-1 negation
Expr* mkF1(Op op, Expr* a, unsigned w, unsigned aux = 0);
Expr* mkF2(Op op, Expr* a, Expr* b);
Expr* mkAgg(const std::vector<V>& v, const std::vector<uint16_t>& w);

static inline bool isConst(Expr* e) { return e->op == E_CONST; }

extern std::vector<VarInfo> g_vars;
extern std::vector<Expr*>   g_varExprs;
const VarSet* exprVars(Expr* e);
void exprRange(Expr* e, uint64_t& lo, uint64_t& hi);  // unsigned range (w<=64)

typedef std::unordered_map<uint32_t, u128> Model;    // var id -> value (missing = 0)
u128 evalExpr(Expr* e, const Model& m);              // memoised per call generation
void evalNewGeneration();
std::string exprStr(Expr* e, int depth = 6);
size_t exprCount();

u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok);
u128 foldF1(Op op, u128 a, unsigned wa, unsigned w, unsigned aux, bool& ok);
