#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <algorithm>

SolverStats g_sstats;
unsigned g_solver_timeout_ms = 120000;
static Z3_context ctx;
static bool s_err = false;
static bool s_hasFP = false;

static void onErr(Z3_context c, Z3_error_code e)
{
    s_err = true;
    fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e));
}

void solverInit()
{
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, onErr);
}

static Z3_ast keep(Z3_ast a) { if (a) Z3_inc_ref(ctx, a); return a; }
static Z3_ast toBV(Expr* e);
static Z3_ast toBool(Expr* e);
static Z3_sort bvsort(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_sort fpsort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
static Z3_ast toFP(Expr* e) { s_hasFP = true; return Z3_mk_fpa_to_fp_bv(ctx, toBV(e), fpsort(e->w)); }
static Z3_ast num(u128 v, unsigned w)
{
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, bvsort(w));
    Z3_ast lo = keep(Z3_mk_unsigned_int64(ctx, (uint64_t)v, bvsort(64)));
    Z3_ast hi = keep(Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), bvsort(w - 64)));
    return Z3_mk_concat(ctx, hi, lo);
}
static double bcd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }

static Z3_ast toBool(Expr* e)
{
    if (e->z3bool) return (Z3_ast)e->z3bool;
    Z3_ast r;
    switch (e->op) {
    case E_CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case E_EQ:
        if (e->k[0]->w == 1) r = Z3_mk_iff(ctx, toBool(e->k[0]), toBool(e->k[1]));
        else r = Z3_mk_eq(ctx, toBV(e->k[0]), toBV(e->k[1]));
        break;
    case E_ULT: r = Z3_mk_bvult(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case E_ULE: r = Z3_mk_bvule(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case E_SLT: r = Z3_mk_bvslt(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case E_SLE: r = Z3_mk_bvsle(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
    case E_FEQ: r = Z3_mk_fpa_eq(ctx, toFP(e->k[0]), toFP(e->k[1])); break;
    case E_FLT: r = Z3_mk_fpa_lt(ctx, toFP(e->k[0]), toFP(e->k[1])); break;
    case E_FLE: r = Z3_mk_fpa_leq(ctx, toFP(e->k[0]), toFP(e->k[1])); break;
    case E_FISNAN: r = Z3_mk_fpa_is_nan(ctx, toFP(e->k[0])); break;
    case E_AND: { Z3_ast a[2] = { toBool(e->k[0]), toBool(e->k[1]) }; r = Z3_mk_and(ctx, 2, a); break; }
    case E_OR: { Z3_ast a[2] = { toBool(e->k[0]), toBool(e->k[1]) }; r = Z3_mk_or(ctx, 2, a); break; }
    case E_XOR:
        if (isConst(e->k[1])) r = Z3_mk_not(ctx, toBool(e->k[0]));
        else r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1]));
        break;
    case E_ITE: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    default: r = Z3_mk_eq(ctx, toBV(e), num(1, 1)); break;
    }
    e->z3bool = keep(r);
    return r;
}

static Z3_ast toBV(Expr* e)
{
    if (e->z3bv) return (Z3_ast)e->z3bv;
    Z3_ast r = nullptr;
    Z3_ast rne = nullptr;
    auto RM = [&]() { s_hasFP = true; if (!rne) rne = Z3_mk_fpa_rne(ctx); return rne; };
    auto K = [&](int i) { return toBV(e->k[i]); };
    switch (e->op) {
    case E_CONST: r = num(e->val, e->w); break;
    case E_VAR: { char b[32]; snprintf(b, sizeof b, "v%u", e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), bvsort(e->w)); break; }
    case E_ADD: r = Z3_mk_bvadd(ctx, K(0), K(1)); break;
    case E_SUB: r = Z3_mk_bvsub(ctx, K(0), K(1)); break;
    case E_MUL: r = Z3_mk_bvmul(ctx, K(0), K(1)); break;
    case E_UDIV: r = Z3_mk_bvudiv(ctx, K(0), K(1)); break;
    case E_SDIV: r = Z3_mk_bvsdiv(ctx, K(0), K(1)); break;
    case E_UREM: r = Z3_mk_bvurem(ctx, K(0), K(1)); break;
    case E_SREM: r = Z3_mk_bvsrem(ctx, K(0), K(1)); break;
    case E_AND: if (e->w > 1) { r = Z3_mk_bvand(ctx, K(0), K(1)); } break;
    case E_OR: if (e->w > 1) { r = Z3_mk_bvor(ctx, K(0), K(1)); } break;
    case E_XOR: if (e->w > 1) { r = Z3_mk_bvxor(ctx, K(0), K(1)); } break;
    case E_SHL: r = Z3_mk_bvshl(ctx, K(0), K(1)); break;
    case E_LSHR: r = Z3_mk_bvlshr(ctx, K(0), K(1)); break;
    case E_ASHR: r = Z3_mk_bvashr(ctx, K(0), K(1)); break;
    case E_ITE: if (e->w > 1) r = Z3_mk_ite(ctx, toBool(e->k[0]), K(1), K(2)); break;
    case E_CONCAT: r = Z3_mk_concat(ctx, K(0), K(1)); break;
    case E_EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, K(0)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, K(0)); break;
    case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, K(0)); break;
    case E_FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, RM(), toFP(e->k[0]), toFP(e->k[1]))); break;
    case E_FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, RM(), toFP(e->k[0]), toFP(e->k[1]))); break;
    case E_FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, RM(), toFP(e->k[0]), toFP(e->k[1]))); break;
    case E_FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, RM(), toFP(e->k[0]), toFP(e->k[1]))); break;
    case E_FREM: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_rem(ctx, toFP(e->k[0]), toFP(e->k[1]))); break;
    case E_FSQRT: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sqrt(ctx, RM(), toFP(e->k[0]))); break;
    case E_FRINT: {
        s_hasFP = true;
        Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rne(ctx) : e->aux == 1 ? Z3_mk_fpa_rtn(ctx) : e->aux == 2 ? Z3_mk_fpa_rtp(ctx) : e->aux == 3 ? Z3_mk_fpa_rtz(ctx) : Z3_mk_fpa_rna(ctx);
        r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, rm, toFP(e->k[0])));
        break;
    }
    case E_FTOSI: case E_FTOUI: {
        Z3_ast f = toFP(e->k[0]);
        if (e->k[0]->w == 32) f = Z3_mk_fpa_to_fp_float(ctx, RM(), f, fpsort(64));
        Z3_sort fs = fpsort(64);
        Z3_ast rtz = Z3_mk_fpa_rtz(ctx);
        auto fpn = [&](double d) { return Z3_mk_fpa_numeral_double(ctx, d, fs); };
        if (e->op == E_FTOSI) {
            unsigned cw = e->w <= 32 ? 32 : 64;
            Z3_ast c[2];
            c[0] = cw == 32 ? Z3_mk_fpa_gt(ctx, f, fpn(-2147483649.0)) : Z3_mk_fpa_geq(ctx, f, fpn(-9223372036854775808.0));
            c[1] = Z3_mk_fpa_lt(ctx, f, fpn(cw == 32 ? 2147483648.0 : 9223372036854775808.0));
            Z3_ast v = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, c), Z3_mk_fpa_to_sbv(ctx, rtz, f, cw), num(cw == 32 ? (u128)0x80000000u : ((u128)1 << 63), cw));
            r = e->w == cw ? v : Z3_mk_extract(ctx, e->w - 1, 0, v);
        } else {
            Z3_ast c[2] = { Z3_mk_fpa_geq(ctx, f, fpn(-9223372036854775808.0)), Z3_mk_fpa_lt(ctx, f, fpn(9223372036854775808.0)) };
            Z3_ast v = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, c), Z3_mk_fpa_to_sbv(ctx, rtz, f, 64), num((u128)1 << 63, 64));
            if (e->w == 64) {
                Z3_ast d[2] = { Z3_mk_fpa_geq(ctx, f, fpn(9223372036854775808.0)), Z3_mk_fpa_lt(ctx, f, fpn(18446744073709551616.0)) };
                r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, d), Z3_mk_fpa_to_ubv(ctx, rtz, f, 64), v);
            } else r = Z3_mk_extract(ctx, e->w - 1, 0, v);
        }
        break;
    }
    case E_SITOF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, RM(), K(0), fpsort(e->w))); break;
    case E_UITOF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, RM(), K(0), fpsort(e->w))); break;
    case E_FTOF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, RM(), toFP(e->k[0]), fpsort(e->w))); break;
    default: break;
    }
    if (!r) {
        if (e->w != 1) { fprintf(stderr, "symx: cannot translate op %d\n", e->op); abort(); }
        r = Z3_mk_ite(ctx, toBool(e), num(1, 1), num(0, 1));
    }
    e->z3bv = keep(r);
    (void)bcd;
    return r;
}

struct QKey { std::vector<uint32_t> ids; bool operator==(const QKey& o) const { return ids == o.ids; } };
struct QHash { size_t operator()(const QKey& k) const { size_t h = 17; for (auto x : k.ids) h = h * 0x9E3779B1u + x; return h; } };
struct QVal { SatResult r; std::vector<std::pair<uint32_t, u128>> m; };
static std::unordered_map<QKey, QVal, QHash> s_cache;

static bool hasFP(Expr* e, std::unordered_set<Expr*>& seen)
{
    if (!seen.insert(e).second) return false;
    if (e->op >= E_FADD && e->op <= E_FTOF) return true;
    for (int i = 0; i < e->nk; ++i) if (hasFP(e->k[i], seen)) return true;
    return false;
}

SatResult solverCheck(const std::vector<Expr*>& constraints, Expr* cond, Model& out)
{
    if (isConst(cond)) { g_sstats.fastpath++; return cond->val ? R_SAT : R_UNSAT; }
    // slice
    std::vector<Expr*> use { cond };
    std::unordered_set<uint32_t> vs(exprVars(cond)->v.begin(), exprVars(cond)->v.end());
    std::vector<char> taken(constraints.size(), 0);
    bool changed = true;
    while (changed) {
        changed = false;
        for (size_t i = 0; i < constraints.size(); ++i)
            if (!taken[i]) {
                const VarSet* s = exprVars(constraints[i]);
                bool hit = false;
                for (auto v : s->v) if (vs.count(v)) { hit = true; break; }
                if (hit) {
                    taken[i] = 1;
                    changed = true;
                    use.push_back(constraints[i]);
                    vs.insert(s->v.begin(), s->v.end());
                }
            }
    }
    QKey key;
    for (Expr* e : use) key.ids.push_back(e->id);
    std::sort(key.ids.begin(), key.ids.end());
    key.ids.erase(std::unique(key.ids.begin(), key.ids.end()), key.ids.end());
    auto it = s_cache.find(key);
    if (it != s_cache.end()) {
        g_sstats.cachehits++;
        for (auto& p : it->second.m) out[p.first] = p.second;
        return it->second.r;
    }
    auto t0 = std::chrono::steady_clock::now();
    std::unordered_set<Expr*> seen;
    bool fp = false;
    for (Expr* e : use) if (hasFP(e, seen)) { fp = true; break; }
    SatResult res = R_UNKNOWN;
    for (int attempt = 0; attempt < 2 && res == R_UNKNOWN; ++attempt) {
        Z3_solver s;
        if (attempt == 0) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fp ? "QF_BVFP" : "QF_BV"));
        else s = Z3_mk_solver(ctx);
        if (s_err) { s_err = false; s = Z3_mk_solver(ctx); }
        Z3_solver_inc_ref(ctx, s);
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_solver_timeout_ms);
        Z3_solver_set_params(ctx, s, p);
        for (Expr* e : use) Z3_solver_assert(ctx, s, toBool(e));
        Z3_lbool r = Z3_solver_check(ctx, s);
        if (s_err) { s_err = false; r = Z3_L_UNDEF; }
        g_sstats.queries++;
        res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
        QVal qv { res, {} };
        if (res == R_SAT) {
            Z3_model m = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, m);
            for (uint32_t v : vs) {
                Expr* ve = g_varExprs[v];
                u128 val = 0;
                unsigned w = ve->w;
                for (unsigned lo = 0; lo < w; lo += 64) {
                    unsigned cw = std::min(64u, w - lo);
                    Z3_ast part = toBV(mkExtract(ve, lo, cw)), o = nullptr;
                    uint64_t x = 0;
                    if (Z3_model_eval(ctx, m, part, true, &o) && o) { Z3_inc_ref(ctx, o); Z3_get_numeral_uint64(ctx, o, &x); Z3_dec_ref(ctx, o); }
                    val |= (u128)x << lo;
                }
                out[v] = val;
                qv.m.push_back({ v, val });
            }
            Z3_model_dec_ref(ctx, m);
        }
        if (res != R_UNKNOWN) s_cache[key] = qv;
        Z3_params_dec_ref(ctx, p);
        Z3_solver_dec_ref(ctx, s);
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_sstats.seconds += dt;
    if (dt > g_sstats.maxq) g_sstats.maxq = dt;
    if (dt > 1 && getenv("SYMX_SLOW")) {
        static int n = 0;
        char f[256];
        snprintf(f, sizeof f, "%s/q%d.smt2", getenv("SYMX_SLOW"), n++);
        Z3_solver s = Z3_mk_solver(ctx);
        Z3_solver_inc_ref(ctx, s);
        for (Expr* e : use) Z3_solver_assert(ctx, s, toBool(e));
        FILE* o = fopen(f, "w");
        if (o) { fprintf(o, "; %.1fs result %d\n%s(check-sat)\n", dt, (int)res, Z3_solver_to_string(ctx, s)); fclose(o); }
        Z3_solver_dec_ref(ctx, s);
    }
    if (res == R_SAT) g_sstats.sat++; else if (res == R_UNSAT) g_sstats.unsat++; else g_sstats.unknown++;
    return res;
}
