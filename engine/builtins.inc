// builtin functions and intrinsics (included by exec.cpp)

static void copyBytes(State* s, uint64_t dst, uint64_t src, uint64_t n)
{
    if (!n) return;
    uint64_t sid = src >> 32, did = dst >> 32;
    uint32_t so = (uint32_t)(src & 0xffffffff) - OBJ_BASE, d0 = (uint32_t)(dst & 0xffffffff) - OBJ_BASE;
    Obj* o = s->mem.get(sid);
    std::vector<uint8_t> data(o->data + so, o->data + so + n);
    std::vector<uint8_t> und;
    std::vector<Expr*> sym;
    if (o->undef) und.assign(o->undef + so, o->undef + so + n);
    if (o->sym) sym.assign(o->sym + so, o->sym + so + n);
    Obj* d = s->mem.getw(did);
    memcpy(d->data + d0, data.data(), n);
    bool anyU = false;
    for (auto u : und) if (u) { anyU = true; break; }
    if (anyU && !d->undef) { d->undef = (uint8_t*)calloc(d->size + 1, 1); }
    if (d->undef) { if (anyU) memcpy(d->undef + d0, und.data(), n); else memset(d->undef + d0, 0, n); }
    bool anyS = false;
    for (auto e : sym) if (e) { anyS = true; break; }
    if (anyS && !d->sym) d->sym = (Expr**)calloc(d->size + 1, sizeof(Expr*));
    if (d->sym) { if (anyS) memcpy(d->sym + d0, sym.data(), n * sizeof(Expr*)); else memset(d->sym + d0, 0, n * sizeof(Expr*)); }
}

static std::string readCStr(State* s, uint64_t a)
{
    std::string r;
    for (;;) {
        std::string err;
        Obj* o = access(s, a, 1, false, err);
        if (!o || r.size() > 4096) return r;
        uint32_t off = (uint32_t)(a & 0xffffffff) - OBJ_BASE;
        if (o->sym && o->sym[off]) return r + "?";
        char c = o->data[off];
        if (!c) return r;
        r += c;
        ++a;
    }
}

int intrinsicBuiltin(Function* F)
{
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY;
    case Intrinsic::memset: case Intrinsic::memset_inline: return B_MEMSET;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
    case Intrinsic::stackrestore: case Intrinsic::var_annotation: return B_NOP;
    case Intrinsic::assume: return B_NOP;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return B_EXPECT;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: return B_OVF;
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: return B_SAT;
    case Intrinsic::ctlz: return B_CTLZ;
    case Intrinsic::cttz: return B_CTTZ;
    case Intrinsic::ctpop: return B_CTPOP;
    case Intrinsic::bswap: return B_BSWAP;
    case Intrinsic::abs: return B_ABS;
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: return B_MINMAX;
    case Intrinsic::fabs: return B_FABS;
    case Intrinsic::fshl: return B_FSHL;
    case Intrinsic::fshr: return B_FSHR;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return B_TRAP;
    case Intrinsic::vastart: return B_VASTART;
    case Intrinsic::vaend: return B_NOP;
    case Intrinsic::vacopy: return B_VACOPY;
    case Intrinsic::eh_typeid_for: return B_EHTYPEID;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: return B_FRINT;
    case Intrinsic::sqrt: return B_FSQRT;
    case Intrinsic::maxnum: case Intrinsic::minnum: return B_FMINMAX;
    case Intrinsic::fmuladd: return B_FMULADD;
    case Intrinsic::threadlocal_address: return B_TLSADDR;
    case Intrinsic::copysign: return B_COPYSIGN;
    case Intrinsic::objectsize: return B_OBJSIZE;
    case Intrinsic::stacksave: return B_STACKSAVE;
    case Intrinsic::is_constant: return B_ISCONSTANT;
    default: return B_UNRESOLVED;
    }
}

static void initBuiltins()
{
    auto& b = g_builtins;
    b["malloc"] = B_MALLOC; b["calloc"] = B_CALLOC; b["realloc"] = B_REALLOC; b["free"] = B_FREE;
    b["_Znwm"] = b["_Znam"] = b["_ZnwmRKSt9nothrow_t"] = b["_ZnamRKSt9nothrow_t"] = B_NEW;
    b["_ZdlPv"] = b["_ZdlPvm"] = b["_ZdaPv"] = b["_ZdaPvm"] = b["_ZdlPvRKSt9nothrow_t"] = b["_ZdaPvRKSt9nothrow_t"] = B_DELETE;
    b["_ZnwmSt11align_val_t"] = B_NEW; b["_ZdlPvSt11align_val_t"] = b["_ZdlPvmSt11align_val_t"] = B_DELETE;
    b["memalign"] = b["aligned_alloc"] = B_MEMALIGN; b["posix_memalign"] = B_POSIX_MEMALIGN;
    b["memcmp"] = b["bcmp"] = B_MEMCMP; b["memcpy"] = b["memmove"] = B_MEMMOVE_F; b["memset"] = B_MEMSET_F;
    b["symx_bytes"] = B_SYM_BYTES; b["symx_u64"] = b["symx_u32"] = b["symx_u16"] = b["symx_u8"] = B_SYM_VAL; b["symx_f64"] = B_SYM_VAL;
    b["symx_range"] = B_SYM_RANGE; b["symx_choose"] = B_SYM_CHOOSE; b["symx_assume"] = B_SYM_ASSUME; b["symx_assert_"] = B_SYM_ASSERT;
    b["symx_reach"] = B_SYM_REACH; b["symx_concretize"] = B_SYM_CONC; b["symx_is_symbolic"] = B_SYM_ISSYM; b["symx_fail"] = B_SYM_FAIL;
    b["symx_print"] = B_SYM_PRINT; b["symx_engine"] = B_SYM_ENGINE; b["symx_preempt_bound"] = B_SYM_SCHED; b["symx_done"] = B_SYM_DONE; b["symx_objsize"] = B_SYM_OBJSIZE;
    b["symx_select"] = B_SYM_SELECT; b["symx_param"] = B_SYM_TRACE;
    b["__cxa_allocate_exception"] = B_CXA_ALLOC; b["__cxa_free_exception"] = B_CXA_FREE; b["__cxa_throw"] = B_CXA_THROW; b["__cxa_begin_catch"] = B_CXA_BEGIN;
    b["__cxa_end_catch"] = B_CXA_END; b["__cxa_rethrow"] = B_CXA_RETHROW; b["__cxa_get_exception_ptr"] = B_CXA_GETPTR; b["_ZSt9terminatev"] = B_TERMINATE; b["abort"] = B_TERMINATE;
    b["__cxa_pure_virtual"] = B_TERMINATE; b["_ZSt18uncaught_exceptionv"] = B_UNCAUGHT; b["_ZSt19uncaught_exceptionsv"] = B_UNCAUGHT;
    b["pthread_create"] = B_PTHREAD_CREATE; b["pthread_join"] = B_PTHREAD_JOIN; b["pthread_mutex_lock"] = B_MUTEX_LOCK; b["pthread_mutex_unlock"] = B_MUTEX_UNLOCK; b["pthread_mutex_trylock"] = B_MUTEX_TRYLOCK;
    b["pthread_self"] = B_PTHREAD_SELF; b["sched_yield"] = B_YIELD; b["__cxa_thread_atexit"] = B_TLS_DTOR; b["__cxa_thread_atexit_impl"] = B_TLS_DTOR;
    for (const char* n : { "__cxa_atexit", "atexit", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_detach",
                           "pthread_attr_init", "pthread_attr_destroy", "__cxa_finalize" }) b[n] = B_RET0;
    b["exit"] = b["_exit"] = B_EXIT;
    b["symx_strtod"] = B_STRTOD; b["symx_fmt_double"] = B_FMTDOUBLE; b["symx_time"] = B_TIME; b["fmod"] = B_FMOD;
    b["__cxa_guard_acquire"] = B_GUARD_ACQ; b["__cxa_guard_release"] = B_GUARD_REL; b["__cxa_guard_abort"] = B_GUARD_ABORT;
    for (auto& p : b) if (p.first.rfind("symx_", 0) == 0) g_forced.insert(p.first);
}

static Res tryLock(State* s, uint64_t m, bool block, bool& got)
{
    auto it = s->mutexes.find(m);
    if (it == s->mutexes.end() || it->second.owner < 0) {
        s->mutexes[m] = { s->cur, 1 };
        syncAcquire(s, m);
        got = true;
        return CONT;
    }
    got = false;
    if (!block) return CONT;
    if (it->second.owner == s->cur) { report(s, "deadlock", "mutex locked recursively by its owner"); return DEAD; }
    s->thr[s->cur].st = T_MUTEX;
    s->thr[s->cur].waitOn = m;
    return pickOther(s) == DEAD ? DEAD : SWITCHED;
}

static Res doBuiltin(State* s, Frame& f, const DInst& n, const DExtra& x)
{
    auto arg = [&](unsigned i) -> V { return R(s, f, x.args[i]); };
    auto carg = [&](unsigned i) -> uint64_t { V v = arg(i); concretize(s, v, x.argw[i]); return v.c; };
    auto set = [&](const V& v) { setDst0(s, n, v); };
    switch (x.builtin) {
    case B_UNRESOLVED:
        addIncomplete("call to unmodelled external function " + x.calleeName);
        return DEAD;
    case B_NOP: return CONT;
    case B_INLINEASM: {
        // empty asm (compiler barriers) only
        auto* ia = cast<InlineAsm>(cast<CallBase>(n.I)->getCalledOperand());
        if (ia->getAsmString().empty()) return CONT;
        addIncomplete("inline asm: " + std::string(ia->getAsmString()));
        return DEAD;
    }
    case B_MEMCPY: case B_MEMMOVE_F: {
        uint64_t len = carg(2);
        uint64_t d = carg(0), sr = carg(1);
        if (len) {
            std::string err;
            if (!access(s, sr, len, false, err) || !access(s, d, len, true, err)) { memError(s, err); return DEAD; }
            if (s->thr.size() > 1 && o_races) {
                raceAccess(s, sr >> 32, (uint32_t)(sr & 0xffffffff) - OBJ_BASE, len, false, false, n.I);
                raceAccess(s, d >> 32, (uint32_t)(d & 0xffffffff) - OBJ_BASE, len, true, false, n.I);
            }
            copyBytes(s, d, sr, len);
        }
        if (x.builtin == B_MEMMOVE_F) set(V(d));
        return CONT;
    }
    case B_MEMSET: case B_MEMSET_F: {
        uint64_t len = carg(2);
        uint64_t d = carg(0);
        V val = arg(1);
        if (len) {
            std::string err;
            if (!access(s, d, len, true, err)) { memError(s, err); return DEAD; }
            uint32_t off = (uint32_t)(d & 0xffffffff) - OBJ_BASE;
            if (s->thr.size() > 1 && o_races) raceAccess(s, d >> 32, off, len, true, false, n.I);
            Obj* o = s->mem.getw(d >> 32);
            if (val.conc()) {
                memset(o->data + off, (int)val.c, len);
                if (o->undef) memset(o->undef + off, 0, len);
                if (o->sym) memset(o->sym + off, 0, len * sizeof(Expr*));
            } else for (uint64_t i = 0; i < len; ++i) writeObj(o, off + i, 1, V(mkExtract(val.e, 0, 8), 0), 8);
        }
        if (x.builtin == B_MEMSET_F) set(V(d));
        return CONT;
    }
    case B_EXPECT: case B_ISCONSTANT:
        if (x.builtin == B_ISCONSTANT) set(V(0)); else set(arg(0));
        return CONT;
    case B_OVF: {
        unsigned w = x.argw[0];
        Expr *a = X(arg(0), w), *b = X(arg(1), w), *r = nullptr, *o = nullptr;
        auto id = cast<IntrinsicInst>(n.I)->getIntrinsicID();
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        Op op = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? E_ADD : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? E_SUB : E_MUL;
        r = mkBin(op, a, b);
        unsigned w2 = op == E_MUL ? 2 * w : w + 1;
        if (w2 > 128) w2 = 128;
        Expr* wide = sg ? mkBin(op, mkSext(a, w2), mkSext(b, w2)) : mkBin(op, mkZext(a, w2), mkZext(b, w2));
        o = mkNot(mkBin(E_EQ, wide, sg ? mkSext(r, w2) : mkZext(r, w2)));
        set(V(mkAgg({ FX(r), FX(o) }, { (uint16_t)w, 1 }), 0));
        return CONT;
    }
    case B_SAT: {
        unsigned w = x.argw[0];
        Expr *a = X(arg(0), w), *b = X(arg(1), w);
        if (cast<IntrinsicInst>(n.I)->getIntrinsicID() == Intrinsic::usub_sat) set(FX(mkIte(mkBin(E_ULT, a, b), mkConst(0, w), mkBin(E_SUB, a, b))));
        else { Expr* r = mkBin(E_ADD, a, b); set(FX(mkIte(mkBin(E_ULT, r, a), mkConst(wmask(w), w), r))); }
        return CONT;
    }
    case B_CTLZ: case B_CTTZ: case B_CTPOP: {
        unsigned w = x.argw[0];
        Expr* a = X(arg(0), w);
        Expr* r;
        if (x.builtin == B_CTPOP) {
            r = mkConst(0, w);
            for (unsigned i = 0; i < w; ++i) r = mkBin(E_ADD, r, mkZext(mkExtract(a, i, 1), w));
        } else {
            r = mkConst(w, w);
            for (unsigned i = 0; i < w; ++i) {
                unsigned bit = x.builtin == B_CTLZ ? i : w - 1 - i;
                r = mkIte(mkExtract(a, bit, 1), mkConst(x.builtin == B_CTLZ ? w - 1 - bit : bit, w), r);
            }
        }
        set(FX(r));
        return CONT;
    }
    case B_BSWAP: {
        unsigned w = x.argw[0];
        Expr *a = X(arg(0), w), *r = nullptr;
        for (unsigned i = 0; i < w; i += 8) { Expr* b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; }
        set(FX(r));
        return CONT;
    }
    case B_ABS: {
        unsigned w = x.argw[0];
        Expr* a = X(arg(0), w);
        set(FX(mkIte(mkBin(E_SLT, a, mkConst(0, w)), mkBin(E_SUB, mkConst(0, w), a), a)));
        return CONT;
    }
    case B_MINMAX: {
        unsigned w = x.argw[0];
        Expr *a = X(arg(0), w), *b = X(arg(1), w);
        auto id = cast<IntrinsicInst>(n.I)->getIntrinsicID();
        Op op = id == Intrinsic::smax || id == Intrinsic::smin ? E_SLT : E_ULT;
        bool mx = id == Intrinsic::smax || id == Intrinsic::umax;
        Expr* lt = mkBin(op, a, b);
        set(FX(mx ? mkIte(lt, b, a) : mkIte(lt, a, b)));
        return CONT;
    }
    case B_FABS: { unsigned w = x.argw[0]; if (w == 80) w = 64; set(FX(mkBin(E_AND, X(arg(0), w), mkConst(wmask(w) >> 1, w)))); return CONT; }
    case B_COPYSIGN: { unsigned w = x.argw[0]; set(FX(mkBin(E_OR, mkBin(E_AND, X(arg(0), w), mkConst(wmask(w) >> 1, w)), mkBin(E_AND, X(arg(1), w), mkConst((u128)1 << (w - 1), w))))); return CONT; }
    case B_FSHL: case B_FSHR: {
        unsigned w = x.argw[0];
        V sh = arg(2);
        concretize(s, sh, w);
        unsigned k = sh.c % w;
        Expr *a = X(arg(0), w), *b = X(arg(1), w);
        if (k == 0) set(FX(x.builtin == B_FSHL ? a : b));
        else if (x.builtin == B_FSHL) set(FX(mkConcat(mkExtract(a, 0, w - k), mkExtract(b, w - k, k))));
        else set(FX(mkConcat(mkExtract(a, 0, k), mkExtract(b, k, w - k))));
        return CONT;
    }
    case B_TRAP: report(s, "trap", "trap executed (undefined behaviour check)"); return DEAD;
    case B_VASTART: {
        uint64_t p = carg(0);
        Obj* o = s->mem.getw(p >> 32);
        uint32_t off = (uint32_t)(p & 0xffffffff) - OBJ_BASE;
        writeObj(o, off, 4, V(48), 32);
        writeObj(o, off + 4, 4, V(176), 32);
        writeObj(o, off + 8, 8, V(f.varargs), 64);
        writeObj(o, off + 16, 8, V(0), 64);
        return CONT;
    }
    case B_VACOPY: copyBytes(s, carg(0), carg(1), 24); return CONT;
    case B_EHTYPEID: { uint64_t t = carg(0); set(V(t >> 32)); return CONT; }
    case B_FRINT: {
        auto id = cast<IntrinsicInst>(n.I)->getIntrinsicID();
        unsigned w = x.argw[0];
        unsigned aux = id == Intrinsic::floor ? 1 : id == Intrinsic::ceil ? 2 : id == Intrinsic::trunc ? 3 : id == Intrinsic::round ? 4 : 0;
        set(FX(mkF1(E_FRINT, X(arg(0), w), w, aux)));
        return CONT;
    }
    case B_FSQRT: { unsigned w = x.argw[0]; set(FX(mkF1(E_FSQRT, X(arg(0), w), w))); return CONT; }
    case B_FMINMAX: {
        unsigned w = x.argw[0];
        Expr *a = X(arg(0), w), *b = X(arg(1), w);
        bool mx = cast<IntrinsicInst>(n.I)->getIntrinsicID() == Intrinsic::maxnum;
        Expr* r = mx ? mkIte(mkBin(E_FLT, a, b), b, a) : mkIte(mkBin(E_FLT, a, b), a, b);
        r = mkIte(mkF1(E_FISNAN, a, 1), b, mkIte(mkF1(E_FISNAN, b, 1), a, r));
        set(FX(r));
        return CONT;
    }
    case B_FMULADD: { unsigned w = x.argw[0]; set(FX(mkBin(E_FADD, mkBin(E_FMUL, X(arg(0), w), X(arg(1), w)), X(arg(2), w)))); return CONT; }
    case B_FMOD: set(FX(mkBin(E_FREM, X(arg(0), 64), X(arg(1), 64)))); return CONT;
    case B_TLSADDR: {
        auto* G = cast<GlobalVariable>(n.I->getOperand(0)->stripPointerCasts());
        Thread& t = s->thr[s->cur];
        auto it = t.tls.find(G);
        uint64_t a;
        if (it != t.tls.end()) a = it->second;
        else {
            Obj* g = s->mem.get(g_gaddr[G] >> 32);
            a = s->mem.alloc(g->size, OBJ_GLOBAL, g->name, false);
            std::vector<uint8_t> init(g->size);
            if (!G->isDeclaration()) writeConst(init.data(), G->getInitializer());
            memcpy(s->mem.getw(a >> 32)->data, init.data(), g->size);
            t.tls[G] = a;
        }
        set(V(a));
        return CONT;
    }
    case B_OBJSIZE: set(V(~0ULL)); return CONT;
    case B_STACKSAVE: set(V(0)); return CONT;

    case B_MALLOC: case B_NEW: case B_CALLOC: case B_MEMALIGN: {
        uint64_t sz = x.builtin == B_CALLOC ? carg(0) * carg(1) : x.builtin == B_MEMALIGN ? carg(1) : carg(0);
        if (sz > (1u << 28)) {
            if (x.builtin == B_NEW) { report(s, "allocation", "operator new of " + std::to_string(sz) + " bytes"); return DEAD; }
            set(V(0));
            return CONT;
        }
        set(V(s->mem.alloc((uint32_t)sz, OBJ_HEAP, f.f->name.c_str(), x.builtin != B_CALLOC)));
        return CONT;
    }
    case B_POSIX_MEMALIGN: {
        uint64_t p = carg(0), sz = carg(2);
        uint64_t a = s->mem.alloc((uint32_t)sz, OBJ_HEAP, f.f->name.c_str(), true);
        if (storeMem(s, V(p), V(a), 8, 64, false, n.I) != CONT) return DEAD;
        set(V(0));
        return CONT;
    }
    case B_REALLOC: {
        uint64_t p = carg(0), sz = carg(1);
        uint64_t a = s->mem.alloc((uint32_t)sz, OBJ_HEAP, f.f->name.c_str(), true);
        if (p) {
            std::string err;
            Obj* o = access(s, p, 0, false, err);
            if (!o) { memError(s, err); return DEAD; }
            copyBytes(s, a, p, std::min<uint64_t>(o->size, sz));
            s->mem.release(p >> 32, true);
        }
        set(V(a));
        return CONT;
    }
    case B_FREE: case B_DELETE: {
        uint64_t p = carg(0);
        if (!p) return CONT;
        Obj* o = s->mem.get(p >> 32);
        if (!o) { report(s, "memory-error", "free of invalid pointer"); return DEAD; }
        if (!(o->flags & OBJ_ALIVE)) { report(s, "memory-error", "double free"); return DEAD; }
        if (!(o->flags & OBJ_HEAP) || (p & 0xffffffff) != OBJ_BASE) { report(s, "memory-error", "free of non-heap pointer"); return DEAD; }
        if (s->thr.size() > 1 && o_races && o->size) raceAccess(s, p >> 32, 0, std::min<uint32_t>(o->size, 64), true, false, n.I);
        s->mem.release(p >> 32, true);
        return CONT;
    }
    case B_MEMCMP: {
        uint64_t len = carg(2), a = carg(0), b = carg(1);
        if (!len) { set(V(0)); return CONT; }
        std::string err;
        Obj *oa = access(s, a, len, false, err), *ob = oa ? access(s, b, len, false, err) : nullptr;
        if (!oa || !ob) { memError(s, err); return DEAD; }
        uint64_t ia = a >> 32, ib = b >> 32;
        uint32_t fa = (uint32_t)(a & 0xffffffff) - OBJ_BASE, fb = (uint32_t)(b & 0xffffffff) - OBJ_BASE;
        if (s->thr.size() > 1 && o_races) { raceAccess(s, ia, fa, len, false, false, n.I); raceAccess(s, ib, fb, len, false, false, n.I); }
        Expr* r = mkConst(0, 32);
        std::vector<std::pair<Expr*, Expr*>> parts;
        for (uint64_t i = 0; i < len; ++i) {
            V p = readObj(s, s->mem.get(ia), ia, fa + i, 1, 8), q = readObj(s, s->mem.get(ib), ib, fb + i, 1, 8);
            if (p.conc() && q.conc()) {
                if (p.c != q.c) { parts.push_back({ X(p, 8), X(q, 8) }); break; }
                continue;
            }
            parts.push_back({ X(p, 8), X(q, 8) });
        }
        for (int i = (int)parts.size() - 1; i >= 0; --i) {
            Expr *p = parts[i].first, *q = parts[i].second;
            Expr* d = mkIte(mkBin(E_ULT, p, q), mkConst(0xffffffffu, 32), mkConst(1, 32));
            r = mkIte(mkBin(E_EQ, p, q), r, d);
        }
        set(FX(r));
        return CONT;
    }

    // ---- harness API
    case B_SYM_BYTES: {
        uint64_t p = carg(0), len = carg(1);
        std::string nm = readCStr(s, carg(2));
        std::string err;
        if (len && !access(s, p, len, true, err)) { memError(s, err); return DEAD; }
        uint32_t seq = s->inputs.size();
        Input in { nm, (uint32_t)len, {} };
        Obj* o = s->mem.getw(p >> 32);
        uint32_t off = (uint32_t)(p & 0xffffffff) - OBJ_BASE;
        for (uint32_t i = 0; i < len; ++i) {
            Expr* v = inputVar(seq, i, 8, nm);
            in.vars.push_back(v);
            writeObj(o, off + i, 1, V(v, 0), 8);
        }
        s->inputs.push_back(in);
        return CONT;
    }
    case B_SYM_VAL: {
        unsigned w = n.w;
        std::string nm = readCStr(s, carg(0));
        uint32_t seq = s->inputs.size();
        Expr* v = inputVar(seq, 0, w, nm);
        if (w == 8) v = inputVar(seq, 0, 8, nm);
        s->inputs.push_back({ nm, w / 8, { v } });
        set(V(v, 0));
        return CONT;
    }
    case B_SYM_RANGE: case B_SYM_CHOOSE: {
        bool ch = x.builtin == B_SYM_CHOOSE;
        uint64_t lo = ch ? 0 : carg(0), hi = ch ? carg(0) - 1 : carg(1);
        std::string nm = readCStr(s, carg(ch ? 1 : 2));
        uint32_t seq = s->inputs.size();
        unsigned w = hi < 256 ? 8 : hi < 65536 ? 16 : hi < (1ULL << 32) ? 32 : 64;
        if ((int64_t)lo < 0 || (int64_t)hi < 0) w = 64;
        Expr* v = inputVar(seq, 0, w, nm);
        Expr* v64 = mkZext(v, 64);
        Expr* c;
        if ((int64_t)lo < 0) c = mkBin(E_AND, mkBin(E_SLE, mkConst(lo, 64), v64), mkBin(E_SLE, v64, mkConst(hi, 64)));
        else c = mkBin(E_AND, mkBin(E_ULE, mkConst(lo, w), v), mkBin(E_ULE, v, mkConst(hi, w)));
        Input in { nm, w / 8, { v } };
        // the variable is new on this path, so the constraint is always satisfiable
        s->inputs.push_back(in);
        if (ch) {
            // fork over all values
            for (uint64_t k = 1; k <= hi; ++k) {
                State* o = cloneState(s);
                st.symbr++;
                Expr* eq = mkBin(E_EQ, v, mkConst(k, w));
                addPC(o, eq);
                auto m = std::make_shared<Model>(*o->model);
                (*m)[v->aux] = k;
                o->model = m;
                setDst0(o, n, V(k));
                Frame& of = o->thr[o->cur].frames.back();
                if (x.isInvoke) jump(o, of, n.t0); else of.pc++;
                work.push_back(o);
            }
            addPC(s, mkBin(E_EQ, v, mkConst(0, w)));
            auto m = std::make_shared<Model>(*s->model);
            (*m)[v->aux] = 0;
            s->model = m;
            set(V(0));
            return CONT;
        }
        auto m = std::make_shared<Model>(*s->model);
        (*m)[v->aux] = lo;
        s->model = m;
        addPC(s, c);
        set(FX(v64));
        return CONT;
    }
    case B_SYM_ASSUME: {
        V c = arg(0);
        unsigned w = x.argw[0];
        Expr* e = mkNot(mkBin(E_EQ, X(c, w), mkConst(0, w)));
        if (!assume(s, e)) return DEAD;
        return CONT;
    }
    case B_SYM_ASSERT: {
        V c = arg(0);
        unsigned w = x.argw[0];
        Expr* e = mkNot(mkBin(E_EQ, X(c, w), mkConst(0, w)));
        st.asserts++;
        std::string msg = readCStr(s, carg(1));
        assertCount[msg]++;
        if (isConst(e)) {
            if (!e->val) { report(s, "assertion", msg); return DEAD; }
            return CONT;
        }
        st.assertq++;
        Model m;
        SatResult r = check(s, mkNot(e), m);
        if (r == R_SAT) report(s, "assertion", msg, &m);
        if (!assume(s, e)) return DEAD;
        return CONT;
    }
    case B_SYM_REACH: s->reached.insert(readCStr(s, carg(0))); return CONT;
    case B_SYM_CONC: { V v = arg(0); concretize(s, v, x.argw[0]); set(v); return CONT; }
    case B_SYM_ISSYM: { V v = arg(0); set(V(v.conc() ? 0 : 1)); return CONT; }
    case B_SYM_FAIL: report(s, "assertion", readCStr(s, carg(0))); return DEAD;
    case B_SYM_PRINT: {
        V v = arg(1);
        if (getenv("SYMX_VERBOSE")) fprintf(stderr, "symx: print %s %s\n", readCStr(s, carg(0)).c_str(), v.conc() ? std::to_string(v.c).c_str() : exprStr(v.e).c_str());
        if (s->outs.size() < 256) s->outs.push_back({ readCStr(s, carg(0)), v });
        return CONT;
    }
    case B_SYM_ENGINE: set(V(1)); return CONT;
    case B_SYM_SCHED: o_preempt = (int)carg(0); return CONT;
    case B_SYM_DONE: { // end path here, counted as completed
        s->thr[0].frames.clear();
        for (size_t i = 1; i < s->thr.size(); ++i) s->thr[i].st = T_DONE;
        s->cur = 0;
        s->initIdx = 1 << 30;
        return SWITCHED;
    }
    case B_SYM_OBJSIZE: { uint64_t p = carg(0); Obj* o = s->mem.get(p >> 32); set(V(o && (o->flags & OBJ_ALIVE) ? o->size : 0)); return CONT; }
    case B_SYM_SELECT: { unsigned w = x.argw[0]; Expr* c = mkNot(mkBin(E_EQ, X(arg(0), w), mkConst(0, w))); set(FX(mkIte(c, X(arg(1), 64), X(arg(2), 64)))); return CONT; }
    case B_SYM_TRACE: {
        std::string nm = readCStr(s, carg(0));
        uint64_t v = carg(1);
        for (auto& p : o_params) if (p.first == nm) v = p.second;
        set(V(v));
        return CONT;
    }

    // ---- exceptions
    case B_CXA_ALLOC: {
        uint64_t sz = carg(0);
        set(V(s->mem.alloc((uint32_t)sz, OBJ_HEAP, "exception", true)));
        return CONT;
    }
    case B_CXA_FREE: s->mem.release(carg(0) >> 32, true); return CONT;
    case B_CXA_THROW: {
        uint64_t p = carg(0), ti = carg(1), d = carg(2);
        s->excs.push_back({ p, ti, d, 0, 0 });
        Res r = unwind(s, p, true);
        return r;
    }
    case B_CXA_BEGIN: {
        uint64_t p = carg(0);
        Exc* e = findExc(s, p);
        if (!e) { addIncomplete("begin_catch"); return DEAD; }
        if (e->handlers < 0) e->handlers = -e->handlers;
        e->handlers++;
        s->thr[s->cur].caught.push_back(p);
        set(V(p + e->adj));
        return CONT;
    }
    case B_CXA_GETPTR: { Exc* e = findExc(s, carg(0)); set(V(carg(0) + (e ? e->adj : 0))); return CONT; }
    case B_CXA_END: {
        Thread& t = s->thr[s->cur];
        if (t.caught.empty()) { addIncomplete("end_catch"); return DEAD; }
        uint64_t p = t.caught.back();
        t.caught.pop_back();
        for (size_t i = 0; i < s->excs.size(); ++i)
            if (s->excs[i].ptr == p) {
                if (s->excs[i].handlers < 0) { // being rethrown
                    s->excs[i].handlers++;
                    return CONT;
                }
                if (--s->excs[i].handlers > 0) return CONT;
                DFunc* d = s->excs[i].dtor ? funcAt(s->excs[i].dtor) : nullptr;
                s->excs.erase(s->excs.begin() + i);
                if (d) { pushFrame(s, d, { V(p) }); return SWITCHED; }
                return CONT;
            }
        return CONT;
    }
    case B_CXA_RETHROW: {
        Thread& t = s->thr[s->cur];
        if (t.caught.empty()) { report(s, "terminate", "rethrow without a current exception"); return DEAD; }
        uint64_t p = t.caught.back();
        Exc* e = findExc(s, p);
        if (e) e->handlers = -e->handlers;
        return unwind(s, p, true);
    }
    case B_TERMINATE: report(s, "terminate", "std::terminate/abort called"); return DEAD;
    case B_UNCAUGHT: set(V(0)); return CONT;
    case B_EXIT:
        addIncomplete("exit() called");
        return DEAD;

    // ---- threads
    case B_PTHREAD_CREATE: {
        uint64_t tp = carg(0), fn = carg(2);
        V ar = arg(3);
        DFunc* d = funcAt(fn);
        if (!d) { report(s, "memory-error", "pthread_create with invalid function"); return DEAD; }
        if (s->thr.size() >= 8) { addIncomplete("more than 8 threads"); return DEAD; }
        int me = s->cur;
        int id = s->thr.size();
        if (storeMem(s, V(tp), V(id + 1), 8, 64, false, n.I) != CONT) return DEAD;
        set(V(0));
        s->thr.emplace_back();
        memcpy(s->thr[id].vc, s->thr[me].vc, sizeof s->thr[me].vc);
        s->thr[id].vc[id] = 1;
        s->thr[me].vc[me]++;
        s->cur = id;
        pushFrame(s, d, { ar });
        s->cur = me;
        return CONT;
    }
    case B_PTHREAD_JOIN: {
        uint64_t id = carg(0) - 1;
        if (id >= s->thr.size()) { report(s, "memory-error", "join of invalid thread"); return DEAD; }
        if (s->thr[id].st != T_DONE) {
            s->thr[s->cur].st = T_JOIN;
            s->thr[s->cur].waitOn = id;
            return pickOther(s) == DEAD ? DEAD : SWITCHED;
        }
        s->thr[s->cur].passed = false;
        vcJoin(s->thr[s->cur].vc, s->thr[id].vc);
        uint64_t rp = carg(1);
        if (rp && storeMem(s, V(rp), s->thr[id].ret, 8, 64, false, n.I) != CONT) return DEAD;
        set(V(0));
        return CONT;
    }
    case B_MUTEX_LOCK: {
        schedPoint(s);
        bool got;
        Res r = tryLock(s, carg(0), true, got);
        if (r == CONT) set(V(0));
        return r;
    }
    case B_MUTEX_TRYLOCK: { schedPoint(s); bool got; tryLock(s, carg(0), false, got); set(V(got ? 0 : 16)); return CONT; }
    case B_MUTEX_UNLOCK: {
        schedPoint(s);
        uint64_t m = carg(0);
        auto it = s->mutexes.find(m);
        if (it == s->mutexes.end() || it->second.owner != s->cur) { report(s, "mutex", "unlock of a mutex not held"); return DEAD; }
        it->second.owner = -1;
        if (s->thr.size() > 1) syncRelease(s, m, false);
        set(V(0));
        return CONT;
    }
    case B_PTHREAD_SELF: set(V(s->cur + 1)); return CONT;
    case B_YIELD: {
        set(V(0));
        if (s->thr.size() < 2) return CONT;
        // spinning thread gives up the processor: always switch if another thread can run
        Thread& t = s->thr[s->cur];
        if (t.passed) { t.passed = false; return CONT; }
        bool any = false;
        for (int i = 0; i < (int)s->thr.size(); ++i) if (i != s->cur && runnable(s, i)) any = true;
        if (!any) return CONT;
        Res r = pickOther(s);
        return r == DEAD ? DEAD : SWITCHED;
    }
    case B_TLS_DTOR: { s->thr[s->cur].dtors.push_back({ carg(0), carg(1) }); set(V(0)); return CONT; }
    case B_RET0: set(V(0)); return CONT;
    case B_RETNULL: set(V(0)); return CONT;
    case B_GUARD_ACQ: {
        uint64_t g = carg(0);
        V v;
        std::string err;
        Obj* o = access(s, g, 1, false, err);
        if (!o) { memError(s, err); return DEAD; }
        v = readObj(s, o, g >> 32, (uint32_t)(g & 0xffffffff) - OBJ_BASE, 1, 8);
        if (v.c) { set(V(0)); syncAcquire(s, g); return CONT; }
        bool got;
        Res r = tryLock(s, g, true, got);
        if (r != CONT) return r;
        // re-check happens because the instruction is re-executed after blocking
        set(V(1));
        return CONT;
    }
    case B_GUARD_REL: case B_GUARD_ABORT: {
        uint64_t g = carg(0);
        if (x.builtin == B_GUARD_REL) writeObj(s->mem.getw(g >> 32), (uint32_t)(g & 0xffffffff) - OBJ_BASE, 1, V(1), 8);
        s->mutexes[g].owner = -1;
        syncRelease(s, g, false);
        return CONT;
    }
    case B_STRTOD: {
        uint64_t p = carg(0), ep = carg(1);
        std::string str;
        for (uint64_t a = p;; ++a) {
            V c;
            if (loadMem(s, V(a), 1, 8, c, false, n.I) != CONT) return DEAD;
            concretize(s, c, 8);
            if (!c.c) break;
            str += (char)c.c;
        }
        char* e;
        double d = strtod(str.c_str(), &e);
        uint64_t bits; memcpy(&bits, &d, 8);
        if (ep && storeMem(s, V(ep), V(p + (e - str.c_str())), 8, 64, false, n.I) != CONT) return DEAD;
        set(V(bits));
        return CONT;
    }
    case B_FMTDOUBLE: { // int symx_fmt_double(char* buf, size_t n, const char* fmt, int prec, double v)
        uint64_t p = carg(0), sz = carg(1);
        std::string fmt = readCStr(s, carg(2));
        int prec = (int)carg(3);
        V dv = arg(4);
        if (!dv.conc()) {
            evalNewGeneration();
            u128 val = evalExpr(dv.e, *s->model);
            Model m;
            if (check(s, mkNot(mkBin(E_EQ, dv.e, mkConst(val, 64))), m) != R_UNSAT) { addIncomplete("formatting of a symbolic floating-point value"); return DEAD; }
            dv = V((uint64_t)val);
        }
        double d; memcpy(&d, &dv.c, 8);
        char buf[512];
        int k = prec >= 0 ? snprintf(buf, sizeof buf, fmt.c_str(), prec, d) : snprintf(buf, sizeof buf, fmt.c_str(), d);
        for (int i = 0; i <= k && (uint64_t)i < sz; ++i) {
            char ch = (i == k || (uint64_t)i == sz - 1) ? 0 : buf[i];
            if (storeMem(s, V(p + i), V((uint8_t)ch), 1, 8, false, n.I) != CONT) return DEAD;
        }
        set(V((uint32_t)k));
        return CONT;
    }
    case B_TIME: set(V(++s->timeCounter)); return CONT;
    default: addIncomplete("builtin not implemented: " + x.calleeName); return DEAD;
    }
}
