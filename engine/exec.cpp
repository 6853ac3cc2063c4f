#include "exec.h"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/InlineAsm.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <deque>
#include <functional>
#include <unordered_set>

using namespace llvm;
typedef std::chrono::steady_clock Clock;
[[noreturn]] void fatal(const std::string& s) { fprintf(stderr, "symx: fatal: %s\n", s.c_str()); fflush(stderr); _exit(70); }

// ---------------------------------------------------------------- options / statistics
static std::string o_entry, o_out, o_srcprefix = "/repo/";
static double o_maxsec = 600;
static int o_jobs = 1, o_preempt = 2, o_maxviol = 1;
static uint64_t o_maxsteps = 30000000;
static bool o_races = true, o_trace = false, o_bfs = false, o_undefok = true;
static unsigned o_maxite = 4096;
static size_t o_maxpaths = 2000000;
static std::vector<std::pair<std::string,uint64_t>> o_params;
static Clock::time_point t_start;
static double now() { return std::chrono::duration<double>(Clock::now() - t_start).count(); }

struct Violation { std::string kind, msg, loc, stack, inputs, sched; };
struct Stats {
    uint64_t paths = 0, killed = 0, instrs = 0, forks = 0, asserts = 0, assertq = 0, symbr = 0, schedpts = 0, maxdepth = 0, states = 0;
};
static Stats st;
static std::vector<Violation> viols;
static std::set<std::string> violKeys;
static std::map<std::string, uint64_t> incomplete;
static std::map<std::string, uint64_t> reachCount;
static std::vector<std::string> reachWitness;
static std::map<std::string, uint64_t> assertCount;
static std::map<std::string, std::string> samples;

std::set<std::string> g_forced;

static std::vector<State*> work;

// ---------------------------------------------------------------- helpers
static std::string locOf(Instruction* I)
{
    if (!I) return "?";
    if (const DILocation* L = I->getDebugLoc().get()) {
        std::string s = L->getFilename().str();
        return s + ":" + std::to_string(L->getLine());
    }
    return I->getFunction() ? I->getFunction()->getName().str() : "?";
}

static std::string stackOf(State* s)
{
    std::string r;
    Thread& t = s->thr[s->cur];
    int n = 0;
    for (int i = (int)t.frames.size() - 1; i >= 0 && n < 14; --i, ++n) {
        Frame& f = t.frames[i];
        int pc = f.pc;
        auto& ins = f.f->blocks[f.block].insts;
        Instruction* I = pc < (int)ins.size() ? ins[pc].I : nullptr;
        r += f.f->name + " (" + locOf(I) + ")\n";
    }
    return r;
}

static inline Expr* X(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline V FX(Expr* e) { if (e->op == E_CONST && e->w <= 64) return V((uint64_t)e->val); return V(e, 0); }

static std::map<std::pair<uint32_t, uint32_t>, Expr*> s_inputVars;
static Expr* inputVar(uint32_t seq, uint32_t byte, unsigned w, const std::string& name)
{
    auto key = std::make_pair(seq * 8u + (w == 64 ? 7 : w == 32 ? 6 : w == 16 ? 5 : 4), byte);
    auto it = s_inputVars.find(key);
    if (it != s_inputVars.end()) return it->second;
    Expr* e = mkVar(name + "#" + std::to_string(seq) + (w == 8 ? "." + std::to_string(byte) : ""), w);
    s_inputVars[key] = e;
    return e;
}
static std::vector<Expr*> s_undefVars;
static Expr* undefVar(State* s)
{
    uint32_t k = s->nundef++;
    while (s_undefVars.size() <= k) s_undefVars.push_back(mkVar("undef#" + std::to_string(s_undefVars.size()), 8));
    return s_undefVars[k];
}

static std::string inputsJson(State* s, const Model& m)
{
    std::string r = "[";
    bool first = true;
    evalNewGeneration();
    for (auto& in : s->inputs) {
        if (!first) r += ",";
        first = false;
        r += "{\"name\":\"" + in.name + "\",\"size\":" + std::to_string(in.size) + ",\"hex\":\"";
        for (Expr* v : in.vars) {
            u128 val = evalExpr(v, m);
            for (unsigned b = 0; b < v->w; b += 8) { char t[4]; snprintf(t, sizeof t, "%02x", (unsigned)((val >> b) & 0xff)); r += t; }
        }
        r += "\"}";
    }
    return r + "]";
}

static std::string sampleJson(State* s, const Model& m)
{
    std::string r = "{\"inputs\":" + inputsJson(s, m) + ",\"sched\":\"" + s->sched + "\",\"outs\":[";
    bool first = true;
    for (auto& o : s->outs) {
        uint64_t val = o.second.conc() ? o.second.c : (uint64_t)evalExpr(o.second.e, m);
        r += (first ? "[\"" : ",[\"") + o.first + "\",\"" + std::to_string(val) + "\"]";
        first = false;
    }
    return r + "]}";
}

static void addIncomplete(const std::string& why) { incomplete[why]++; if (incomplete[why] == 1 && getenv("SYMX_VERBOSE")) fprintf(stderr, "symx: incomplete: %s\n", why.c_str()); }

static SatResult check(State* s, Expr* cond, Model& m)
{
    m = *s->model;
    SatResult r = solverCheck(s->pc, cond, m);
    if (r == R_UNKNOWN) addIncomplete("solver returned unknown");
    return r;
}
static bool evalB(State* s, Expr* c) { evalNewGeneration(); return evalExpr(c, *s->model) != 0; }

static void addPC(State* s, Expr* c)
{
    if (isConst(c)) return;
    if (c->op == E_AND && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
    s->pc.push_back(c);
}

// returns false if path dies
static bool assume(State* s, Expr* c)
{
    if (isConst(c)) return c->val != 0;
    if (evalB(s, c)) { addPC(s, c); return true; }
    Model m;
    SatResult r = check(s, c, m);
    if (r != R_SAT) return false;
    s->model = std::make_shared<Model>(m);
    addPC(s, c);
    return true;
}

static void report(State* s, const std::string& kind, const std::string& msg, const Model* m = nullptr)
{
    Thread& t = s->thr[s->cur];
    std::string loc = "?";
    // first frame in a project source file gives the location
    for (int i = (int)t.frames.size() - 1; i >= 0; --i) {
        Frame& f = t.frames[i];
        auto& ins = f.f->blocks[f.block].insts;
        Instruction* I = f.pc < (int)ins.size() ? ins[f.pc].I : nullptr;
        std::string l = locOf(I);
        if (loc == "?") loc = l;
        if (l.find(o_srcprefix) == 0 || l.find("/verif/") == 0) { loc = l; break; }
    }
    std::string key = kind + "|" + msg + "|" + loc;
    if (!violKeys.insert(key).second) return;
    Violation v { kind, msg, loc, stackOf(s), inputsJson(s, m ? *m : *s->model), s->sched };
    viols.push_back(v);
    if (getenv("SYMX_VERBOSE")) fprintf(stderr, "symx: %s: %s at %s\n%s", kind.c_str(), msg.c_str(), loc.c_str(), v.stack.c_str());
}

static bool g_forklog = getenv("SYMX_FORKS") != nullptr; // debugging aid: where paths fork
static std::map<std::string, uint64_t> forkLog;
static State* cloneState(State* s)
{
    st.forks++;
    if (g_forklog) forkLog[stackOf(s)]++;
    State* n = new State(*s);
    return n;
}

enum Res { CONT, DEAD, AGAIN, SWITCHED };

// Force v to a concrete value; forks the alternatives (they re-execute the current instruction).
static bool concretize(State* s, V& v, unsigned w)
{
    if (v.conc()) return true;
    evalNewGeneration();
    u128 val = evalExpr(v.e, *s->model);
    Expr* k = mkConst(val, v.e->w);
    Expr* eq = mkBin(E_EQ, v.e, k);
    if (!isConst(eq)) {
        Model m;
        SatResult r = check(s, mkNot(eq), m);
        if (r == R_SAT) {
            State* o = cloneState(s);
            addPC(o, mkNot(eq));
            o->model = std::make_shared<Model>(m);
            work.push_back(o);
            st.symbr++;
        }
        addPC(s, eq);
    }
    v = w <= 64 ? V((uint64_t)val) : V(k, 0);
    return true;
}

// ---------------------------------------------------------------- memory
static void raceAccess(State* s, uint64_t id, uint32_t off, uint32_t n, bool write, bool atomic, Instruction* I);

static V readObj(State* s, Obj* o, uint64_t id, uint32_t off, uint32_t n, unsigned w)
{
    bool plain = true;
    if (o->undef) for (uint32_t i = 0; i < n; ++i) if (o->undef[off + i]) { plain = false; break; }
    if (plain && o->sym) for (uint32_t i = 0; i < n; ++i) if (o->sym[off + i]) { plain = false; break; }
    if (plain) {
        if (n <= 8) { uint64_t x = 0; memcpy(&x, o->data + off, n); return V(m64(x, w)); }
        u128 x = 0; memcpy(&x, o->data + off, n > 16 ? 16 : n);
        return V(mkConst(x, w), 0);
    }
    if (o->undef) {
        bool anyu = false;
        for (uint32_t i = 0; i < n; ++i) if (o->undef[off + i]) anyu = true;
        if (anyu) {
            o = s->mem.getw(id);
            if (!o->sym) o->sym = (Expr**)calloc(o->size + 1, sizeof(Expr*));
            for (uint32_t i = 0; i < n; ++i) if (o->undef[off + i]) { o->undef[off + i] = 0; o->sym[off + i] = undefVar(s); }
        }
    }
    Expr* r = nullptr;
    for (uint32_t i = 0; i < n; ++i) {
        Expr* b = (o->sym && o->sym[off + i]) ? o->sym[off + i] : mkConst(o->data[off + i], 8);
        r = r ? mkConcat(b, r) : b;
    }
    if (r->w != w) r = mkExtract(r, 0, w);
    return FX(r);
}

static void writeObj(Obj* o, uint32_t off, uint32_t n, const V& v, unsigned w)
{
    if (o->undef) memset(o->undef + off, 0, n);
    if (v.conc()) {
        if (n <= 8) memcpy(o->data + off, &v.c, n);
        else { memset(o->data + off, 0, n); memcpy(o->data + off, &v.c, 8); }
        if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr*));
        return;
    }
    if (isConst(v.e)) {
        u128 x = v.e->val;
        memcpy(o->data + off, &x, n > 16 ? 16 : n);
        if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr*));
        return;
    }
    if (!o->sym) o->sym = (Expr**)calloc(o->size + 1, sizeof(Expr*));
    Expr* e = v.e;
    if (e->w < n * 8) e = mkZext(e, n * 8);
    for (uint32_t i = 0; i < n; ++i) {
        Expr* b = mkExtract(e, i * 8, 8);
        if (isConst(b)) { o->data[off + i] = (uint8_t)b->val; o->sym[off + i] = nullptr; }
        else o->sym[off + i] = b;
    }
}

static std::string objDesc(Obj* o, uint64_t a)
{
    char b[200];
    if (!o) { snprintf(b, sizeof b, "address 0x%llx (no object)", (unsigned long long)a); return b; }
    snprintf(b, sizeof b, "%s object '%s' size %u offset %lld", o->flags & OBJ_HEAP ? "heap" : o->flags & OBJ_STACK ? "stack" : "global",
             o->name, o->size, (long long)((a & 0xffffffff) - OBJ_BASE));
    return b;
}

// Check a concrete access
static Obj* access(State* s, uint64_t a, uint64_t n, bool write, std::string& err)
{
    uint64_t id = a >> 32;
    Obj* o = s->mem.get(id);
    uint64_t off = (a & 0xffffffff) - OBJ_BASE;
    if (!o) { err = std::string(a < (1ULL << 32) ? "null pointer dereference" : "invalid pointer") + " (" + (write ? "write" : "read") + " of " + std::to_string(n) + " at " + objDesc(o, a) + ")"; return nullptr; }
    if (!(o->flags & OBJ_ALIVE)) { err = std::string("use after ") + (o->flags & OBJ_STACK ? "scope" : "free") + " (" + (write ? "write" : "read") + ")"; return nullptr; }
    if (off > o->size || n > o->size - off) { err = std::string("out of bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes, " + objDesc(o, a); return nullptr; }
    if (write && (o->flags & OBJ_RO)) { err = "write to constant, " + objDesc(o, a); return nullptr; }
    if (o->flags & OBJ_OPAQUE) { err = "access to opaque external object " + std::string(o->name); return nullptr; }
    return o;
}

static bool memError(State* s, const std::string& err)
{
    if (err.find("opaque external") != std::string::npos) addIncomplete(err);
    else report(s, "memory-error", err);
    return false;
}

// Resolve a symbolic address of an n byte access: on return either concrete (obj, off) or (obj, offExpr) within bounds.
static bool resolve(State* s, Expr* a, uint64_t n, bool write, uint64_t& id, Expr*& offE)
{
    evalNewGeneration();
    uint64_t cv = (uint64_t)evalExpr(a, *s->model);
    std::string err;
    Obj* o = access(s, cv, n, write, err);
    if (!o) return memError(s, err);
    id = cv >> 32;
    uint64_t base = (id << 32) + OBJ_BASE;
    offE = mkBin(E_SUB, a, mkConst(base, 64));
    Expr* in = mkBin(E_ULE, offE, mkConst(o->size - n, 64));
    if (!isConst(in)) {
        Model m;
        SatResult r = check(s, mkNot(in), m);
        if (r == R_SAT) {
            State* o2 = cloneState(s);
            addPC(o2, mkNot(in));
            o2->model = std::make_shared<Model>(m);
            work.push_back(o2);
            addPC(s, in);
        } else if (r == R_UNKNOWN) return false;
    }
    return true;
}

static unsigned trailingZeros(Expr* e)
{
    if (e->op == E_CONST) { if (!e->val) return 6; unsigned n = 0; while (!((e->val >> n) & 1) && n < 6) ++n; return n; }
    if (e->op == E_CONCAT) { if (isConst(e->k[1]) && e->k[1]->val == 0) { unsigned n = e->k[1]->w + trailingZeros(e->k[0]); return n > 6 ? 6 : n; } return std::min<unsigned>(trailingZeros(e->k[1]), e->k[1]->w); }
    if (e->op == E_ZEXT || e->op == E_SEXT) return trailingZeros(e->k[0]);
    if (e->op == E_ADD || e->op == E_SUB || e->op == E_OR) return std::min(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    if (e->op == E_MUL) { unsigned n = trailingZeros(e->k[0]) + trailingZeros(e->k[1]); return n > 6 ? 6 : n; }
    if (e->op == E_ITE) return std::min(trailingZeros(e->k[1]), trailingZeros(e->k[2]));
    return 0;
}

static Expr* iteTree(Expr* off, const std::vector<std::pair<uint64_t, Expr*>>& v, size_t lo, size_t hi)
{
    // v[lo..hi) grouped: value v[i].second holds for offsets < v[i+1].first
    if (hi - lo == 1) return v[lo].second;
    size_t mid = (lo + hi) / 2;
    return mkIte(mkBin(E_ULT, off, mkConst(v[mid].first, off->w)), iteTree(off, v, lo, mid), iteTree(off, v, mid, hi));
}

static bool candRange(State* s, Expr* off, uint32_t objsize, uint64_t n, uint64_t& lo, uint64_t& hi, uint64_t& stride)
{
    exprRange(off, lo, hi);
    uint64_t mx = objsize - n;
    if (hi > mx) hi = mx;
    stride = 1ULL << trailingZeros(off);
    lo = (lo + stride - 1) / stride * stride;
    if (hi < lo) return false;
    if ((hi - lo) / stride + 1 > 300) {
        // try to tighten by solver: binary search on the upper bound (few queries)
        uint64_t a = lo, b = hi;
        for (int i = 0; i < 14 && a < b; ++i) {
            uint64_t mid = a + (b - a) / 2;
            Model m;
            if (check(s, mkBin(E_ULT, mkConst(mid, 64), off), m) == R_SAT) a = mid + 1; else b = mid;
        }
        hi = b;
    }
    return (hi - lo) / stride + 1 <= o_maxite;
}

// a load through a choice of few concrete addresses
static Expr* loadChoice(State* s, Expr* a, uint32_t n, unsigned w, int& leaves)
{
    if (isConst(a)) {
        std::string err;
        if (++leaves > 8) return nullptr;
        Obj* o = access(s, (uint64_t)a->val, n, false, err);
        if (!o) return nullptr;
        V x = readObj(s, o, (uint64_t)a->val >> 32, (uint32_t)((uint64_t)a->val & 0xffffffff) - OBJ_BASE, n, w);
        if (w == 64 && x.conc() && (x.c >> 32) && (uint32_t)(x.c & 0xffffffff) >= OBJ_BASE && s->mem.get(x.c >> 32)) return nullptr; // pointers: one path each
        return X(x, w);
    }
    if (a->op != E_ITE) return nullptr;
    Expr* x = loadChoice(s, a->k[1], n, w, leaves);
    if (!x) return nullptr;
    Expr* y = loadChoice(s, a->k[2], n, w, leaves);
    if (!y || x->op == E_AGG || y->op == E_AGG) return nullptr;
    return mkIte(a->k[0], x, y);
}

static Res loadMem(State* s, V addr, uint32_t n, unsigned w, V& out, bool atomic, Instruction* I)
{
    if (addr.conc()) {
        std::string err;
        Obj* o = access(s, addr.c, n, false, err);
        if (!o) { memError(s, err); return DEAD; }
        uint64_t id = addr.c >> 32; uint32_t off = (uint32_t)(addr.c & 0xffffffff) - OBJ_BASE;
        if (s->thr.size() > 1 && o_races) { raceAccess(s, id, off, n, false, atomic, I); o = s->mem.get(id); }
        out = readObj(s, o, id, off, n, w);
        return CONT;
    }
    if (addr.e->op == E_ITE && !atomic && !(s->thr.size() > 1 && o_races)) {
        int leaves = 0;
        if (Expr* r = loadChoice(s, addr.e, n, w, leaves)) { out = FX(r); return CONT; }
    }
    uint64_t id; Expr* off;
    if (!resolve(s, addr.e, n, false, id, off)) return DEAD;
    Obj* o = s->mem.get(id);
    if (isConst(off)) { out = readObj(s, o, id, (uint32_t)off->val, n, w); return CONT; }
    uint64_t lo, hi, stride;
    bool ptrs = false;
    if (w == 64) {
        // a table of pointers: one path per element instead of a symbolic pointer
        evalNewGeneration();
        uint64_t ca = (uint64_t)evalExpr(addr.e, *s->model);
        V x = readObj(s, o, id, (uint32_t)(ca & 0xffffffff) - OBJ_BASE, n, w);
        o = s->mem.get(id);
        if (x.conc() && (x.c >> 32) && (uint32_t)(x.c & 0xffffffff) >= OBJ_BASE && s->mem.get(x.c >> 32)) ptrs = true;
    }
    if (ptrs || !candRange(s, off, o->size, n, lo, hi, stride)) {
        V a = addr;
        concretize(s, a, 64);
        return loadMem(s, a, n, w, out, atomic, I);
    }
    std::vector<std::pair<uint64_t, Expr*>> v;
    for (uint64_t k = lo; k <= hi; k += stride) {
        V x = readObj(s, s->mem.get(id), id, (uint32_t)k, n, w);
        Expr* e = X(x, w);
        if (!v.empty() && v.back().second == e) continue;
        v.push_back({ k, e });
    }
    out = FX(iteTree(off, v, 0, v.size()));
    return CONT;
}

static Res storeMem(State* s, V addr, const V& val, uint32_t n, unsigned w, bool atomic, Instruction* I)
{
    if (addr.conc()) {
        std::string err;
        Obj* o = access(s, addr.c, n, true, err);
        if (!o) { memError(s, err); return DEAD; }
        uint64_t id = addr.c >> 32; uint32_t off = (uint32_t)(addr.c & 0xffffffff) - OBJ_BASE;
        if (s->thr.size() > 1 && o_races) raceAccess(s, id, off, n, true, atomic, I);
        writeObj(s->mem.getw(id), off, n, val, w);
        return CONT;
    }
    uint64_t id; Expr* off;
    if (!resolve(s, addr.e, n, true, id, off)) return DEAD;
    Obj* o = s->mem.getw(id);
    if (isConst(off)) { writeObj(o, (uint32_t)off->val, n, val, w); return CONT; }
    uint64_t lo, hi, stride;
    if (!candRange(s, off, o->size, n, lo, hi, stride) || (hi - lo) / stride + 1 > 256) {
        V a = addr;
        concretize(s, a, 64);
        return storeMem(s, a, val, n, w, atomic, I);
    }
    // conditional write to each candidate
    Expr* ve = X(val, w);
    if (ve->w < n * 8) ve = mkZext(ve, n * 8);
    std::vector<std::pair<uint32_t, Expr*>> nb;
    std::map<uint32_t, Expr*> cur;
    for (uint64_t k = lo; k <= hi; k += stride) {
        Expr* eq = mkBin(E_EQ, off, mkConst(k, 64));
        if (isConst(eq) && !eq->val) continue;
        for (uint32_t i = 0; i < n; ++i) {
            uint32_t p = (uint32_t)k + i;
            Expr* old;
            auto it = cur.find(p);
            if (it != cur.end()) old = it->second;
            else old = X(readObj(s, s->mem.getw(id), id, p, 1, 8), 8);
            cur[p] = mkIte(eq, mkExtract(ve, i * 8, 8), old);
        }
    }
    o = s->mem.getw(id);
    for (auto& p : cur) writeObj(o, p.first, 1, FX(p.second), 8);
    return CONT;
}

// ---------------------------------------------------------------- races
static void raceAccess(State* s, uint64_t id, uint32_t off, uint32_t n, bool write, bool atomic, Instruction* I)
{
    Obj* o = s->mem.get(id);
    if (o->flags & OBJ_RO) return;
    if (s->cur >= 8) return;
    o = s->mem.getw(id);
    if (!o->sh) o->sh = new std::map<uint32_t, Shadow>;
    Thread& t = s->thr[s->cur];
    uint32_t first = off, last = off + n - 1;
    for (uint32_t g = first; g <= last; ++g) {
        Shadow& h = (*o->sh)[g];
        const void* other = nullptr;
        const char* k = nullptr;
        if (h.wt != 0xff && h.wt != s->cur && t.vc[h.wt] < h.wc && !(atomic && h.watomic)) { other = h.wi; k = write ? "write/write" : "write/read"; }
        if (write && !k)
            for (unsigned q = 0; q < s->thr.size() && q < 8; ++q)
                if ((int)q != s->cur && h.rc[q] > t.vc[q] && !(atomic && (h.ratomic & (1 << q)))) { other = h.ri; k = "read/write"; }
        if (k) {
            report(s, "data-race", std::string(k) + " data race, conflicting access at " + locOf((Instruction*)other));
        }
        if (write) { h.wt = s->cur; h.wc = t.vc[s->cur]; h.watomic = atomic; h.wi = I; memset(h.rc, 0, sizeof h.rc); h.ratomic = 0; }
        else { h.rc[s->cur] = t.vc[s->cur]; if (atomic) h.ratomic |= 1 << s->cur; else h.ratomic &= ~(1 << s->cur); h.ri = I; }
    }
}
static void vcJoin(uint32_t* a, const uint32_t* b) { for (int i = 0; i < 8; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static void syncAcquire(State* s, uint64_t a) { auto it = s->syncvc.find(a); if (it != s->syncvc.end()) vcJoin(s->thr[s->cur].vc, it->second.c); }
static void syncRelease(State* s, uint64_t a, bool join)
{
    Thread& t = s->thr[s->cur];
    VC& v = s->syncvc[a];
    if (!join) memset(v.c, 0, sizeof v.c);
    vcJoin(v.c, t.vc);
    if (s->cur < 8) t.vc[s->cur]++;
}
static bool isAcq(uint8_t o) { auto x = (AtomicOrdering)o; return x == AtomicOrdering::Acquire || x == AtomicOrdering::AcquireRelease || x == AtomicOrdering::SequentiallyConsistent; }
static bool isRel(uint8_t o) { auto x = (AtomicOrdering)o; return x == AtomicOrdering::Release || x == AtomicOrdering::AcquireRelease || x == AtomicOrdering::SequentiallyConsistent; }

// ---------------------------------------------------------------- frames
static inline V R(State* s, Frame& f, int32_t i) { return i >= 0 ? s->thr[s->cur].regs[f.base + i] : g_consts[~i]; }

static void pushFrame(State* s, DFunc* d, const std::vector<V>& args)
{
    decodeFunc(d);
    d->executed = true;
    Thread& t = s->thr[s->cur];
    Frame f;
    f.f = d;
    f.base = t.regs.size();
    t.regs.resize(f.base + d->nregs);
    for (int i = 0; i < d->nargs && i < (int)args.size(); ++i) t.regs[f.base + i] = args[i];
    if (d->varargs && args.size() >= (size_t)d->nargs) {
        unsigned n = args.size() - d->nargs;
        f.varargs = s->mem.alloc(n * 8 + 8, OBJ_STACK, "varargs", false);
        Obj* o = s->mem.getw(f.varargs >> 32);
        for (unsigned i = 0; i < n; ++i) {
            V v = args[d->nargs + i];
            writeObj(o, i * 8, 8, v.e && v.e->w < 64 ? V(mkZext(v.e, 64), 0) : v, 64);
        }
        f.allocas.push_back(f.varargs >> 32);
    }
    t.frames.push_back(std::move(f));
    if (t.frames.size() > st.maxdepth) st.maxdepth = t.frames.size();
}

static void popFrame(State* s)
{
    Thread& t = s->thr[s->cur];
    Frame& f = t.frames.back();
    for (auto id : f.allocas) s->mem.release(id, true);
    t.regs.resize(f.base);
    t.frames.pop_back();
}

static void jump(State* s, Frame& f, int target)
{
    int from = f.block;
    DBlock& b = f.f->blocks[target];
    if (!b.phis.empty()) {
        V tmp[16];
        std::vector<V> big;
        V* v = tmp;
        if (b.phis.size() > 16) { big.resize(b.phis.size()); v = big.data(); }
        for (size_t i = 0; i < b.phis.size(); ++i) {
            bool found = false;
            for (auto& p : b.phis[i].in) if (p.first == from) { v[i] = R(s, f, p.second); found = true; break; }
            if (!found) fatal("phi");
        }
        Thread& t = s->thr[s->cur];
        for (size_t i = 0; i < b.phis.size(); ++i) t.regs[f.base + b.phis[i].dst] = v[i];
    }
    f.prev = from;
    f.block = target;
    f.pc = 0;
}

// ---------------------------------------------------------------- exceptions
static std::string globalNameAt(uint64_t a)
{
    auto it = g_gByAddr.find(a);
    return it == g_gByAddr.end() ? "" : it->second->getName().str();
}
static uint64_t rd64(State* s, uint64_t a)
{
    V v; if (loadMem(s, V(a), 8, 64, v, false, nullptr) != CONT || !v.conc()) return 0; return v.c;
}
// does exception type 't' match handler type 'h'? adjusts offset
static bool typeMatch(State* s, uint64_t t, uint64_t h, uint64_t& adj)
{
    if (t == h) return true;
    std::string tn = globalNameAt(t), hn = globalNameAt(h);
    if (!tn.empty() && tn == hn) return true;
    uint64_t vt = rd64(s, t);
    if (!vt) return false;
    std::string vn = globalNameAt(vt - 16);
    if (vn.find("__si_class_type_info") != std::string::npos) return typeMatch(s, rd64(s, t + 16), h, adj);
    if (vn.find("__vmi_class_type_info") != std::string::npos) {
        V cnt; loadMem(s, V(t + 20), 4, 32, cnt, false, nullptr);
        for (unsigned i = 0; i < cnt.c; ++i) {
            uint64_t b = rd64(s, t + 24 + 16 * i), fl = rd64(s, t + 32 + 16 * i);
            uint64_t a2 = adj + ((int64_t)fl >> 8);
            if (fl & 1) continue; // virtual bases: not supported
            if (typeMatch(s, b, h, a2)) { adj = a2; return true; }
        }
    }
    return false;
}
static Exc* findExc(State* s, uint64_t p) { for (auto& e : s->excs) if (e.ptr == p) return &e; return nullptr; }

static Res unwind(State* s, uint64_t ex, bool popCurrentCallFrame)
{
    (void)popCurrentCallFrame;
    Exc* e = findExc(s, ex);
    if (!e) { addIncomplete("throw of unknown exception object"); return DEAD; }
    Thread& t = s->thr[s->cur];
    // phase 1: is there a handler?
    // (a cleanup-only unwinding to the top ends in std::terminate without running cleanups)
    for (int fi = (int)t.frames.size() - 1;; --fi) {
        if (fi < 0) {
            report(s, "uncaught-exception", "uncaught exception of type " + globalNameAt(e->tinfo));
            return DEAD;
        }
        Frame& f = t.frames[fi];
        DInst& in = f.f->blocks[f.block].insts[f.pc];
        bool handler = false;
        if (in.op == I_CALL && g_extras[in.extra].isInvoke) {
            DBlock& lb = f.f->blocks[in.t1];
            DInst& lp = lb.insts[0];
            if (lp.op == I_LANDINGPAD) {
                DExtra& x = g_extras[lp.extra];
                for (size_t i = 0; i < x.clauses.size(); ++i) {
                    if (x.isFilter[i]) { handler = true; continue; }
                    V c = R(s, f, x.clauses[i]);
                    uint64_t adj = 0;
                    if (c.c == 0 || typeMatch(s, e->tinfo, c.c, adj)) handler = true;
                }
            }
        }
        if (f.f->F->doesNotThrow() && !handler) { report(s, "terminate", "exception of type " + globalNameAt(e->tinfo) + " escapes a noexcept function " + f.f->name); return DEAD; }
        if (handler) break;
    }
    for (;;) {
        Frame& f = t.frames.back();
        DInst& in = f.f->blocks[f.block].insts[f.pc];
        if (in.op == I_CALL && g_extras[in.extra].isInvoke) {
            DBlock& lb = f.f->blocks[in.t1];
            DInst& lp = lb.insts[0];
            DExtra& x = g_extras[lp.extra];
            uint32_t sel = 0;
            bool take = x.cleanup;
            for (size_t i = 0; i < x.clauses.size(); ++i) {
                if (x.isFilter[i]) { report(s, "terminate", "exception filter (throw specification) reached"); return DEAD; }
                V c = R(s, f, x.clauses[i]);
                uint64_t adj = 0;
                if (c.c == 0) { sel = 1; take = true; break; }
                if (typeMatch(s, e->tinfo, c.c, adj)) { sel = (uint32_t)(c.c >> 32); e->adj = adj; take = true; break; }
            }
            if (take) {
                t.excPtr = ex;
                t.excSel = sel;
                jump(s, f, in.t1);
                return SWITCHED;
            }
        }
        popFrame(s);
        if (t.frames.empty()) { addIncomplete("unwound past the entry"); return DEAD; }
    }
}

// ---------------------------------------------------------------- scheduling
static bool runnable(State* s, int i)
{
    Thread& t = s->thr[i];
    if (t.st == T_RUN) return true;
    if (t.st == T_MUTEX) { auto it = s->mutexes.find(t.waitOn); return it == s->mutexes.end() || it->second.owner < 0; }
    if (t.st == T_JOIN) return s->thr[t.waitOn].st == T_DONE;
    return false;
}

static void switchTo(State* s, int i)
{
    s->cur = i;
    s->thr[i].st = T_RUN;
    s->sched += (s->sched.empty() ? "" : ",") + std::to_string(i);
}

// current thread cannot continue: pick another one (forks over all choices)
static Res pickOther(State* s)
{
    std::vector<int> c;
    for (int i = 0; i < (int)s->thr.size(); ++i) if (i != s->cur && runnable(s, i)) c.push_back(i);
    if (c.empty()) {
        if (runnable(s, s->cur)) { s->thr[s->cur].st = T_RUN; return SWITCHED; }
        bool alldone = true;
        for (auto& t : s->thr) if (t.st != T_DONE) alldone = false;
        if (alldone) return DEAD;
        report(s, "deadlock", "no runnable thread");
        return DEAD;
    }
    for (size_t k = 1; k < c.size(); ++k) {
        State* n = cloneState(s);
        n->thr[c[k]].passed = true;
        switchTo(n, c[k]);
        work.push_back(n);
        st.schedpts++;
    }
    s->thr[c[0]].passed = true;
    switchTo(s, c[0]);
    return SWITCHED;
}

// a scheduling point before a synchronisation operation of the current thread
static void schedPoint(State* s)
{
    Thread& t = s->thr[s->cur];
    if (s->thr.size() < 2) return;
    if (t.passed) { t.passed = false; return; }
    if (s->preempt >= o_preempt) return;
    for (int i = 0; i < (int)s->thr.size(); ++i)
        if (i != s->cur && runnable(s, i)) {
            State* n = cloneState(s);
            n->preempt++;
            n->thr[i].passed = true;
            switchTo(n, i);
            work.push_back(n);
            st.schedpts++;
        }
}

static void setDst0(State* s, const DInst& n, const V& v) { if (n.dst >= 0) { Thread& t = s->thr[s->cur]; t.regs[t.frames.back().base + n.dst] = v; } }
#include "builtins.inc"

// ---------------------------------------------------------------- interpreter loop
static uint64_t g_sample = 0;

static void endPath(State* s, bool completed)
{
    if (completed) {
        st.paths++;
        for (auto& r : s->reached) {
            if (reachCount[r]++ == 0) samples[r] = sampleJson(s, *s->model);
        }
        if (st.paths == 1 || ((st.paths & (st.paths - 1)) == 0 && st.paths >= 4)) samples["path#" + std::to_string(st.paths)] = sampleJson(s, *s->model);
    } else st.killed++;
    delete s;
}

static std::vector<DFunc*> g_init;

static void setDst(State* s, Frame& f, const DInst& n, const V& v) { if (n.dst >= 0) s->thr[s->cur].regs[f.base + n.dst] = v; }

// runs one path to its end
static void runPath(State* s)
{
    uint64_t& steps = s->steps;
    for (;;) {
        Thread& t = s->thr[s->cur];
        if (t.frames.empty()) {
            // thread function returned: thread-local destructors, then termination
            if (s->cur != 0) {
                if (!t.dtors.empty()) {
                    TlsDtor d = t.dtors.back();
                    t.dtors.pop_back();
                    DFunc* fn = funcAt(d.fn);
                    if (!fn) { addIncomplete("bad tls destructor"); endPath(s, false); return; }
                    pushFrame(s, fn, { V(d.arg) });
                    continue;
                }
                t.st = T_DONE;
                for (auto& kv : t.tls) s->mem.release(kv.second >> 32, true);
                t.tls.clear();
                if (s->cur < 8) t.vc[s->cur]++;
                if (pickOther(s) == DEAD) { endPath(s, true); return; }
                continue;
            }
            endPath(s, true);
            return;
        }
        Frame& f = t.frames.back();
        DInst& n = f.f->blocks[f.block].insts[f.pc];
        ++st.instrs;
        if (++steps > o_maxsteps) {
            addIncomplete("step limit exceeded in " + f.f->name + " at " + locOf(n.I));
            report(s, "step-limit", "path exceeds " + std::to_string(o_maxsteps) + " instructions (possible non-termination)");
            endPath(s, false);
            return;
        }
        if ((st.instrs & 0xfffff) == 0 && now() > o_maxsec) { addIncomplete("time limit"); endPath(s, false); return; }
        V* regs = t.regs.data() + f.base;
        auto RR = [&](int32_t i) -> const V& { return i >= 0 ? regs[i] : g_consts[~i]; };
        if (o_trace) { std::string str; raw_string_ostream os(str); n.I->print(os); fprintf(stderr, "[%d] %s: %s\n", s->cur, f.f->name.c_str(), str.c_str()); }
        switch (n.op) {
        case I_BIN: {
            const V &a = RR(n.a), &b = RR(n.b);
            unsigned w = n.w;
            bool div = n.sub == E_UDIV || n.sub == E_SDIV || n.sub == E_UREM || n.sub == E_SREM;
            if (a.conc() && b.conc() && w <= 64) {
                uint64_t r;
                switch (n.sub) {
                case E_ADD: r = a.c + b.c; break;
                case E_SUB: r = a.c - b.c; break;
                case E_MUL: r = a.c * b.c; break;
                case E_AND: r = a.c & b.c; break;
                case E_OR: r = a.c | b.c; break;
                case E_XOR: r = a.c ^ b.c; break;
                case E_SHL: r = b.c >= w ? (w == 32 || w == 64 ? a.c << (b.c & (w - 1)) : 0) : a.c << b.c; break;
                case E_LSHR: r = b.c >= w ? (w == 32 || w == 64 ? a.c >> (b.c & (w - 1)) : 0) : a.c >> b.c; break;
                case E_ASHR: r = (uint64_t)(sx(a.c, w) >> (b.c >= w ? (w == 32 || w == 64 ? (b.c & (w - 1)) : w - 1) : b.c)); break;
                default: {
                    if (div) {
                        if (b.c == 0) { report(s, "division-by-zero", "integer division by zero"); endPath(s, false); return; }
                        if ((n.sub == E_SDIV || n.sub == E_SREM) && m64(~b.c, w) == 0 && a.c == (1ULL << (w - 1))) { report(s, "division-overflow", "INT_MIN / -1"); endPath(s, false); return; }
                    }
                    bool ok;
                    r = (uint64_t)foldBin((Op)n.sub, a.c, b.c, w, ok);
                    if (!ok) { addIncomplete("unsupported arithmetic"); endPath(s, false); return; }
                }
                }
                regs[n.dst] = V(m64(r, w));
                f.pc++;
                continue;
            }
            Expr *ea = X(a, w), *eb = X(b, w);
            if (div) {
                Expr* z = mkBin(E_EQ, eb, mkConst(0, w));
                if (!isConst(z) || z->val) {
                    Model m;
                    SatResult r = check(s, z, m);
                    if (r == R_SAT) report(s, "division-by-zero", "integer division by zero", &m);
                    if (!assume(s, mkNot(z))) { endPath(s, false); return; }
                }
                if (n.sub == E_SDIV || n.sub == E_SREM) {
                    Expr* ov = mkBin(E_AND, mkBin(E_EQ, eb, mkConst(wmask(w), w)), mkBin(E_EQ, ea, mkConst((u128)1 << (w - 1), w)));
                    if (!isConst(ov) || ov->val) {
                        Model m;
                        SatResult r = check(s, ov, m);
                        if (r == R_SAT) report(s, "division-overflow", "INT_MIN / -1", &m);
                        if (!assume(s, mkNot(ov))) { endPath(s, false); return; }
                    }
                }
            }
            if ((n.sub == E_SHL || n.sub == E_LSHR || n.sub == E_ASHR) && !isConst(eb) && (w == 32 || w == 64)) eb = mkBin(E_AND, eb, mkConst(w - 1, w));
            regs[n.dst] = FX(mkBin((Op)n.sub, ea, eb));
            f.pc++;
            continue;
        }
        case I_ICMP: {
            const V &a = RR(n.a), &b = RR(n.b);
            unsigned w = n.w2;
            if (a.conc() && b.conc()) {
                bool r;
                switch (n.sub) {
                case E_EQ: r = a.c == b.c; break;
                case E_ULT: r = a.c < b.c; break;
                case E_ULE: r = a.c <= b.c; break;
                case E_SLT: r = sx(a.c, w) < sx(b.c, w); break;
                default: r = sx(a.c, w) <= sx(b.c, w); break;
                }
                regs[n.dst] = V(r != (bool)n.neg);
            } else {
                Expr* e = mkBin((Op)n.sub, X(a, w), X(b, w));
                if (n.neg) e = mkNot(e);
                regs[n.dst] = FX(e);
            }
            f.pc++;
            continue;
        }
        case I_FCMP: {
            const V &a = RR(n.a), &b = RR(n.b);
            unsigned w = n.w2;
            Expr *x = X(a, w), *y = X(b, w);
            Expr* un = mkBin(E_OR, mkF1(E_FISNAN, x, 1), mkF1(E_FISNAN, y, 1));
            Expr* r = nullptr;
            switch ((CmpInst::Predicate)n.sub) {
            case CmpInst::FCMP_FALSE: r = mkConst(0, 1); break;
            case CmpInst::FCMP_TRUE: r = mkConst(1, 1); break;
            case CmpInst::FCMP_OEQ: r = mkBin(E_FEQ, x, y); break;
            case CmpInst::FCMP_OLT: r = mkBin(E_FLT, x, y); break;
            case CmpInst::FCMP_OLE: r = mkBin(E_FLE, x, y); break;
            case CmpInst::FCMP_OGT: r = mkBin(E_FLT, y, x); break;
            case CmpInst::FCMP_OGE: r = mkBin(E_FLE, y, x); break;
            case CmpInst::FCMP_ONE: r = mkBin(E_AND, mkNot(un), mkNot(mkBin(E_FEQ, x, y))); break;
            case CmpInst::FCMP_ORD: r = mkNot(un); break;
            case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_UEQ: r = mkBin(E_OR, un, mkBin(E_FEQ, x, y)); break;
            case CmpInst::FCMP_ULT: r = mkNot(mkBin(E_FLE, y, x)); break;
            case CmpInst::FCMP_ULE: r = mkNot(mkBin(E_FLT, y, x)); break;
            case CmpInst::FCMP_UGT: r = mkNot(mkBin(E_FLE, x, y)); break;
            case CmpInst::FCMP_UGE: r = mkNot(mkBin(E_FLT, x, y)); break;
            case CmpInst::FCMP_UNE: r = mkNot(mkBin(E_FEQ, x, y)); break;
            default: fatal("fcmp");
            }
            regs[n.dst] = FX(r);
            f.pc++;
            continue;
        }
        case I_LOAD: {
            V v;
            if (n.atomic) {
                bool passed = t.passed;
                schedPoint(s);
                (void)passed;
            }
            V addr = RR(n.a);
            if (n.extra >= 0) {
                // aggregate load
                if (!addr.conc()) concretize(s, addr, 64);
                Type* ty = g_extras[n.extra].ty;
                std::vector<V> vs; std::vector<uint16_t> ws;
                unsigned cnt = ty->isStructTy() ? ty->getStructNumElements() : ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
                bool ok = true;
                for (unsigned i = 0; i < cnt && ok; ++i) {
                    Type* et = ty->isStructTy() ? ty->getStructElementType(i) : ty->isArrayTy() ? ty->getArrayElementType() : ty->getScalarType();
                    uint64_t off = ty->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(ty))->getElementOffset(i) : i * DL->getTypeAllocSize(et);
                    unsigned w = typeWidth(et);
                    if (!w) { addIncomplete("nested aggregate load"); ok = false; break; }
                    V x;
                    if (loadMem(s, V(addr.c + off), DL->getTypeStoreSize(et), w, x, false, n.I) != CONT) ok = false;
                    vs.push_back(x); ws.push_back(w);
                }
                if (!ok) { endPath(s, false); return; }
                s->thr[s->cur].regs[f.base + n.dst] = V(mkAgg(vs, ws), 0);
                f.pc++;
                continue;
            }
            if (n.atomic && !addr.conc()) concretize(s, addr, 64);
            if (loadMem(s, addr, n.imm, n.w, v, n.atomic != 0, n.I) != CONT) { endPath(s, false); return; }
            if (n.atomic && s->thr.size() > 1 && isAcq(n.atomic)) syncAcquire(s, addr.c);
            s->thr[s->cur].regs[f.base + n.dst] = v;
            f.pc++;
            continue;
        }
        case I_STORE: {
            if (n.atomic) schedPoint(s);
            V addr = RR(n.b);
            V val = RR(n.a);
            if (n.extra >= 0) {
                if (!addr.conc()) concretize(s, addr, 64);
                Type* ty = g_extras[n.extra].ty;
                if (!val.e || val.e->op != E_AGG) { addIncomplete("aggregate store"); endPath(s, false); return; }
                AggData* ag = val.e->agg;
                bool ok = true;
                for (unsigned i = 0; i < ag->v.size() && ok; ++i) {
                    Type* et = ty->isStructTy() ? ty->getStructElementType(i) : ty->isArrayTy() ? ty->getArrayElementType() : ty->getScalarType();
                    uint64_t off = ty->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(ty))->getElementOffset(i) : i * DL->getTypeAllocSize(et);
                    if (!typeWidth(et)) { addIncomplete("nested aggregate store"); ok = false; break; }
                    if (storeMem(s, V(addr.c + off), ag->v[i], DL->getTypeStoreSize(et), typeWidth(et), false, n.I) != CONT) ok = false;
                }
                if (!ok) { endPath(s, false); return; }
                f.pc++;
                continue;
            }
            if (n.atomic && !addr.conc()) concretize(s, addr, 64);
            if (storeMem(s, addr, val, n.imm, n.w, n.atomic != 0, n.I) != CONT) { endPath(s, false); return; }
            if (n.atomic && s->thr.size() > 1) { if (isRel(n.atomic)) syncRelease(s, addr.c, false); else s->syncvc.erase(addr.c); }
            f.pc++;
            continue;
        }
        case I_GEP: {
            const V& b = RR(n.a);
            if (n.extra < 0) {
                if (b.conc()) regs[n.dst] = V(b.c + n.imm);
                else regs[n.dst] = FX(mkBin(E_ADD, b.e, mkConst(n.imm, 64)));
                f.pc++;
                continue;
            }
            uint64_t off = n.imm;
            Expr* e = nullptr;
            for (auto& g : g_extras[n.extra].gep) {
                const V& ix = RR(g.r);
                if (ix.conc()) off += (uint64_t)(sx(ix.c, g.w) * g.scale);
                else {
                    Expr* x = g.w < 64 ? mkSext(ix.e, 64) : ix.e;
                    x = mkBin(E_MUL, x, mkConst((u128)(uint64_t)g.scale, 64));
                    e = e ? mkBin(E_ADD, e, x) : x;
                }
            }
            if (!e && b.conc()) regs[n.dst] = V(b.c + off);
            else {
                Expr* r = b.conc() ? mkConst(b.c + off, 64) : mkBin(E_ADD, b.e, mkConst(off, 64));
                if (e) r = mkBin(E_ADD, e, r);
                regs[n.dst] = FX(r);
            }
            f.pc++;
            continue;
        }
        case I_ALLOCA: {
            V cnt = RR(n.a);
            if (!cnt.conc()) concretize(s, cnt, 64);
            uint64_t sz = n.imm * cnt.c;
            if (sz > (1u << 28)) { addIncomplete("huge alloca"); endPath(s, false); return; }
            uint64_t a = s->mem.alloc((uint32_t)sz, OBJ_STACK, f.f->name.c_str(), true);
            f.allocas.push_back(a >> 32);
            regs[n.dst] = V(a);
            f.pc++;
            continue;
        }
        case I_ZEXT: {
            const V& a = RR(n.a);
            if (a.conc() && n.w <= 64) regs[n.dst] = a;
            else regs[n.dst] = FX(mkZext(X(a, n.w2), n.w));
            f.pc++;
            continue;
        }
        case I_SEXT: {
            const V& a = RR(n.a);
            if (a.conc() && n.w <= 64) regs[n.dst] = V(m64((uint64_t)sx(a.c, n.w2), n.w));
            else regs[n.dst] = FX(mkSext(X(a, n.w2), n.w));
            f.pc++;
            continue;
        }
        case I_TRUNC: {
            const V& a = RR(n.a);
            if (a.conc()) regs[n.dst] = V(m64(a.c, n.w));
            else regs[n.dst] = FX(mkExtract(a.e, 0, n.w));
            f.pc++;
            continue;
        }
        case I_MOV: regs[n.dst] = RR(n.a); f.pc++; continue;
        case I_FNEG: {
            const V& a = RR(n.a);
            if (a.conc()) regs[n.dst] = V(a.c ^ (1ULL << (n.w - 1)));
            else regs[n.dst] = FX(mkBin(E_XOR, a.e, mkConst((u128)1 << (n.w - 1), n.w)));
            f.pc++;
            continue;
        }
        case I_F1: {
            const V& a = RR(n.a);
            regs[n.dst] = FX(mkF1((Op)n.sub, X(a, n.w2), n.w));
            f.pc++;
            continue;
        }
        case I_SELECT: {
            const V& c = RR(n.a);
            if (c.conc()) regs[n.dst] = c.c & 1 ? RR(n.b) : RR(n.c);
            else {
                const V &a = RR(n.b), &b = RR(n.c);
                if ((a.e && a.e->op == E_AGG) || (b.e && b.e->op == E_AGG)) {
                    V cc = c; concretize(s, cc, 1);
                    regs[n.dst] = cc.c & 1 ? a : b;
                } else regs[n.dst] = FX(mkIte(c.e, X(a, n.w), X(b, n.w)));
            }
            f.pc++;
            continue;
        }
        case I_BR: jump(s, f, n.t0); continue;
        case I_CBR: {
            const V& c = RR(n.a);
            if (c.conc()) { jump(s, f, c.c & 1 ? n.t0 : n.t1); continue; }
            Expr* ce = c.e;
            bool b = evalB(s, ce);
            Expr* other = b ? mkNot(ce) : ce;
            Model m;
            SatResult r = check(s, other, m);
            if (r == R_SAT) {
                st.symbr++;
                State* o = cloneState(s);
                addPC(o, other);
                o->model = std::make_shared<Model>(m);
                o->depth++;
                jump(o, o->thr[o->cur].frames.back(), b ? n.t1 : n.t0);
                work.push_back(o);
                addPC(s, b ? ce : mkNot(ce));
                s->depth++;
            }
            jump(s, f, b ? n.t0 : n.t1);
            continue;
        }
        case I_SWITCH: {
            const V& c = RR(n.a);
            DExtra& x = g_extras[n.extra];
            if (c.conc()) {
                int tgt = n.t0;
                for (auto& p : x.cases) if ((uint64_t)p.first == c.c) { tgt = p.second; break; }
                jump(s, f, tgt);
                continue;
            }
            // group by target
            std::map<int, Expr*> conds;
            std::vector<int> order;
            Expr* def = mkConst(1, 1);
            Expr* ce = c.e;
            for (auto& p : x.cases) {
                Expr* eq = mkBin(E_EQ, ce, mkConst(p.first, n.w2));
                def = mkBin(E_AND, def, mkNot(eq));
                if (!conds.count(p.second)) { conds[p.second] = eq; order.push_back(p.second); }
                else conds[p.second] = mkBin(E_OR, conds[p.second], eq);
            }
            if (!conds.count(n.t0)) { conds[n.t0] = def; order.push_back(n.t0); } else conds[n.t0] = mkBin(E_OR, conds[n.t0], def);
            evalNewGeneration();
            int mine = -1;
            for (int tg : order) if (evalExpr(conds[tg], *s->model)) { mine = tg; break; }
            bool forked = false;
            for (int tg : order) {
                if (tg == mine) continue;
                Model m;
                SatResult r = check(s, conds[tg], m);
                if (r == R_SAT) {
                    st.symbr++;
                    State* o = cloneState(s);
                    addPC(o, conds[tg]);
                    o->model = std::make_shared<Model>(m);
                    jump(o, o->thr[o->cur].frames.back(), tg);
                    work.push_back(o);
                    forked = true;
                }
            }
            if (forked) addPC(s, conds[mine]);
            jump(s, f, mine);
            continue;
        }
        case I_RET: {
            V v;
            if (n.imm) v = RR(n.a);
            popFrame(s);
            Thread& t2 = s->thr[s->cur];
            if (t2.frames.empty()) {
                t2.ret = v;
                if (s->cur == 0 && !g_init.empty() && s->initIdx < g_init.size()) {
                    // next initialiser / entry
                    DFunc* d = g_init[s->initIdx++];
                    pushFrame(s, d, {});
                }
                continue;
            }
            Frame& cf = t2.frames.back();
            DInst& ci = cf.f->blocks[cf.block].insts[cf.pc];
            if (ci.op == I_CALL) {
                if (ci.dst >= 0 && n.imm && g_extras[ci.extra].builtin != B_CXA_END) t2.regs[cf.base + ci.dst] = v;
                if (g_extras[ci.extra].isInvoke) jump(s, cf, ci.t0);
                else cf.pc++;
            } else if (ci.op == I_RET) {
                // continuation frame (used by builtins)
            } else cf.pc++;
            continue;
        }
        case I_CALL: {
            DExtra& x = g_extras[n.extra];
            DFunc* callee = x.callee;
            if (x.builtin >= 0) {
                Res r = doBuiltin(s, f, n, x);
                if (r == DEAD) { endPath(s, false); return; }
                if (r == CONT) {
                    Frame& f2 = s->thr[s->cur].frames.back();
                    if (x.isInvoke) jump(s, f2, n.t0); else f2.pc++;
                }
                continue;
            }
            if (!callee) {
                V fp = RR(n.a);
                if (!fp.conc()) concretize(s, fp, 64);
                callee = funcAt(fp.c);
                if (!callee) { report(s, "memory-error", "call through invalid function pointer"); endPath(s, false); return; }
                if (callee->F->isDeclaration() || g_forced.count(callee->name)) {
                    auto it = g_builtins.find(callee->name);
                    DExtra y = x;
                    y.callee = callee;
                    y.calleeName = callee->name;
                    y.builtin = it == g_builtins.end() ? B_UNRESOLVED : it->second;
                    if (callee->F->isIntrinsic()) y.builtin = intrinsicBuiltin(callee->F);
                    Res r = doBuiltin(s, f, n, y);
                    if (r == DEAD) { endPath(s, false); return; }
                    if (r == CONT) { Frame& f2 = s->thr[s->cur].frames.back(); if (y.isInvoke) jump(s, f2, n.t0); else f2.pc++; }
                    continue;
                }
            }
            if (t.frames.size() > 2000) { report(s, "stack-overflow", "call depth exceeds 2000 in " + callee->name); endPath(s, false); return; }
            std::vector<V> args(x.args.size());
            bool dead = false;
            std::vector<uint32_t> bvobjs;
            for (size_t i = 0; i < x.args.size(); ++i) {
                args[i] = RR(x.args[i]);
                if (x.byvalSize[i]) {
                    V p = args[i];
                    if (!p.conc()) concretize(s, p, 64);
                    std::string err;
                    Obj* o = access(s, p.c, x.byvalSize[i], false, err);
                    if (!o) { memError(s, err); dead = true; break; }
                    uint64_t a = s->mem.alloc(x.byvalSize[i], OBJ_STACK, "byval", false);
                    copyBytes(s, a, p.c, x.byvalSize[i]);
                    args[i] = V(a);
                    bvobjs.push_back(a >> 32);
                }
            }
            if (dead) { endPath(s, false); return; }
            pushFrame(s, callee, args);
            for (auto id : bvobjs) s->thr[s->cur].frames.back().allocas.push_back(id);
            continue;
        }
        case I_UNREACHABLE:
            report(s, "unreachable", "reached 'unreachable' (undefined behaviour or missing return)");
            endPath(s, false);
            return;
        case I_LANDINGPAD: {
            std::vector<V> v { V(t.excPtr), V(t.excSel) };
            regs[n.dst] = V(mkAgg(v, { 64, 32 }), 0);
            f.pc++;
            continue;
        }
        case I_RESUME: {
            const V& a = RR(n.a);
            uint64_t ex = a.e->agg->v[0].c;
            popFrame(s);
            if (s->thr[s->cur].frames.empty()) { addIncomplete("resume past entry"); endPath(s, false); return; }
            if (unwind(s, ex, false) == DEAD) { endPath(s, false); return; }
            continue;
        }
        case I_EXTRACT: {
            V a = RR(n.a);
            for (unsigned i : g_extras[n.extra].idx) {
                if (!a.e || a.e->op != E_AGG) fatal("extractvalue");
                a = a.e->agg->v[i];
            }
            regs[n.dst] = a;
            f.pc++;
            continue;
        }
        case I_INSERT: {
            V a = RR(n.a), b = RR(n.b);
            auto& idx = g_extras[n.extra].idx;
            if (!a.e || a.e->op != E_AGG) fatal("insertvalue");
            std::function<V(V, size_t)> ins = [&](V ag, size_t k) -> V {
                AggData d = *ag.e->agg;
                if (k + 1 == idx.size()) d.v[idx[k]] = b; else d.v[idx[k]] = ins(d.v[idx[k]], k + 1);
                return V(mkAgg(d.v, d.w), 0);
            };
            regs[n.dst] = ins(a, 0);
            f.pc++;
            continue;
        }
        case I_EXTELT: {
            V a = RR(n.a), i = RR(n.b);
            if (!i.conc() || !a.e || a.e->op != E_AGG) { addIncomplete("extractelement"); endPath(s, false); return; }
            regs[n.dst] = a.e->agg->v.at(i.c);
            f.pc++;
            continue;
        }
        case I_INSELT: {
            V a = RR(n.a), b = RR(n.b), i = RR(n.c);
            if (!i.conc() || !a.e || a.e->op != E_AGG) { addIncomplete("insertelement"); endPath(s, false); return; }
            AggData d = *a.e->agg;
            d.v.at(i.c) = b;
            regs[n.dst] = V(mkAgg(d.v, d.w), 0);
            f.pc++;
            continue;
        }
        case I_SHUFFLE: {
            V a = RR(n.a), b = RR(n.b);
            if (!a.e || a.e->op != E_AGG || !b.e || b.e->op != E_AGG) { addIncomplete("shufflevector"); endPath(s, false); return; }
            AggData d;
            unsigned na = a.e->agg->v.size();
            for (int m : g_extras[n.extra].mask) {
                d.v.push_back(m < 0 ? V(0) : (unsigned)m < na ? a.e->agg->v[m] : b.e->agg->v[m - na]);
                d.w.push_back(a.e->agg->w[0]);
            }
            regs[n.dst] = V(mkAgg(d.v, d.w), 0);
            f.pc++;
            continue;
        }
        case I_VBIN: {
            V a = RR(n.a), b = RR(n.b);
            if (!a.e || a.e->op != E_AGG || !b.e || b.e->op != E_AGG) { addIncomplete("vector op"); endPath(s, false); return; }
            AggData d;
            for (size_t i = 0; i < a.e->agg->v.size(); ++i) {
                d.v.push_back(FX(mkBin((Op)n.sub, X(a.e->agg->v[i], n.w), X(b.e->agg->v[i], n.w))));
                d.w.push_back(n.w);
            }
            regs[n.dst] = V(mkAgg(d.v, d.w), 0);
            f.pc++;
            continue;
        }
        case I_RMW: {
            schedPoint(s);
            V addr = RR(n.a), val = RR(n.b);
            concretize(s, addr, 64);
            V old;
            if (loadMem(s, addr, n.imm, n.w, old, true, n.I) != CONT) { endPath(s, false); return; }
            Expr *o = X(old, n.w), *v = X(val, n.w), *r = nullptr;
            switch ((AtomicRMWInst::BinOp)n.sub) {
            case AtomicRMWInst::Xchg: r = v; break;
            case AtomicRMWInst::Add: r = mkBin(E_ADD, o, v); break;
            case AtomicRMWInst::Sub: r = mkBin(E_SUB, o, v); break;
            case AtomicRMWInst::And: r = mkBin(E_AND, o, v); break;
            case AtomicRMWInst::Or: r = mkBin(E_OR, o, v); break;
            case AtomicRMWInst::Xor: r = mkBin(E_XOR, o, v); break;
            default: addIncomplete("atomicrmw op"); endPath(s, false); return;
            }
            if (storeMem(s, addr, FX(r), n.imm, n.w, true, n.I) != CONT) { endPath(s, false); return; }
            if (s->thr.size() > 1) { if (isAcq(n.atomic)) syncAcquire(s, addr.c); if (isRel(n.atomic)) syncRelease(s, addr.c, true); }
            s->thr[s->cur].regs[f.base + n.dst] = old;
            f.pc++;
            continue;
        }
        case I_CMPXCHG: {
            schedPoint(s);
            V addr = RR(n.a), cmp = RR(n.b), nv = RR(n.c);
            concretize(s, addr, 64);
            V old;
            if (loadMem(s, addr, n.imm, n.w, old, true, n.I) != CONT) { endPath(s, false); return; }
            V eq = FX(mkBin(E_EQ, X(old, n.w), X(cmp, n.w)));
            concretize(s, eq, 1);
            if (eq.c) {
                if (storeMem(s, addr, nv, n.imm, n.w, true, n.I) != CONT) { endPath(s, false); return; }
                if (s->thr.size() > 1) { if (isAcq(n.atomic)) syncAcquire(s, addr.c); if (isRel(n.atomic)) syncRelease(s, addr.c, true); }
            } else if (s->thr.size() > 1 && isAcq((uint8_t)n.w2)) syncAcquire(s, addr.c);
            s->thr[s->cur].regs[f.base + n.dst] = V(mkAgg({ old, eq }, { n.w, 1 }), 0);
            f.pc++;
            continue;
        }
        case I_FENCE: f.pc++; continue;
        default: {
            std::string str; raw_string_ostream os(str); n.I->print(os);
            addIncomplete("unsupported instruction: " + str);
            endPath(s, false);
            return;
        }
        }
    }
}

static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

static void writeResult(const std::string& path)
{
    if (g_forklog) {
        std::vector<std::pair<uint64_t, std::string>> l;
        for (auto& p : forkLog) l.push_back({ p.second, p.first });
        std::sort(l.rbegin(), l.rend());
        for (size_t i = 0; i < l.size() && i < 12; ++i) fprintf(stderr, "forks %llu\n%s\n", (unsigned long long)l[i].first, l[i].second.c_str());
    }
    std::ofstream o(path);
    o << "{\"paths\":" << st.paths << ",\"killed\":" << st.killed << ",\"instrs\":" << st.instrs << ",\"forks\":" << st.forks << ",\"symbranches\":" << st.symbr
      << ",\"schedpoints\":" << st.schedpts << ",\"asserts\":" << st.asserts << ",\"assert_queries\":" << st.assertq << ",\"maxdepth\":" << st.maxdepth
      << ",\"queries\":" << g_sstats.queries << ",\"q_sat\":" << g_sstats.sat << ",\"q_unsat\":" << g_sstats.unsat << ",\"q_unknown\":" << g_sstats.unknown
      << ",\"q_cached\":" << g_sstats.cachehits << ",\"solver_s\":" << g_sstats.seconds << ",\"max_query_s\":" << g_sstats.maxq << ",\"exprs\":" << exprCount() << ",\"wall_s\":" << now();
    o << ",\n\"incomplete\":{";
    bool first = true;
    for (auto& p : incomplete) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
    o << "},\n\"reach\":{";
    first = true;
    for (auto& p : reachCount) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
    o << "},\n\"samples\":{";
    first = true;
    for (auto& p : samples) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
    o << "},\n\"assertions\":{";
    first = true;
    for (auto& p : assertCount) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
    o << "},\n\"functions\":[";
    first = true;
    for (DFunc* d : g_funcByIdx)
        if (d->executed) {
            std::string file;
            if (DISubprogram* sp = d->F->getSubprogram()) file = sp->getFilename().str();
            if (file.find(o_srcprefix) != 0) continue;
            o << (first ? "" : ",") << "\"" << jesc(d->name) << "|" << jesc(file) << "\"";
            first = false;
        }
    o << "],\n\"violations\":[";
    first = true;
    for (auto& v : viols) {
        o << (first ? "" : ",") << "\n{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"stack\":\"" << jesc(v.stack)
          << "\",\"sched\":\"" << v.sched << "\",\"inputs\":" << v.inputs << "}";
        first = false;
    }
    o << "]}\n";
}

static void explore()
{
    while (!work.empty()) {
        if (now() > o_maxsec) { addIncomplete("time limit"); break; }
        if ((int)viols.size() >= o_maxviol) { addIncomplete("stopped at violation limit"); break; }
        if (st.paths + st.killed > o_maxpaths) { addIncomplete("path limit"); break; }
        State* s = work.back();
        work.pop_back();
        runPath(s);
    }
}

int main(int argc, char** argv)
{
    t_start = Clock::now();
    std::string file;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") o_entry = next();
        else if (a == "--out") o_out = next();
        else if (a == "--max-seconds") o_maxsec = atof(next().c_str());
        else if (a == "--jobs") o_jobs = atoi(next().c_str());
        else if (a == "--preempt") o_preempt = atoi(next().c_str());
        else if (a == "--max-steps") o_maxsteps = strtoull(next().c_str(), 0, 10);
        else if (a == "--max-paths") o_maxpaths = strtoull(next().c_str(), 0, 10);
        else if (a == "--max-viol") o_maxviol = atoi(next().c_str());
        else if (a == "--solver-timeout") g_solver_timeout_ms = atoi(next().c_str());
        else if (a == "--no-races") o_races = false;
        else if (a == "--src") o_srcprefix = next();
        else if (a == "--trace") o_trace = true;
        else if (a == "--max-ite") o_maxite = atoi(next().c_str());
        else if (a == "--param") { std::string p = next(); size_t e = p.find('='); o_params.push_back({ p.substr(0, e), strtoull(p.c_str() + e + 1, 0, 0) }); }
        else file = a;
    }
    LLVMContext C;
    SMDiagnostic err;
    auto mod = parseIRFile(file, err, C);
    if (!mod) fatal("cannot read " + file + ": " + err.getMessage().str());
    M = mod.get();
    // thread-local variables that are used without llvm.threadlocal.address (the guards of __tls_init)
    for (auto& G : M->globals()) {
        if (!G.isThreadLocal()) continue;
        std::vector<Use*> uses;
        for (Use& u : G.uses()) uses.push_back(&u);
        for (Use* u : uses) {
            auto* I = dyn_cast<Instruction>(u->getUser());
            if (!I) { addIncomplete("thread-local variable in a constant expression"); continue; }
            if (auto* II = dyn_cast<IntrinsicInst>(I)) if (II->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
            if (isa<PHINode>(I)) { addIncomplete("thread-local variable in a phi"); continue; }
            Function* F = Intrinsic::getDeclaration(M, Intrinsic::threadlocal_address, { G.getType() });
            u->set(CallInst::Create(F, { &G }, "", I));
        }
    }
    DataLayout dl = M->getDataLayout();
    DL = &dl;
    solverInit();
    initBuiltins();

    State* s = new State;
    s->thr.emplace_back();
    s->thr[0].vc[0] = 1;
    // globals
    for (auto& G : M->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        uint64_t sz = G.getValueType()->isSized() ? (uint64_t)dl.getTypeAllocSize(G.getValueType()) : 0;
        std::string* nm = new std::string(G.getName().str());
        bool decl = G.isDeclaration();
        if (decl && sz < 256) sz = 256;
        uint64_t a = s->mem.alloc(sz, OBJ_GLOBAL | (G.isConstant() ? OBJ_RO : 0) | (decl && !G.hasExternalWeakLinkage() ? OBJ_OPAQUE : 0), nm->c_str(), false);
        g_gaddr[&G] = decl && G.hasExternalWeakLinkage() ? 0 : a;
        g_gByAddr[a] = &G;
    }
    for (auto& F : *M) getFunc(&F);
    for (auto& G : M->globals()) {
        if (G.getName().starts_with("llvm.") || G.isDeclaration()) continue;
        Obj* o = s->mem.getw(g_gaddr[&G] >> 32);
        writeConst(o->data, G.getInitializer());
    }
    // constructors
    std::vector<std::pair<uint64_t, DFunc*>> ctors;
    if (auto* G = M->getNamedGlobal("llvm.global_ctors"))
        if (auto* A = dyn_cast<ConstantArray>(G->getInitializer()))
            for (auto& op : A->operands()) {
                auto* S = cast<ConstantStruct>(op);
                if (auto* F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts()))
                    ctors.push_back({ cast<ConstantInt>(S->getOperand(0))->getZExtValue(), getFunc(F) });
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : ctors) g_init.push_back(p.second);
    Function* E = M->getFunction(o_entry);
    if (!E || E->isDeclaration()) fatal("no entry function " + o_entry);
    g_init.push_back(getFunc(E));
    pushFrame(s, g_init[0], {});
    s->initIdx = 1;
    work.push_back(s);

    if (o_jobs <= 1) {
        explore();
        writeResult(o_out.empty() ? "/dev/stdout" : o_out);
        return 0;
    }
    // breadth-first until there are enough states, then distribute
    const size_t want = (size_t)o_jobs * 16;
    size_t rounds = 0;
    while (!work.empty() && work.size() < want && now() < o_maxsec && (int)viols.size() < o_maxviol) {
        State* x = work.front();
        work.erase(work.begin());
        runPath(x);
        if (++rounds > 4000 && now() > 20) break;
        if (now() > 3 && work.size() >= (size_t)o_jobs * 3) break;
    }
    if (work.size() < 2 || (int)viols.size() >= o_maxviol || now() > o_maxsec) {
        explore();
        writeResult(o_out);
        return 0;
    }
    struct Sh { volatile int next; volatile int stop; };
    Sh* sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->next = 0; sh->stop = 0;
    std::vector<State*> front;
    front.swap(work);
    writeResult(o_out + ".w0");
    std::vector<pid_t> pids;
    for (int j = 0; j < o_jobs; ++j) {
        pid_t p = fork();
        if (p == 0) {
            st = Stats(); g_sstats = SolverStats(); reachCount.clear(); assertCount.clear(); incomplete.clear(); viols.clear(); samples.clear();
            for (;;) {
                int k = __sync_fetch_and_add(&sh->next, 1);
                if (k >= (int)front.size()) break;
                if (sh->stop) { addIncomplete("stopped at violation limit"); break; }
                if (now() > o_maxsec) { addIncomplete("time limit"); break; }
                work.push_back(front[k]);
                explore();
                if ((int)viols.size() >= o_maxviol) { sh->stop = 1; break; }
            }
            writeResult(o_out + ".w" + std::to_string(j + 1));
            _exit(0);
        }
        pids.push_back(p);
    }
    bool bad = false;
    for (pid_t p : pids) { int wst; waitpid(p, &wst, 0); if (!WIFEXITED(wst) || WEXITSTATUS(wst)) bad = true; }
    std::ofstream o(o_out);
    o << "{\"workers\":" << o_jobs << ",\"crashed\":" << (bad ? 1 : 0) << "}\n";
    return 0;
}
