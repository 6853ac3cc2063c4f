#pragma once
#include "ir.h"
#include "solver.h"
#include <memory>
#include <set>

enum { OBJ_ALIVE = 1, OBJ_RO = 2, OBJ_HEAP = 4, OBJ_STACK = 8, OBJ_GLOBAL = 16, OBJ_FREED = 32, OBJ_OPAQUE = 64, OBJ_ARRAYNEW = 128 };
static const uint64_t OBJ_BASE = 16;

struct Shadow {   // race detection, per byte-range granule
    uint8_t wt = 0xff; uint32_t wc = 0; bool watomic = false; const void* wi = nullptr;
    uint32_t rc[8] = {0}; uint8_t ratomic = 0; const void* ri = nullptr;
};
struct Obj {
    int       rc = 1;
    uint32_t  size = 0;
    uint16_t  flags = 0;
    uint8_t*  data = nullptr;
    uint8_t*  undef = nullptr;    // 1 = byte uninitialised
    Expr**    sym = nullptr;      // symbolic bytes
    const char* name = "";
    std::map<uint32_t, Shadow>* sh = nullptr;
    ~Obj() { free(data); free(undef); free(sym); delete sh; }
    Obj* clone() const
    {
        Obj* o = new Obj;
        o->size = size; o->flags = flags; o->name = name;
        o->data = (uint8_t*)malloc(size ? size : 1);
        memcpy(o->data, data, size);
        if (undef) { o->undef = (uint8_t*)malloc(size + 1); memcpy(o->undef, undef, size); }
        if (sym) { o->sym = (Expr**)malloc((size + 1) * sizeof(Expr*)); memcpy(o->sym, sym, size * sizeof(Expr*)); }
        if (sh) o->sh = new std::map<uint32_t, Shadow>(*sh);
        return o;
    }
};
static const unsigned CHUNK = 128;
struct Chunk {
    int rc = 1;
    Obj* o[CHUNK];
    Chunk() { memset(o, 0, sizeof o); }
};
struct Memory {
    std::vector<Chunk*> ch;
    uint32_t next = 16;   // object ids start here
    Memory() {}
    Memory(const Memory& m) : ch(m.ch), next(m.next) { for (auto c : ch) if (c) c->rc++; }
    Memory& operator=(const Memory&) = delete;
    static void drop(Chunk* c)
    {
        if (c && --c->rc == 0) {
            for (auto o : c->o) if (o && --o->rc == 0) delete o;
            delete c;
        }
    }
    ~Memory() { for (auto c : ch) drop(c); }
    Obj* get(uint64_t id) const
    {
        size_t k = id / CHUNK;
        if (k >= ch.size() || !ch[k]) return nullptr;
        return ch[k]->o[id % CHUNK];
    }
    Chunk* wchunk(size_t k)
    {
        if (k >= ch.size()) ch.resize(k + 1, nullptr);
        if (!ch[k]) ch[k] = new Chunk;
        else if (ch[k]->rc > 1) {
            Chunk* n = new Chunk;
            memcpy(n->o, ch[k]->o, sizeof n->o);
            for (auto o : n->o) if (o) o->rc++;
            ch[k]->rc--;
            ch[k] = n;
        }
        return ch[k];
    }
    Obj* getw(uint64_t id)
    {
        size_t k = id / CHUNK;
        if (k >= ch.size() || !ch[k]) return nullptr;
        Obj* o = ch[k]->o[id % CHUNK];
        if (!o) return nullptr;
        if (ch[k]->rc == 1 && o->rc == 1) return o;
        Chunk* c = wchunk(k);
        o = c->o[id % CHUNK];
        if (o->rc > 1) {
            Obj* n = o->clone();
            o->rc--;
            c->o[id % CHUNK] = n;
            o = n;
        }
        return o;
    }
    uint64_t alloc(uint32_t size, uint16_t flags, const char* name, bool undef)
    {
        uint32_t id = next++;
        Chunk* c = wchunk(id / CHUNK);
        Obj* o = new Obj;
        o->size = size; o->flags = flags | OBJ_ALIVE; o->name = name;
        o->data = (uint8_t*)calloc(size ? size : 1, 1);
        if (undef) { o->undef = (uint8_t*)malloc(size + 1); memset(o->undef, 1, size + 1); }
        c->o[id % CHUNK] = o;
        return ((uint64_t)id << 32) + OBJ_BASE;
    }
    void release(uint64_t id, bool keepTomb)
    {
        Chunk* c = wchunk(id / CHUNK);
        Obj*& o = c->o[id % CHUNK];
        if (!o) return;
        uint16_t fl = o->flags; const char* nm = o->name; uint32_t sz = o->size;
        if (--o->rc == 0) delete o;
        o = nullptr;
        (void)sz;
        if (keepTomb) {
            o = new Obj;
            o->flags = (fl & ~OBJ_ALIVE) | OBJ_FREED;
            o->name = nm;
            o->size = 0;
            o->data = (uint8_t*)calloc(1, 1);
        }
    }
};

struct Frame {
    DFunc*   f;
    int      block = 0, pc = 0, prev = -1;
    uint32_t base = 0;
    std::vector<uint32_t> allocas;
    uint64_t varargs = 0;  // address of overflow area
};
struct TlsDtor { uint64_t fn, arg; };
enum TStat : uint8_t { T_RUN, T_MUTEX, T_JOIN, T_DONE };
struct Thread {
    std::vector<Frame> frames;
    std::vector<V>     regs;
    TStat    st = T_RUN;
    uint64_t waitOn = 0;
    bool     passed = false;     // scheduling decision for the pending sync op already made
    std::vector<uint64_t> caught;
    std::vector<uint64_t> uncaught;
    uint64_t excPtr = 0; uint32_t excSel = 0;   // pending landingpad value
    std::map<const void*, uint64_t> tls;
    std::vector<TlsDtor> dtors;
    V        ret;
    uint32_t vc[8] = {0};
    bool     detached = false;
};
struct Exc { uint64_t ptr, tinfo, dtor; int handlers; uint64_t adj; };
struct Input { std::string name; uint32_t size; std::vector<Expr*> vars; };
struct Mutex { int owner; int depth; };
struct VC { uint32_t c[8] = {0}; };
struct State {
    std::vector<Thread> thr;
    int      cur = 0;
    Memory   mem;
    std::vector<Expr*> pc;
    std::shared_ptr<Model> model;
    std::vector<Input> inputs;
    std::vector<Exc>   excs;
    std::map<uint64_t, Mutex> mutexes;
    std::map<uint64_t, VC> syncvc;
    std::string sched;
    uint32_t nundef = 0;
    int      preempt = 0;
    uint64_t steps = 0;
    uint32_t depth = 0;
    std::set<std::string> reached;
    std::vector<std::pair<std::string, V>> outs;
    uint64_t timeCounter = 0; uint32_t initIdx = 0;
    State() : model(std::make_shared<Model>()) {}
    State(const State&) = default;
};
