// C34: events of Kokkos, the heap, threads and file I/O are recorded exactly
#include "cal.h"
#include "services/kokkos/types.hpp"
#include "ext/gotcha/include/gotcha/gotcha_types.h"
#include "services/io/CurIOus/include/curious/curious.h"
#include <cerrno>
#include <pthread.h>
#include <thread>

namespace cali
{
extern CaliperService kokkostime_service, kokkoslookup_service, sysalloc_service, pthread_service, io_service;
}
SERVICES(kokkostime_service, kokkoslookup_service, sysalloc_service, pthread_service, io_service)

using cali::kokkos::SpaceHandle;
extern "C" {
void kokkosp_begin_parallel_for(const char*, const uint32_t, uint64_t*);
void kokkosp_begin_parallel_reduce(const char*, const uint32_t, uint64_t*);
void kokkosp_begin_parallel_scan(const char*, const uint32_t, uint64_t*);
void kokkosp_begin_fence(const char*, const uint32_t, uint64_t*);
void kokkosp_end_parallel_for(const uint64_t);
void kokkosp_end_parallel_reduce(const uint64_t);
void kokkosp_end_parallel_scan(const uint64_t);
void kokkosp_end_fence(const uint64_t);
void kokkosp_push_profile_region(char*);
void kokkosp_pop_profile_region();
void kokkosp_allocate_data(const SpaceHandle, const char*, const void* const, const uint64_t);
void kokkosp_deallocate_data(const SpaceHandle, const char*, const void* const, const uint64_t);
void kokkosp_begin_deep_copy(const SpaceHandle, const char*, const void*, const SpaceHandle, const char*, const void*, const uint64_t);
void kokkosp_end_deep_copy();
void kokkosp_init_library(const int, const uint64_t, const uint32_t, void*);
void kokkosp_finalize_library();
}

namespace
{

// ---- the C library's functions and what wraps them
void* g_ret;     // what the next allocation returns
int   g_errno;   // what it sets errno to
struct Call {
    int      f;
    uint64_t a, b;
};
std::vector<Call> g_calls;
void note(int f, uint64_t a, uint64_t b = 0) { g_calls.push_back({ f, a, b }); }

void* lib_malloc(size_t n) { note(0, n); if (g_errno) errno = g_errno; return g_ret; }
void* lib_calloc(size_t n, size_t e) { note(1, n, e); if (g_errno) errno = g_errno; return g_ret; }
void* lib_realloc(void* p, size_t n) { note(2, (uint64_t) p, n); if (g_errno) errno = g_errno; return g_ret; }
void  lib_free(void* p) { note(3, (uint64_t) p); }

std::thread* g_thread;
bool         g_create_fails;
int lib_pthread_create(pthread_t*, const pthread_attr_t*, void* (*fn)(void*), void* arg);

struct Fn {
    const char* name;
    void*       fn;
    void*       wrap;
};
Fn LIB[] = { { "malloc", (void*) lib_malloc, nullptr }, { "calloc", (void*) lib_calloc, nullptr }, { "realloc", (void*) lib_realloc, nullptr }, { "free", (void*) lib_free, nullptr }, { "pthread_create", (void*) lib_pthread_create, nullptr } };
Fn& lib(const char* name)
{
    for (Fn& f : LIB)
        if (!strcmp(f.name, name))
            return f;
    CHECK(false, "an unknown function is wrapped");
    return LIB[0];
}
void* entry(const char* name) { return lib(name).wrap ? lib(name).wrap : lib(name).fn; }

// ---- curious: calls the callbacks of each instance around an I/O call
struct Cb {
    int                inst, type;
    curious_callback_f f;
    void*              arg;
};
std::vector<Cb> g_cb;
int             g_insts;

template <class R>
void io(int cat, R rec, size_t R::* bytes, size_t n)
{
    for (size_t i = 0; i < g_cb.size(); ++i)
        if (g_cb[i].type == cat)
            g_cb[i].f(cat, g_cb[i].arg, &rec);
    if (bytes)
        rec.*bytes = n;
    for (size_t i = 0; i < g_cb.size(); ++i)
        if (g_cb[i].type == (cat | CURIOUS_POST_CALLBACK))
            g_cb[i].f(cat | CURIOUS_POST_CALLBACK, g_cb[i].arg, &rec);
}

struct Mem {
    bool        begin;
    const void* p;
    std::string label, space;
    uint64_t    bytes;
    bool operator== (const Mem& o) const { return begin == o.begin && p == o.p && label == o.label && space == o.space && bytes == o.bytes; }
};

std::string path(Caliper& c, const char* name)
{
    std::string ret;
    Attribute   a = c.get_attribute(name);
    if (!a)
        return ret;
    Entry e = c.get(a);
    for (const Node* n = e.node(); n; n = n->parent())
        if (n->attribute() == a.id())
            ret = n->data().to_string() + (ret.empty() ? "" : "/" + ret);
    return ret;
}

// what one channel has been told
struct Log_ {
    Channel                  ch;
    std::vector<Mem>         mem;
    std::vector<std::string> ev, snap;

    void watch()
    {
        ch.events().track_mem_evt.connect([this](Caliper* c, ChannelBody*, const void* p, const char* l, size_t es, size_t nd, const size_t* d, size_t n, const Attribute* a, const Variant* v) {
            Mem m { true, p, l, "", es };
            for (size_t i = 0; i < nd; ++i)
                m.bytes *= d[i];
            for (size_t i = 0; i < n; ++i)
                m.space += a[i].name() + "=" + v[i].to_string() + ";";
            mem.push_back(m);
        });
        ch.events().untrack_mem_evt.connect([this](Caliper*, ChannelBody*, const void* p) { if (p) mem.push_back({ false, p, "", "", 0 }); });
        ch.events().pre_begin_evt.connect([this](Caliper*, ChannelBody*, const Attribute& a, const Variant& v) { ev.push_back("+" + a.name() + "=" + v.to_string()); });
        ch.events().pre_end_evt.connect([this](Caliper*, ChannelBody*, const Attribute& a, const Variant& v) { ev.push_back("-" + a.name() + "=" + v.to_string()); });
        ch.events().process_snapshot.connect([this](Caliper* c, SnapshotView info, SnapshotView rec) {
            std::string s;
            for (const Entry& e : rec)
                if (!e.is_reference())
                    s += c->get_attribute(e.attribute()).name() + "=" + e.value().to_string() + ";";
            snap.push_back(s);
        });
    }
};

} // namespace

extern "C" {
enum gotcha_error_t gotcha_wrap(struct gotcha_binding_t* b, int n, const char*)
{
    for (int k = 0; k < n; ++k) {
        Fn& f = lib(b[k].name);
        CHECK(f.wrap == nullptr, "a function is wrapped twice");
        f.wrap                = b[k].wrapper_pointer;
        *b[k].function_handle = f.fn;
    }
    return GOTCHA_SUCCESS;
}
void* gotcha_get_wrappee(gotcha_wrappee_handle_t h) { return h; }

curious_t curious_init(curious_apis_t) { return ++g_insts; }
void      curious_finalize(curious_t i)
{
    for (size_t k = 0; k < g_cb.size();)
        if (g_cb[k].inst == i)
            g_cb.erase(g_cb.begin() + k);
        else
            ++k;
}
int curious_register_callback(curious_t i, curious_callback_type_t t, curious_callback_f f, void* arg)
{
    g_cb.push_back({ i, t, f, arg });
    return 0;
}
}

// kernels, fences and regions of Kokkos, in channels that come and go
ENTRY(c34_kokkos)
{
    quiet();
    Caliper c;
    Channel ch[2];
    Log_    watch; // another channel sees the regions
    watch.ch = make_channel(c, "watch");
    watch.watch();
    c.activate_channel(watch.ch);

    struct Open {
        int         kind;
        bool        seen;
        std::string name;
    };
    static const char* T[] = { "kokkos.parallel_for", "kokkos.parallel_reduce", "kokkos.parallel_scan", "kokkos.fence", "kokkos.user_region" };
    std::vector<Open>        st;
    std::vector<std::string> want;
    bool                     on = false, was = false;
    int                      ops = symx_param("ops", 4);
    int                      chn[2] = { 0, 0 }; // 0 none 1 there 2 deleted
    auto                     check  = [&]() {
        std::string r, t;
        for (const Open& o : st) {
            if (o.kind == 5 || o.seen)
                r += (r.empty() ? "" : "/") + o.name;
            if (o.kind < 5 && o.seen)
                t += (t.empty() ? "" : "/") + std::string(T[o.kind]);
        }
        CHECK(path(c, "region") == r, "the current region is the innermost Kokkos or program region");
        CHECK(path(c, "kernel_type") == t, "the kernel type is that of the Kokkos regions");
    };
    auto open = [&](int k, std::string name) {
        // after the last channel with the service is gone, Kokkos regions may be recorded or not
        symx_assume(k == 5 || on || !was);
        st.push_back({ k, on, name });
        uint64_t id = 0;
        char*    n  = (char*) malloc(name.size() + 1);
        strcpy(n, name.c_str());
        switch (k) {
        case 0: kokkosp_begin_parallel_for(n, 1, &id); break;
        case 1: kokkosp_begin_parallel_reduce(n, 1, &id); break;
        case 2: kokkosp_begin_parallel_scan(n, 1, &id); break;
        case 3: kokkosp_begin_fence(n, 1, &id); break;
        case 4: kokkosp_push_profile_region(n); break;
        case 5: cali_begin_region(n); break;
        }
        free(n);
        if (on || k == 5)
            want.push_back("+region=" + name);
    };
    auto close = [&]() {
        Open o = st.back();
        st.pop_back();
        switch (o.kind) {
        case 0: kokkosp_end_parallel_for(7); break;
        case 1: kokkosp_end_parallel_reduce(7); break;
        case 2: kokkosp_end_parallel_scan(7); break;
        case 3: kokkosp_end_fence(7); break;
        case 4: kokkosp_pop_profile_region(); break;
        case 5: cali_end_region(o.name.c_str()); break;
        }
        if (o.seen || o.kind == 5)
            want.push_back("-region=" + o.name);
    };
    for (int i = 0; i < ops; ++i) {
        int op = symx_choose(9, "op");
        if (op < 6)
            open(op, "r" + std::to_string(symx_choose(2, "name")));
        else if (op == 6) {
            symx_assume(!st.empty());
            close();
        } else {
            int k = op - 7;
            symx_assume(k == 0 || chn[0] > 0);
            symx_assume(chn[k] < 2);
            if (chn[k] == 0) {
                ch[k] = make_channel(c, k ? "k1" : "k0", { { "CALI_SERVICES_ENABLE", k ? "kokkostime,kokkoslookup" : "kokkostime" } });
                c.activate_channel(ch[k]);
            } else
                c.delete_channel(ch[k]);
            ++chn[k];
            on = chn[0] == 1 || chn[1] == 1;
            was |= on;
        }
        check();
    }
    while (!st.empty()) {
        close();
        check();
    }
    if (was && !on)
        kokkosp_begin_parallel_for("late", 0, nullptr), kokkosp_end_parallel_for(0);
    for (size_t i = 0; i < want.size(); ++i)
        CHECK(i < watch.ev.size() && watch.ev[i] == want[i], "there is one begin and one end event for each Kokkos region");
    CHECK(watch.ev.size() == want.size() || (was && !on), "there is one begin and one end event for each Kokkos region");
    symx_reach("kokkos");
}

// allocations and copies of Kokkos
ENTRY(c34_kokkos_memory)
{
    quiet();
    Caliper                  c;
    Log_                     w[2];
    std::vector<Mem>         mem[2];
    std::vector<std::string> snap[2];
    bool                     act[2] = {}, dead[2] = {};
    for (int k = 0; k < 2; ++k) {
        w[k].ch = make_channel(c, k ? "b" : "a", { { "CALI_SERVICES_ENABLE", "kokkoslookup" } });
        w[k].watch();
        if (k == 0 || symx_choose(2, "active")) {
            c.activate_channel(w[k].ch);
            act[k] = true;
        }
    }
    kokkosp_init_library(0, 20211015, 0, nullptr);
    int         ops = symx_param("ops", 3);
    SpaceHandle sp[2];
    memset(sp, 0, sizeof(sp));
    strcpy(sp[0].name, "Host");
    for (int i = 0; i < 63; ++i)
        sp[1].name[i] = 'x';
    for (int i = 0; i < ops; ++i) {
        int      op   = symx_choose(4, "op");
        uint64_t size = symx_u64("size"), p = symx_u64("p"), q = symx_u64("q");
        symx_assume(p != 0);
        int s = op == 0 ? symx_choose(2, "space") : 0;
        if (op == 0) {
            kokkosp_allocate_data(sp[s], "view", (void*) p, size);
            for (int k = 0; k < 2; ++k)
                if (act[k])
                    mem[k].push_back({ true, (void*) p, "view", std::string("kokkos.space=") + sp[s].name + ";", size });
        } else if (op == 1) {
            kokkosp_deallocate_data(sp[s], "view", (void*) p, size);
            for (int k = 0; k < 2; ++k)
                if (act[k])
                    mem[k].push_back({ false, (void*) p, "", "", 0 });
        } else if (op == 2) {
            size = 40 + i, p = 0x1000, q = 0x2000 + i;
            kokkosp_begin_deep_copy(sp[0], "dst", (void*) p, sp[1], "src", (void*) q, size);
            kokkosp_end_deep_copy();
            for (int k = 0; k < 2; ++k)
                if (act[k])
                    snap[k].push_back("kokkos.dst.addr=1000;kokkos.src.addr=200" + std::to_string(i) + ";kokkos.size=4" + std::to_string(i) + ";");
        } else {
            int k = symx_choose(2, "channel"), what = symx_choose(2, "delete");
            symx_assume(!dead[k]);
            if (what) {
                c.delete_channel(w[k].ch);
                dead[k] = true;
                act[k]  = false;
            } else {
                if (act[k])
                    c.deactivate_channel(w[k].ch);
                else
                    c.activate_channel(w[k].ch);
                act[k] = !act[k];
            }
        }
    }
    kokkosp_finalize_library();
    for (int k = 0; k < 2; ++k) {
        CHECK(w[k].mem.size() == mem[k].size(), "active channels and no others see the Kokkos allocations");
        for (size_t i = 0; i < mem[k].size(); ++i)
            CHECK(w[k].mem[i] == mem[k][i], "Kokkos allocations are recorded with address, label, size and space");
        CHECK(w[k].snap.size() == snap[k].size(), "active channels and no others have a record for each copy");
        for (size_t i = 0; i < snap[k].size(); ++i)
            CHECK(w[k].snap[i].find(snap[k][i]) != std::string::npos, "a copy's record has its addresses and size");
    }
    symx_reach("kokkos memory");
}

// malloc, calloc, realloc and free
ENTRY(c34_heap)
{
    quiet();
    Caliper          c;
    Log_             w[2];
    std::vector<Mem> mem[2];
    bool             there[2] = {}, act[2] = {}, dead[2] = {};
    auto             make     = [&](int k) {
        w[k].ch = make_channel(c, k ? "b" : "a", { { "CALI_SERVICES_ENABLE", "sysalloc" } });
        w[k].watch();
        c.activate_channel(w[k].ch);
        there[k] = act[k] = true;
    };
    make(0);
    int ops = symx_param("ops", 3);
    for (int i = 0; i < ops; ++i) {
        int op = symx_choose(6, "op");
        g_calls.clear();
        errno   = 5;
        g_errno = 0;
        if (op < 4) {
            uint64_t n = symx_u64("n"), p = symx_u64("p");
            uint64_t e = op == 1 ? 1 + symx_choose(4, "element") : 1;
            symx_assume(p != 0);
            bool null = symx_choose(2, "null"), fail = false;
            if (op < 3) {
                fail  = null;
                if (op == 2)
                    symx_assume(!fail); // a realloc that fails
                g_ret = fail ? nullptr : (void*) (p ^ 0x5000);
                symx_assume((uint64_t) (p ^ 0x5000) != 0);
                if (fail)
                    g_errno = 12;
            }
            void* in  = null ? nullptr : (void*) p;
            void* ret = nullptr;
            switch (op) {
            case 0: ret = ((void* (*) (size_t)) entry("malloc"))(n); break;
            case 1: ret = ((void* (*) (size_t, size_t)) entry("calloc"))(n, e); break;
            case 2: in = symx_choose(2, "from null") ? nullptr : (void*) p; ret = ((void* (*) (void*, size_t)) entry("realloc"))(in, n); break;
            case 3: ((void (*)(void*)) entry("free"))(in); break;
            }
            CHECK(g_calls.size() == 1 && g_calls[0].f == op, "the function of the C library is called once");
            CHECK(g_calls[0].a == (op < 2 ? n : (uint64_t) in), "the C library gets the program's arguments");
            CHECK(g_calls[0].b == (op == 1 ? e : op == 2 ? n : 0), "the C library gets the program's arguments");
            if (op < 3)
                CHECK(ret == g_ret, "the program gets what the C library returns");
            CHECK(errno == (g_errno ? g_errno : 5), "errno is that of the C library");
            for (int k = 0; k < 2; ++k)
                if (act[k]) {
                    if (op >= 2 && in)
                        mem[k].push_back({ false, in, "", "", 0 });
                    if (op < 3 && g_ret)
                        mem[k].push_back({ true, g_ret, op == 0 ? "malloc" : op == 1 ? "calloc" : "realloc", "", n * e });
                }
        } else {
            int k = op - 4;
            symx_assume(!dead[k]);
            int what = there[k] ? symx_choose(2, "delete") : 2;
            if (what == 2)
                make(k);
            else if (what == 1) {
                c.delete_channel(w[k].ch);
                act[k]  = false;
                dead[k] = true;
            } else {
                if (act[k])
                    c.deactivate_channel(w[k].ch);
                else
                    c.activate_channel(w[k].ch);
                act[k] = !act[k];
            }
        }
    }
    for (int k = 0; k < 2; ++k) {
        CHECK(w[k].mem.size() == mem[k].size(), "active channels and no others see the allocations");
        for (size_t i = 0; i < mem[k].size(); ++i)
            CHECK(w[k].mem[i] == mem[k][i], "allocations are recorded with address, function and size");
    }
    symx_reach("heap");
}

// the runtime's own allocations, and those in its callbacks, are not recorded
ENTRY(c34_heap_reentry)
{
    quiet();
    Caliper c;
    Log_    w;
    w.ch = make_channel(c, "a", { { "CALI_SERVICES_ENABLE", "sysalloc" } });
    w.watch();
    c.activate_channel(w.ch);
    int  n    = 0;
    auto inner = [&n]() {
        ++n;
        g_ret     = (void*) 0x3000;
        void* p   = ((void* (*) (size_t)) entry("malloc"))(10);
        CHECK(p == g_ret, "the program gets what the C library returns");
        ((void (*)(void*)) entry("free"))(p);
        g_ret = (void*) 0x4000;
    };
    w.ch.events().track_mem_evt.connect([&](Caliper*, ChannelBody*, const void*, const char*, size_t, size_t, const size_t*, size_t, const Attribute*, const Variant*) { inner(); });
    w.ch.events().pre_begin_evt.connect([&](Caliper*, ChannelBody*, const Attribute&, const Variant&) { inner(); });
    g_ret   = (void*) 0x4000;
    void* p = ((void* (*) (size_t)) entry("malloc"))(20);
    CHECK(p == (void*) 0x4000, "the program gets what the C library returns");
    cali_begin_region("r");
    cali_end_region("r");
    CHECK(n == 2 && w.mem.size() == 1 && w.mem[0].p == (void*) 0x4000 && w.mem[0].bytes == 20, "allocations inside of the runtime are not recorded");
    symx_reach("reentry");
}

namespace
{
struct Start {
    int   k;
    void* ret;
    bool  ran;
    bool  has_runtime;
};
uint64_t g_self;

void* thread_main(void* p)
{
    Start*  s = (Start*) p;
    CHECK(s->k == 17, "the thread's function gets its argument");
    s->ran = true;
    if (s->has_runtime) {
        Caliper   c;
        Attribute id = c.get_attribute("pthread.id"), m = c.get_attribute("pthread.is_master");
        Entry     e  = c.get(id);
        CHECK(!e.empty() && e.value().to_uint() == (uint64_t) pthread_self(), "pthread.id is the id of the thread");
        e = c.get(m);
        CHECK(!e.empty() && !e.value().to_bool(), "pthread.is_master is false in other threads");
    }
    return s->ret;
}
void* g_result;
int   lib_pthread_create(pthread_t*, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (g_create_fails)
        return 11;
    g_thread = new std::thread([=]() { g_result = fn(arg); });
    return 0;
}
} // namespace

// threads
ENTRY(c34_thread)
{
    quiet();
    Caliper c;
    Log_    w[2];
    int     n = 1 + symx_choose(2, "channels");
    for (int k = 0; k < n; ++k) {
        w[k].ch = make_channel(c, k ? "b" : "a", { { "CALI_SERVICES_ENABLE", "pthread" } });
        c.activate_channel(w[k].ch);
    }
    std::vector<std::string> ids;
    w[0].ch.events().pre_set_evt.connect([&](Caliper*, ChannelBody*, const Attribute& a, const Variant& v) { ids.push_back(a.name()); });
    auto check = [&]() {
        Entry e = c.get(c.get_attribute("pthread.id"));
        CHECK(!e.empty() && e.value().to_uint() == (uint64_t) pthread_self(), "pthread.id is the id of the thread");
        e = c.get(c.get_attribute("pthread.is_master"));
        CHECK(!e.empty() && e.value().to_bool(), "pthread.is_master is true in the main thread");
    };
    check();
    bool gone = symx_choose(2, "finished");
    if (gone)
        Caliper::release();
    Start     s { 17, (void*) 0x77, false, !gone };
    pthread_t t;
    g_create_fails = symx_choose(2, "fails");
    int r = ((int (*)(pthread_t*, const pthread_attr_t*, void* (*) (void*), void*)) entry("pthread_create"))(&t, nullptr, thread_main, &s);
    CHECK(r == (g_create_fails ? 11 : 0), "the program gets the result of pthread_create");
    if (!r) {
        g_thread->join();
        CHECK(s.ran && g_result == (void*) 0x77, "the thread runs and returns its function's result");
        if (!gone)
            CHECK(ids.size() == 1 && ids[0] == "pthread.id", "a new thread is an event");
    }
    if (!gone)
        check();
    symx_reach("thread");
}

// file I/O
ENTRY(c34_io)
{
    quiet();
    Caliper c;
    Log_    w[2];
    bool    act[2] = {}, two = symx_choose(2, "two");
    for (int k = 0; k < 1 + two; ++k) {
        w[k].ch = make_channel(c, k ? "b" : "a", { { "CALI_SERVICES_ENABLE", "io" } });
        w[k].watch();
        act[k] = k == 0 || symx_choose(2, "active");
        if (act[k])
            c.activate_channel(w[k].ch);
    }
    int                      ops = symx_param("ops", 2);
    std::vector<std::string> snap;
    std::vector<std::string> ev;
    int                      nact = act[0] + act[1];
    auto strip = [](std::string s) { std::string r; for (char ch : s) if (ch) r.push_back(ch); return r; };
    for (int i = 0; i < ops; ++i) {
        int  op   = symx_choose(4, "op");
        char fs[] = "ext4", mp[] = "/home";
        bool known = symx_choose(2, "known");
        uint64_t n = 0;
        std::string inner;
        // what the thread's data is during the call
        if (op < 2) {
            n = symx_choose(2, "bytes") ? 100 + i : 0;
            if (op == 0)
                io<curious_read_record_t>(CURIOUS_READ_CALLBACK, { 0, 1, known ? fs : nullptr, known ? mp : nullptr, CURIOUS_READ_ID }, &curious_read_record_t::bytes_read, n);
            else
                io<curious_write_record_t>(CURIOUS_WRITE_CALLBACK, { 0, 1, known ? fs : nullptr, known ? mp : nullptr, CURIOUS_WRITE_ID }, &curious_write_record_t::bytes_written, n);
            if (n)
                snap.push_back(std::string(op ? "io.bytes.written=" : "io.bytes.read=") + std::to_string(n) + ";");
        } else if (op == 2)
            io<curious_metadata_record_t>(CURIOUS_METADATA_CALLBACK, { 1, known ? fs : nullptr, known ? mp : nullptr, CURIOUS_OPEN_ID }, nullptr, 0);
        else if (two) {
            if (!act[1])
                c.activate_channel(w[1].ch);
            else
                c.deactivate_channel(w[1].ch);
            act[1] = !act[1];
            two = false; // once
            w[1].snap.clear();
            w[1].ev.clear();
            continue;
        } else
            continue;
        CHECK(path(c, "io.region").empty() && path(c, "io.filesystem").empty() && path(c, "io.mount.point").empty(), "an I/O region ends with the call");
        std::string r = op == 0 ? "read" : op == 1 ? "write" : "metadata";
        // each channel that records I/O marks the region
        int m = act[0] + act[1];
        for (int k = 0; k < m; ++k)
            ev.push_back("+io.region=" + r);
        for (int k = 0; k < m; ++k)
            ev.push_back("-io.region=" + r);
    }
    CHECK(w[0].ev.size() == ev.size(), "there is one begin and one end event for each I/O call");
    for (size_t i = 0; i < ev.size(); ++i)
        CHECK(strip(w[0].ev[i]) == ev[i], "the events have the kind of the I/O call");
    CHECK(w[0].snap.size() == snap.size(), "there is one record for each call that moves data");
    for (size_t i = 0; i < snap.size(); ++i)
        CHECK(w[0].snap[i].find(snap[i]) != std::string::npos, "the record has the number of bytes");
    for (const std::string& s : w[1].snap)
        CHECK(act[1] || nact < 2 || !s.empty(), "only active channels have records");
    c.delete_channel(w[0].ch);
    size_t before = w[0].ev.size();
    io<curious_write_record_t>(CURIOUS_WRITE_CALLBACK, { 0, 1, nullptr, nullptr, CURIOUS_WRITE_ID }, &curious_write_record_t::bytes_written, 5);
    CHECK(w[0].ev.size() == before && w[0].snap.size() == snap.size(), "a deleted channel has no further records");
    symx_reach("io");
}
