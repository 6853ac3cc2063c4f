// C33: OpenMP regions and thread information follow the OpenMP program
#include "cal.h"
#include <omp-tools.h>
#include <thread>

namespace cali
{
extern CaliperService ompt_service;
}
SERVICES(ompt_service)

extern "C" ompt_start_tool_result_t* ompt_start_tool(unsigned omp_version, const char* runtime_version);

namespace
{

// ---- the OpenMP runtime: it calls what the tool has registered

ompt_callback_t g_cb[128];
int             g_finalized = 0;
int             g_proc      = 3;

ompt_set_result_t set_callback(ompt_callbacks_t which, ompt_callback_t fn)
{
    g_cb[which] = fn;
    return ompt_set_always;
}
int  get_state(ompt_wait_id_t*) { return 0; }
int  enumerate_states(int, int*, const char**) { return 0; }
int  get_proc_id() { return g_proc; }
void finalize_tool() { ++g_finalized; }

ompt_interface_fn_t lookup(const char* name)
{
    const struct { const char* n; void* f; } fns[] = { { "ompt_set_callback", (void*) set_callback }, { "ompt_get_state", (void*) get_state },
        { "ompt_enumerate_states", (void*) enumerate_states }, { "ompt_get_proc_id", (void*) get_proc_id }, { "ompt_finalize_tool", (void*) finalize_tool } };
    for (auto& f : fns)
        if (!strcmp(f.n, name))
            return (ompt_interface_fn_t) f.f;
    return nullptr;
}

template <class F, class... A>
void fire(ompt_callbacks_t which, A... a)
{
    if (g_cb[which])
        ((F) g_cb[which])(a...);
}
void thread_begin(ompt_thread_t t) { fire<ompt_callback_thread_begin_t>(ompt_callback_thread_begin, t, (ompt_data_t*) nullptr); }
void thread_end() { fire<ompt_callback_thread_end_t>(ompt_callback_thread_end, (ompt_data_t*) nullptr); }
void parallel_begin(unsigned n) { fire<ompt_callback_parallel_begin_t>(ompt_callback_parallel_begin, (ompt_data_t*) nullptr, (const ompt_frame_t*) nullptr, (ompt_data_t*) nullptr, n, 0, (const void*) nullptr); }
void parallel_end() { fire<ompt_callback_parallel_end_t>(ompt_callback_parallel_end, (ompt_data_t*) nullptr, (ompt_data_t*) nullptr, 0, (const void*) nullptr); }
void task(ompt_scope_endpoint_t e, unsigned par, unsigned idx, int flags) { fire<ompt_callback_implicit_task_t>(ompt_callback_implicit_task, e, (ompt_data_t*) nullptr, (ompt_data_t*) nullptr, par, idx, flags); }
void work(int k, ompt_scope_endpoint_t e) { fire<ompt_callback_work_t>(ompt_callback_work, (ompt_work_t) k, e, (ompt_data_t*) nullptr, (ompt_data_t*) nullptr, (uint64_t) 10, (const void*) nullptr); }
void sync_region(int k, ompt_scope_endpoint_t e) { fire<ompt_callback_sync_region_t>(ompt_callback_sync_region, (ompt_sync_region_t) k, e, (ompt_data_t*) nullptr, (ompt_data_t*) nullptr, (const void*) nullptr); }

// names that the OpenMP specification gives to the constructs
const char* work_name(int k)
{
    switch (k) {
    case ompt_work_loop: return "loop";
    case ompt_work_sections: return "sections";
    case ompt_work_single_executor: return "single_executor";
    case ompt_work_single_other: return "single_other";
    case ompt_work_workshare: return "workshare";
    case ompt_work_distribute: return "distribute";
    case ompt_work_taskloop: return "taskloop";
    case 8: return "scope";
    }
    return "UNKNOWN";
}
const char* sync_name(int k)
{
    switch (k) {
    case ompt_sync_region_barrier: return "barrier";
    case ompt_sync_region_barrier_implicit: return "barrier_implicit";
    case ompt_sync_region_barrier_explicit: return "barrier_explicit";
    case ompt_sync_region_barrier_implementation: return "barrier_implementation";
    case ompt_sync_region_taskwait: return "taskwait";
    case ompt_sync_region_taskgroup: return "taskgroup";
    case ompt_sync_region_reduction: return "reduction";
    case 8: return "barrier_implicit_workshare";
    case 9: return "barrier_implicit_parallel";
    case 10: return "barrier_teams";
    }
    return "UNKNOWN";
}

const ompt_scope_endpoint_t BEGIN = ompt_scope_begin, END = ompt_scope_end;

struct Open {
    int         kind; // 0 parallel 1 task 2 work 3 sync 4 user region
    int         a, b;
    bool        seen; // began after the service was started
};

struct Event {
    bool        begin;
    std::string attr, val;
};

struct World {
    Caliper            c;
    Channel            ch;
    Attribute          user;
    bool               started = false;
    std::vector<Event> seen, want;
    std::vector<Open>  stack;
    bool               thread = false, thread_seen = false;
    int                type = 0;

    World() { user = c.create_attribute("user", CALI_TYPE_STRING, CALI_ATTR_NESTED); }

    void start_service()
    {
        started = true;
        ch      = make_channel(c, "omp", { { "CALI_SERVICES_ENABLE", "ompt" } });
        ch.events().pre_begin_evt.connect([this](Caliper*, ChannelBody*, const Attribute& a, const Variant& v) { seen.push_back({ true, a.name(), v.to_string() }); });
        ch.events().pre_end_evt.connect([this](Caliper*, ChannelBody*, const Attribute& a, const Variant& v) { seen.push_back({ false, a.name(), v.to_string() }); });
        c.activate_channel(ch);
    }
    bool start_tool()
    {
        ompt_start_tool_result_t* r = ompt_start_tool(201811, "test");
        if (!r)
            return false;
        CHECK(r->initialize(lookup, 0, nullptr) != 0, "the OpenMP tool is initialised");
        return true;
    }
    void event(bool begin, const char* attr, std::string val) { want.push_back({ begin, attr, val }); }

    std::string top(int kind)
    {
        for (size_t i = stack.size(); i-- > 0;)
            if (stack[i].kind == kind && stack[i].seen)
                return kind == 0 ? std::to_string(stack[i].a) : kind == 1 ? std::to_string(stack[i].b) : kind == 2 ? work_name(stack[i].a) : kind == 3 ? sync_name(stack[i].a) : "u" + std::to_string(stack[i].a);
        return "";
    }
    std::string num_threads()
    {
        for (size_t i = stack.size(); i-- > 0;)
            if (stack[i].kind == 1 && stack[i].seen)
                return std::to_string(stack[i].a);
        return "";
    }
    std::string get(const char* name)
    {
        Attribute a = c.get_attribute(name);
        return a ? c.get(a).value().to_string() : std::string();
    }
    // what the thread's data says agrees with the OpenMP state
    void check()
    {
        CHECK(get("omp.parallel") == top(0), "omp.parallel is the innermost parallel region of this thread");
        CHECK(get("omp.thread.id") == top(1), "omp.thread.id is the thread's number in the innermost parallel region");
        CHECK(get("omp.num.threads") == num_threads(), "omp.num.threads is the number of threads in the innermost parallel region");
        CHECK(get("omp.work") == top(2), "omp.work is the innermost worksharing region");
        CHECK(get("omp.sync") == top(3), "omp.sync is the innermost synchronization region");
        CHECK(get("user") == top(4), "the program's regions are not affected by OpenMP regions");
        const char* T[] = { "", "initial", "worker", "other", "unknown" };
        CHECK(get("omp.thread.type") == (thread && thread_seen ? T[type] : ""), "omp.thread.type is the kind of the thread");
        CHECK(get("omp.proc.id") == (thread && thread_seen && g_proc >= 0 ? std::to_string(g_proc) : ""), "omp.proc.id is the processor of the thread");
    }
    void check_events()
    {
        CHECK(seen.size() == want.size(), "there is one begin and one end event for each OpenMP region");
        for (size_t i = 0; i < want.size(); ++i) {
            CHECK(seen[i].begin == want[i].begin && seen[i].attr == want[i].attr, "the events follow the OpenMP regions");
            CHECK(seen[i].val == want[i].val, "the events carry the values of the OpenMP regions");
        }
    }

    void open(int kind, int a, int b = 0)
    {
        stack.push_back({ kind, a, b, started || kind == 4 });
        switch (kind) {
        case 0: parallel_begin(a); break;
        case 1: task(BEGIN, a, b, ompt_task_implicit); break;
        case 2: work(a, BEGIN); break;
        case 3: sync_region(a, BEGIN); break;
        case 4: c.begin(user, Variant(a ? "u1" : "u0")); break;
        }
        log(true, kind);
    }
    void log(bool begin, int kind)
    {
        const char* names[] = { "omp.parallel", nullptr, "omp.work", "omp.sync", "user" };
        if (names[kind] && started && stack.back().seen)
            event(begin, names[kind], top(kind));
    }
    void close()
    {
        Open o = stack.back();
        log(false, o.kind);
        switch (o.kind) {
        case 0: parallel_end(); break;
        case 1: task(END, 0, o.b, ompt_task_implicit); break;
        case 2: work(o.a, END); break;
        case 3: sync_region(o.a, END); break;
        case 4: c.end(user); break;
        }
        stack.pop_back();
    }
    void begin_thread(int t)
    {
        thread      = true;
        type        = t;
        thread_seen = started;
        thread_begin(t == 4 ? ompt_thread_unknown : (ompt_thread_t) t);
        const char* T[] = { "", "initial", "worker", "other", "unknown" };
        if (started)
            event(true, "omp.thread.type", T[t]);
    }
    void end_thread()
    {
        const char* T[] = { "", "initial", "worker", "other", "unknown" };
        if (thread_seen)
            event(false, "omp.thread.type", T[type]);
        thread_end();
        thread = false;
    }
};

} // namespace

// every properly nested history of one thread; the service may be started at any point of it
ENTRY(c33_thread)
{
    quiet();
    World w;
    int   ops = symx_param("ops", 4), at = symx_choose(symx_param("start", 3) + 1, "start the service after");
    bool  env = at > 0 || symx_choose(2, "env");
    if (env)
        setenv("CALI_USE_OMPT", "1", 1);
    g_proc = symx_choose(2, "proc") ? 5 : -1;
    if (at == 0)
        w.start_service();
    CHECK(w.start_tool(), "the OpenMP tool is active when it is requested or a channel uses it");
    w.begin_thread(1 + symx_choose(4, "thread type"));
    w.check();
    for (int i = 0; i < ops; ++i) {
        if (i + 1 == at)
            w.start_service();
        int op = symx_choose(w.stack.empty() ? 5 : 6, "op");
        if (op == 5)
            w.close();
        else
            w.open(op, op == 0 ? 4 - i : op == 1 ? 2 + i : op == 4 ? (int) w.stack.size() % 2 : op == 2 ? 1 : 3, i);
        w.check();
    }
    if (!w.started)
        w.start_service();
    while (!w.stack.empty()) {
        w.close();
        w.check();
    }
    w.end_thread();
    w.check();
    // the program's own regions are recorded as always
    w.open(4, 1);
    w.check();
    w.close();
    w.check_events();
    symx_reach("thread");
}

// kinds of constructs, including ones that the service does not know; the initial task
ENTRY(c33_kinds)
{
    quiet();
    World w;
    w.start_service();
    CHECK(w.start_tool(), "the OpenMP tool is active when a channel uses it");
    w.begin_thread(1);
    task(BEGIN, 1, 1, ompt_task_initial);
    w.check();
    int k = (int) symx_u32("kind");
    bool s = symx_choose(2, "sync");
    symx_assume(k >= -2);
    symx_assume(k <= 15);
    k = (int) symx_concretize((unsigned) k);
    w.open(s ? 3 : 2, k);
    w.check();
    int nt = (int) symx_concretize(symx_range(1, 3, "threads"));
    w.open(0, nt);
    w.open(1, nt, nt - 1);
    w.check();
    w.close();
    w.close();
    w.check();
    w.close();
    w.check();
    task(END, 0, 1, ompt_task_initial);
    w.end_thread();
    w.check();
    w.check_events();
    // the tool is shut down with the last channel that uses it
    Channel ch2 = make_channel(w.c, "omp2", { { "CALI_SERVICES_ENABLE", "ompt" } });
    bool    first = symx_choose(2, "first");
    w.c.delete_channel(first ? w.ch : ch2);
    CHECK(g_finalized == 0, "the OpenMP tool stays active while a channel uses it");
    w.c.delete_channel(first ? ch2 : w.ch);
    CHECK(g_finalized == 1, "the OpenMP tool is shut down with the last channel that uses it");
    symx_reach("kinds");
}

// whether the tool is activated
ENTRY(c33_activation)
{
    quiet();
    World       w;
    const char* V[] = { nullptr, "1", "true", "0", "false", "" };
    int         v   = symx_choose(6, "CALI_USE_OMPT");
    bool        channel = symx_choose(2, "channel");
    if (V[v])
        setenv("CALI_USE_OMPT", V[v], 1);
    else
        unsetenv("CALI_USE_OMPT");
    if (channel)
        w.start_service();
    bool on = w.start_tool();
    if (v == 0)
        CHECK(on == channel, "the OpenMP tool is active if a channel uses it");
    else if (v <= 4)
        CHECK(on == (v <= 2), "CALI_USE_OMPT determines whether the OpenMP tool is active");
    if (!on)
        CHECK(!g_cb[ompt_callback_work], "an inactive tool has no callbacks");
    symx_reach("activation");
}

// two OpenMP threads
ENTRY(c33_threads)
{
    quiet();
    World w;
    w.start_service();
    w.start_tool();
    w.begin_thread(1);
    w.open(0, 2);
    bool wk[2] = { (bool) symx_choose(2, "loop 0"), (bool) symx_choose(2, "loop 1") };
    auto member = [&](int i) {
        Caliper   c;
        Attribute id = c.get_attribute("omp.thread.id"), wa = c.get_attribute("omp.work"), sy = c.get_attribute("omp.sync"), tt = c.get_attribute("omp.thread.type"), pa = c.get_attribute("omp.parallel");
        if (i)
            thread_begin(ompt_thread_worker);
        task(BEGIN, 2, i, ompt_task_implicit);
        if (wk[i])
            work(ompt_work_loop, BEGIN);
        CHECK(c.get(id).value().to_int() == i, "omp.thread.id is the thread's own number");
        CHECK(c.get(wa).empty() == !wk[i], "omp.work is the thread's own region");
        CHECK(c.get(pa).empty() == (i == 1), "omp.parallel is only set on the thread that created the region");
        CHECK(c.get(tt).value().to_string() == (i ? "worker" : "initial"), "omp.thread.type is the thread's own type");
        if (wk[i])
            work(ompt_work_loop, END);
        sync_region(ompt_sync_region_barrier_implicit, BEGIN);
        CHECK(c.get(wa).empty(), "omp.work ends with the region");
        CHECK(c.get(sy).value().to_string() == "barrier_implicit", "omp.sync is the thread's own region");
        sync_region(ompt_sync_region_barrier_implicit, END);
        task(END, 0, i, ompt_task_implicit);
        CHECK(c.get(id).empty() && c.get(sy).empty(), "the regions of a thread end with it");
        if (i)
            thread_end();
    };
    w.ch.events().pre_begin_evt.connect([](Caliper*, ChannelBody*, const Attribute&, const Variant&) {});
    w.c.deactivate_channel(w.ch); // its harness callbacks are not thread safe
    std::thread t(member, 1);
    member(0);
    t.join();
    w.c.activate_channel(w.ch);
    w.close();
    w.check();
    w.end_thread();
    symx_reach("threads");
}
