// C27: calls outside the life of the runtime, or with invalid objects, are harmless
#include "cal.h"
#include "caliper/Annotation.h"
#include "caliper/AnnotationBinding.h"
#include "caliper/AsyncEvent.h"
#include "caliper/ChannelController.h"
#include "caliper/RegionProfile.h"
#include "caliper/cali_datatracker.h"
#include "caliper/cali_macros.h"
#include "common/RuntimeConfig.h"

namespace cali
{
extern CaliperService trace_service, aggregate_service, event_service, timer_service;
extern Attribute      region_attr, phase_attr, loop_attr;
} // namespace cali
SERVICES(event_service, timer_service, trace_service, aggregate_service)

namespace
{

int s_calls = 0;

int proc(void*, cali_id_t, cali_variant_t)
{
    ++s_calls;
    return 1;
}

bool empty(const cali_variant_t& v)
{
    return cali_variant_is_empty(v);
}

// an object of each kind that may outlive the runtime
struct Things {
    Attribute        attr[3];
    cali_id_t        attr_id[3];
    Channel          ch;
    cali_id_t        chn = CALI_INV_ID;
    Node*            node = nullptr;
    unsigned char    snap[4] = { 0, 0, 0, 0 };
};

const int N_C = 63;

// calls of the C interface; results without a runtime or with invalid ids are empty
void c_call(int op, cali_id_t id, cali_id_t chn, uint64_t u, bool dead)
{
    cali_variant_t v = cali_make_variant_from_uint(u);
    switch (op) {
    case 0: cali_begin(id); break;
    case 1: cali_begin_double(id, 1.5); break;
    case 2: cali_begin_int(id, (int) u); break;
    case 3: cali_begin_string(id, "s"); break;
    case 4: cali_end(id); break;
    case 5: cali_set(id, &u, sizeof(u)); break;
    case 6: cali_set_double(id, 1.5); break;
    case 7: cali_set_int(id, (int) u); break;
    case 8: cali_set_string(id, "s"); break;
    case 9: CHECK(empty(cali_get(id)), "calls: cali_get() returns nothing"); break;
    case 10: CHECK(empty(cali_channel_get(chn, id)), "calls: cali_channel_get() returns nothing"); break;
    case 11: CHECK(cali_attribute_type(id) == CALI_TYPE_INV, "calls: an invalid attribute has no type"); break;
    case 12: { const char* n = cali_attribute_name(id); CHECK(!n || !*n, "calls: an invalid attribute has no name"); break; }
    case 13: cali_attribute_properties(id); break;
    case 14: cali_push_snapshot(CALI_SCOPE_THREAD, 1, &id, &v); break;
    case 15: cali_push_snapshot(CALI_SCOPE_THREAD, 0, nullptr, nullptr); break;
    case 16: cali_channel_push_snapshot(chn, CALI_SCOPE_THREAD, 1, &id, &v); break;
    case 17: {
        unsigned char buf[64];
        size_t        n = cali_channel_pull_snapshot(chn, CALI_SCOPE_THREAD, sizeof(buf), buf);
        if (n) {
            size_t r = 0;
            cali_unpack_snapshot(buf, &r, proc, nullptr);
        }
        CHECK(s_calls == 0, "calls: a snapshot of an invalid channel is empty");
        break;
    }
    case 18: {
        unsigned char buf[4] = { 0, 0, 0, 0 };
        size_t        n = 0;
        cali_unpack_snapshot(buf, &n, proc, nullptr);
        CHECK(s_calls == 0, "calls: an empty snapshot has no entries");
        break;
    }
    case 19: {
        unsigned char buf[4] = { 0, 0, 0, 0 };
        size_t        n = 0;
        CHECK(empty(cali_find_first_in_snapshot(buf, id, &n)), "calls: an empty snapshot has no entries");
        break;
    }
    case 20: {
        unsigned char buf[4] = { 0, 0, 0, 0 };
        cali_find_all_in_snapshot(buf, id, nullptr, proc, nullptr);
        CHECK(s_calls == 0, "calls: an empty snapshot has no entries");
        break;
    }
    case 21: cali_delete_channel(chn); break;
    case 22: cali_activate_channel(chn); break;
    case 23: cali_deactivate_channel(chn); break;
    case 24: CHECK(cali_channel_is_active(chn) == 0, "calls: an invalid channel is not active"); break;
    case 25: cali_channel_flush(chn, (int) symx_choose(2, "flags")); break;
    case 26: cali_end_byname("no such attribute"); break;
    case 27: CHECK(cali_find_attribute("no such attribute") == CALI_INV_ID, "calls: no attribute found"); break;
    case 28: {
        cali_id_t a = cali_create_attribute_with_metadata("meta", CALI_TYPE_INT, CALI_ATTR_ASVALUE, 1, &id, &v);
        CHECK((a == CALI_INV_ID) == dead, "calls: invalid metadata is skipped");
        break;
    }
    case 29: cali_is_initialized(); break;
    default:
        break;
    }
    if (op < 30 || !dead)
        return;
    switch (op) {
    case 30: cali_begin_region("r"); break;
    case 31: cali_end_region("r"); break;
    case 32: cali_begin_phase("r"); break;
    case 33: cali_end_phase("r"); break;
    case 34: cali_begin_comm_region("r"); break;
    case 35: cali_end_comm_region("r"); break;
    case 36: cali_begin_byname("open"); break;
    case 37: cali_begin_double_byname("d", 1); break;
    case 38: cali_begin_int_byname("i", (int) u); break;
    case 39: cali_begin_string_byname("open", "s"); break;
    case 40: cali_set_double_byname("d", 1); break;
    case 41: cali_set_int_byname("i", (int) u); break;
    case 42: cali_set_string_byname("open", "s"); break;
    case 43: cali_end_byname("open"); break;
    case 44: cali_set_global_double_byname("g", 1); break;
    case 45: cali_set_global_int_byname("g", (int) u); break;
    case 46: cali_set_global_string_byname("g", "s"); break;
    case 47: cali_set_global_uint_byname("g", u); break;
    case 48: cali_flush((int) symx_choose(2, "flags")); break;
    case 49: cali_init(); break;
    case 50: CHECK(!cali_is_initialized(), "calls: the runtime is not initialized"); break;
    case 51: CHECK(cali_make_loop_iteration_attribute("l") == CALI_INV_ID, "calls: no attribute is created"); break;
    case 52: CHECK(cali_create_attribute("new", CALI_TYPE_INT, CALI_ATTR_DEFAULT) == CALI_INV_ID, "calls: no attribute is created"); break;
    case 53: CHECK(cali_find_attribute("open") == CALI_INV_ID, "calls: no attribute is found"); break;
    case 54: {
        const char* alt = "alt";
        CHECK(cali_get_current_region_or(alt) == alt, "calls: no current region");
        break;
    }
    case 55: CHECK(cali_create_channel("late", (int) symx_choose(8, "flags"), nullptr) == CALI_INV_ID, "calls: no channel is created"); break;
    case 56: {
        int x[4];
        cali_datatracker_track(x, "x", sizeof(x));
        break;
    }
    case 57: {
        int    x[4];
        size_t dims[2] = { 2, 2 };
        cali_datatracker_track_dimensional(x, "x", sizeof(int), dims, 2);
        break;
    }
    case 58: {
        int x;
        cali_datatracker_untrack(&x);
        break;
    }
    case 59: create_channel("late", (int) symx_choose(8, "flags"), {}); break;
    case 60: {
        std::ostringstream os;
        write_report_for_query(chn, "SELECT * FORMAT expand", 0, os);
        CHECK(os.str().empty(), "calls: no report");
        break;
    }
    case 61: cali_config_set("CALI_LOG_VERBOSITY", "0"); break;
    case 62: {
        const char*      kv[][2] = { { "CALI_SERVICES_ENABLE", "trace" }, { nullptr, nullptr } };
        cali_configset_t s = cali_create_configset(kv);
        cali_id_t        c = cali_create_channel("late", 0, s);
        cali_delete_configset(s);
        CHECK(c == CALI_INV_ID, "calls: no channel is created");
        break;
    }
    }
}

const int N_CPP = 36;

// calls of the C++ interface with the given objects after the end of the runtime
void cpp_call(int op, const Attribute& a, Channel& ch, uint64_t u)
{
    Caliper c;
    Variant v(cali_make_variant_from_uint(u));
    FixedSizeSnapshotRecord<20> rec;
    switch (op) {
    case 0: CHECK(!c, "calls: there is no runtime"); break;
    case 1: c.begin(a, v); break;
    case 2: c.end(a); break;
    case 3: c.set(a, v); break;
    case 4: c.end_with_value_check(a, v); break;
    case 5: CHECK(c.get(a).empty(), "calls: no value"); break;
    case 6: CHECK(c.get_blackboard_entry(a).empty(), "calls: no value"); break;
    case 7: CHECK(c.exchange(a, v).empty(), "calls: no value"); break;
    case 8: c.begin(ch.body(), a, v); break;
    case 9: c.end(ch.body(), a); break;
    case 10: c.set(ch.body(), a, v); break;
    case 11: CHECK(c.get(ch.body(), a).empty(), "calls: no value"); break;
    case 12:
        c.pull_snapshot(ch.body(), SnapshotView(), rec.builder());
        CHECK(rec.view().size() == 0, "calls: a snapshot is empty");
        break;
    case 13: c.push_snapshot(ch.body(), SnapshotView()); break;
    case 14:
        c.pull_context(rec.builder());
        CHECK(rec.view().size() == 0, "calls: a snapshot is empty");
        break;
    case 15: c.flush(ch.body(), SnapshotView(), [](CaliperMetadataAccessInterface&, const std::vector<Entry>&) { CHECK(false, "calls: no records"); }); break;
    case 16: c.flush_and_write(ch.body(), SnapshotView()); break;
    case 17: c.clear(&ch); break;
    case 18: CHECK(c.get_globals().empty(), "calls: no globals"); break;
    case 19: CHECK(c.get_globals(ch.body()).empty(), "calls: no globals"); break;
    case 20: CHECK(c.get_all_attributes().empty(), "calls: no attributes"); break;
    case 21: CHECK(!c.get_attribute("open") && !c.get_attribute((cali_id_t) 8), "calls: no attributes"); break;
    case 22: CHECK(c.get_path_node().empty(), "calls: no current region"); break;
    case 23:
        c.make_record(1, &a, &v, rec.builder());
        CHECK(rec.view().size() == 0, "calls: a record is empty");
        break;
    case 24: CHECK(c.make_tree_entry(a, v) == nullptr, "calls: no tree entry"); break;
    case 25: CHECK(c.make_tree_entry(a, 1, &v) == nullptr, "calls: no tree entry"); break;
    case 26: CHECK(c.node(u % 40) == nullptr, "calls: no node"); break;
    case 27: c.delete_channel(ch); break;
    case 28: c.activate_channel(ch); break;
    case 29: c.deactivate_channel(ch); break;
    case 30: CHECK(c.get_all_channels().empty(), "calls: no channels"); break;
    case 31: CHECK(!c.get_channel(u), "calls: no channels"); break;
    case 32: c.async_event(SnapshotView()); break;
    case 33: {
        int    x;
        size_t d = 1;
        c.memory_region_begin(&x, "x", 4, 1, &d);
        c.memory_region_end(&x);
        break;
    }
    case 34: c.release(); break;
    case 35: {
        int    x;
        size_t d = 1;
        c.memory_region_begin(ch.body(), &x, "x", 4, 1, &d);
        c.memory_region_end(ch.body(), &x);
        break;
    }
    }
}

// a runtime with regions and channels in some state
void life(Things& t)
{
    quiet();
    Caliper c;
    t.attr[0] = c.create_attribute("open", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    t.attr[1] = c.create_attribute("value", CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_PROCESS);
    t.attr[2] = c.create_attribute("global", CALI_TYPE_STRING, CALI_ATTR_GLOBAL);
    for (int i = 0; i < 3; ++i)
        t.attr_id[i] = t.attr[i].id();
    if (symx_choose(2, "channel")) {
        t.ch = make_channel(c, "ch", { { "CALI_SERVICES_ENABLE", symx_choose(2, "service") ? "event,timer,trace" : "event,timer,aggregate" }, { "CALI_TRACE_BUFFER_SIZE", "1" }, { "CALI_TIMER_OFFSET", "true" } });
        if (symx_choose(2, "active"))
            c.activate_channel(t.ch);
    } else
        t.ch = make_channel(c, "none");
    t.chn = t.ch.id();
    if (symx_choose(2, "open")) {
        c.begin(t.attr[0], Variant("o"));
        c.set(t.attr[1], Variant(cali_make_variant_from_uint(1)));
        cali_begin_region("r");
    }
    s_calls = 0;
}

} // namespace

cali_id_t other_channel(const Things& t)
{
    switch (symx_choose(3, "which channel")) {
    case 0:
        return t.chn;
    case 1:
        return symx_range(0, 9, "c");
    }
    return CALI_INV_ID;
}

ENTRY(c27_c_after)
{
    int    op = (int) symx_choose(N_C, "call");
    Things t;
    life(t);
    Caliper::release();
    uint64_t u = symx_u64("u");
    cali_id_t id = symx_choose(2, "id") ? symx_u64("x") : t.attr_id[0];
    c_call(op, id, other_channel(t), u, true);
    CHECK(!cali_is_initialized(), "calls: the runtime is not restarted");
    symx_reach("c");
}

ENTRY(c27_cpp_after)
{
    int    op = (int) symx_choose(N_CPP, "call");
    Things t;
    life(t);
    Caliper::release();
    CHECK(!t.ch || !t.ch.is_active(), "calls: a channel is not active after the runtime's end");
    Attribute none;
    cpp_call(op, symx_choose(2, "attribute") ? t.attr[symx_choose(2, "kind")] : none, t.ch, symx_u64("u"));
    CHECK(!cali_is_initialized(), "calls: the runtime is not restarted");
    symx_reach("cpp");
}

namespace
{

struct MyController : public ChannelController {
    MyController() : ChannelController("mine", 0, { { "CALI_SERVICES_ENABLE", "event,timer,aggregate" }, { "CALI_CHANNEL_CONFIG_CHECK", "false" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }) {}
};

// objects that are made, used and destroyed before or after the runtime's end
void object(int op, int when, bool twice)
{
    bool released = false;
    auto over     = [&](int at) {
        if (when <= at && !released) {
            released = true;
            Caliper::release();
            if (twice)
                Caliper::release();
        }
    };
    over(0);
    switch (op) {
    case 0: {
        Function f("f");
        over(1);
        break;
    }
    case 1: {
        ScopeAnnotation f("f");
        over(1);
        break;
    }
    case 2: {
        Loop l("loop");
        over(1);
        {
            Loop::Iteration i(l.iteration(1));
            over(2);
        }
        over(3);
        l.end();
        over(4);
        l.end();
        break;
    }
    case 3: {
        Loop l("loop");
        Loop k(l);
        over(1);
        break;
    }
    case 4: {
        Annotation a("ann");
        over(1);
        a.begin("x");
        over(2);
        a.end();
        over(3);
        a.set("y");
        over(4);
        a.end();
        a.end();
        break;
    }
    case 5: {
        Annotation a("num", CALI_ATTR_ASVALUE);
        over(1);
        a.begin(1.5);
        over(2);
        a.begin(1);
        a.set(2);
        over(3);
        a.begin();
        a.end();
        break;
    }
    case 6: {
        Annotation a("ann");
        over(1);
        Annotation::Guard g(a.begin(1));
        over(2);
        break;
    }
    case 7: {
        Annotation a("with metadata", Annotation::MetadataListType { { "m", Variant(true) } });
        over(1);
        a.begin(1);
        over(2);
        Annotation b("with metadata", Annotation::MetadataListType { { "m", Variant(true) } });
        b.end();
        Annotation d(a);
        d = b;
        over(3);
        d.begin(7);
        break;
    }
    case 8: {
        over(1);
        TimedAsyncEvent e = TimedAsyncEvent::begin("msg");
        over(2);
        e.end();
        over(3);
        TimedAsyncEvent::begin("msg").end();
        break;
    }
    case 9: {
        TimedAsyncEvent e;
        over(1);
        e.end();
        break;
    }
    case 10: {
        MyController p;
        over(1);
        p.start();
        CHECK(p.is_active() == (when > 1), "calls: a controller is active if there is a runtime");
        over(2);
        p.flush();
        over(3);
        p.stop();
        CHECK(!p.is_active(), "calls: a stopped controller is not active");
        over(4);
        p.start();
        CHECK(p.is_active() == (when > 4), "calls: a controller is active if there is a runtime");
        p.channel();
        p.is_instantiated();
        break;
    }
    case 11: {
        RegionProfile p;
        over(1);
        p.start();
        cali_begin_region("r");
        over(2);
        cali_end_region("r");
        auto t = p.inclusive_region_times();
        CHECK(when > 2 || std::get<0>(t).empty(), "calls: no times without a runtime");
        over(3);
        auto e = p.exclusive_region_times();
        CHECK(when > 3 || std::get<0>(e).empty(), "calls: no times without a runtime");
        p.clear();
        p.stop();
        over(4);
        break;
    }
    case 12: {
        ConfigManager m;
        over(1);
        m.add("no-such-config");
        CHECK(m.error(), "calls: an unknown config is an error");
        over(2);
        m.start();
        over(3);
        m.flush();
        m.stop();
        break;
    }
    case 13: {
        Caliper c; // handle kept over the end
        Channel ch = make_channel(c, "x", { { "CALI_SERVICES_ENABLE", "event,trace" }, { "CALI_TRACE_BUFFER_SIZE", "1" } });
        over(1);
        CHECK((bool) ch == (when > 0), "calls: a channel is created if there is a runtime");
        Caliper d;
        if (ch)
            d.activate_channel(ch);
        over(2);
        Channel ch2 = ch;
        Caliper().delete_channel(ch2);
        CHECK(!ch.is_active(), "calls: a deleted channel is not active");
        Caliper().activate_channel(ch);
        over(3);
        cali_begin_region("a");
        cali_end_region("a");
        break;
    }
    case 14: { // thread and process scope attributes kept over the end
        Caliper   c;
        Attribute a = c.create_attribute("proc", CALI_TYPE_INT, CALI_ATTR_SCOPE_PROCESS);
        over(1);
        Caliper().begin(a, Variant(1));
        over(2);
        Caliper().end(a);
        over(3);
        CHECK(Caliper().get(a).empty(), "calls: nothing is open");
        break;
    }
    }
    over(5);
    CHECK(!released || !cali_is_initialized(), "calls: the runtime is not restarted");
    cali_begin_region("last");
    cali_end_region("last");
}

} // namespace

ENTRY(c27_objects)
{
    int op = (int) symx_choose(15, "object");
    quiet();
    if (symx_choose(2, "other channel")) {
        Caliper c;
        Channel ch = make_channel(c, "other", { { "CALI_SERVICES_ENABLE", "event,timer,aggregate" } });
        c.activate_channel(ch);
    } else
        cali_init();
    object(op, (int) symx_range(0, 6, "end"), symx_choose(2, "twice"));
    symx_reach("object");
}

// calls before the runtime is initialized
ENTRY(c27_before)
{
    quiet();
    cali_id_t id = symx_u64("x"), chn = symx_u64("c");
    switch (symx_choose(8, "call")) {
    case 0: CHECK(empty(cali_get(id)), "calls: nothing before initialization"); break;
    case 1: CHECK(empty(cali_channel_get(chn, id)), "calls: nothing before initialization"); break;
    case 2: {
        unsigned char buf[64];
        CHECK(cali_channel_pull_snapshot(chn, CALI_SCOPE_THREAD, sizeof(buf), buf) == 0, "calls: nothing before initialization");
        break;
    }
    case 3: {
        const char* alt = "alt";
        CHECK(cali_get_current_region_or(alt) == alt, "calls: nothing before initialization");
        break;
    }
    case 4: CHECK(!Caliper::sigsafe_instance(), "calls: no runtime before initialization"); break;
    case 5: CHECK(!cali_is_initialized(), "calls: not initialized"); break;
    case 6: {
        Caliper c = Caliper::sigsafe_instance();
        CHECK(c.get_all_channels().empty() && !c.get_channel(chn) && c.get_globals().empty() && c.get_path_node().empty() && !c.get_attribute(id), "calls: nothing before initialization");
        break;
    }
    case 7: {
        Channel none;
        CHECK(!none, "calls: an empty handle is no channel");
        break;
    }
    }
    CHECK(!cali_is_initialized(), "calls: reading does not initialize");
    cali_begin_region("r");
    CHECK(cali_is_initialized(), "calls: the first annotation initializes");
    CHECK(std::string(cali_get_current_region_or("alt")) == "r", "calls: the first annotation is kept");
    cali_end_region("r");
    symx_reach("before");
}

// invalid ids while the runtime is alive
ENTRY(c27_ids)
{
    int    op = (int) symx_choose(30, "call");
    Things t;
    life(t);
    Caliper   c;
    cali_id_t id = symx_choose(2, "big") ? symx_u64("x") : symx_range(0, symx_param("ids", 60), "i"), chn = other_channel(t);
    for (const Attribute& a : c.get_all_attributes())
        symx_assume(id != a.id());
    symx_assume(chn != t.chn);
    std::vector<std::vector<Entry>> before, after;
    auto look = [&](std::vector<std::vector<Entry>>& o) {
        FixedSizeSnapshotRecord<60> rec, ctx;
        c.pull_snapshot(t.ch.body(), SnapshotView(), rec.builder());
        c.pull_context(ctx.builder());
        o.push_back(std::vector<Entry>(ctx.view().begin(), ctx.view().end()));
        o.push_back({ c.get_path_node(), c.get(t.attr[0]), c.get(t.attr[1]) });
        o.push_back(c.get_globals(t.ch.body()));
        c.flush(t.ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) { o.push_back(r); });
    };
    look(before);
    c_call(op, id, chn, symx_u64("u"), false);
    look(after);
    bool snap = op == 14 || op == 15;
    CHECK(after.size() == before.size() || (snap && after.size() >= before.size()), "calls: an invalid id has no effect");
    // time values of the flush may differ; contexts and globals may not
    for (size_t i = 0; i < 3; ++i) {
        CHECK(after[i].size() == before[i].size(), "calls: an invalid id has no effect");
        for (size_t k = 0; k < before[i].size() && k < after[i].size(); ++k)
            CHECK(before[i][k].node() == after[i][k].node() && before[i][k].attribute() == after[i][k].attribute() && same_bits(before[i][k].value(), after[i][k].value()), "calls: an invalid id has no effect");
    }
    CHECK(std::string(cali_get_current_region_or("none")) == (before[1][0].empty() ? "none" : "r"), "calls: an invalid id has no effect");
    symx_reach("ids");
}

// any type and property bits of a new attribute
ENTRY(c27_new_attribute)
{
    quiet();
    Caliper c;
    int     type = (int) symx_u32("type"), prop = (int) symx_u32("prop");
    cali_id_t id = cali_create_attribute("new", (cali_attr_type) type, prop);
    Attribute a  = c.get_attribute(id);
    if (a) {
        CHECK(type >= 0 && type <= CALI_MAXTYPE, "calls: no attribute of an invalid type");
        CHECK(a.type() == (cali_attr_type) type && a.name() == "new", "calls: an attribute has its type");
        symx_reach("valid");
    } else {
        CHECK(type < 0 || type > CALI_MAXTYPE || type == CALI_TYPE_INV, "calls: an attribute of a valid type is created");
        symx_reach("invalid");
    }
    uint64_t u = symx_u64("u");
    if (symx_choose(2, "begin"))
        cali_begin(id);
    cali_set(id, &u, symx_choose(9, "size"));
    cali_end(id);
    cali_end(id);
}

// the signal-safe calls do nothing inside of the runtime
ENTRY(c27_callback)
{
    quiet();
    Caliper c;
    Channel ch = make_channel(c, "ch", { { "CALI_SERVICES_ENABLE", "event,trace" }, { "CALI_TRACE_BUFFER_SIZE", "1" } });
    Attribute A = c.create_attribute("A", CALI_TYPE_INT, CALI_ATTR_NESTED);
    int calls = 0;
    auto f = [&]() {
        ++calls;
        unsigned char buf[64];
        const char*   alt = "alt";
        CHECK(!Caliper::sigsafe_instance(), "calls: no access from inside of the runtime");
        CHECK(empty(cali_get(A.id())) && empty(cali_channel_get(ch.id(), A.id())) && cali_channel_pull_snapshot(ch.id(), CALI_SCOPE_THREAD, sizeof(buf), buf) == 0 && cali_get_current_region_or(alt) == alt,
              "calls: no access from inside of the runtime");
    };
    auto& e = ch.events();
    e.pre_begin_evt.connect([&](Caliper*, ChannelBody*, const Attribute&, const Variant&) { f(); });
    e.post_begin_evt.connect([&](Caliper*, ChannelBody*, const Attribute&, const Variant&) { f(); });
    e.pre_end_evt.connect([&](Caliper*, ChannelBody*, const Attribute&, const Variant&) { f(); });
    e.pre_set_evt.connect([&](Caliper*, ChannelBody*, const Attribute&, const Variant&) { f(); });
    e.snapshot.connect([&](Caliper*, SnapshotView, SnapshotBuilder&) { f(); });
    e.process_snapshot.connect([&](Caliper*, SnapshotView, SnapshotView) { f(); });
    e.write_output_evt.connect([&](Caliper*, ChannelBody*, SnapshotView) { f(); });
    e.create_attr_evt.connect([&](Caliper*, const Attribute&) { f(); });
    e.clear_evt.connect([&](Caliper*, Channel*) { f(); });
    e.finish_evt.connect([&](Caliper*, Channel*) { f(); });
    c.activate_channel(ch);
    FixedSizeSnapshotRecord<60> rec;
    for (int i = 0; i < (int) symx_param("ops", 2); ++i) {
        int n = calls;
        switch (symx_choose(9, "op")) {
        case 0: cali_begin_int(A.id(), 1); break;
        case 1: cali_begin_int(A.id(), 1); cali_end(A.id()); break;
        case 2: cali_set_int(A.id(), 1); break;
        case 3: cali_push_snapshot(CALI_SCOPE_THREAD, 0, nullptr, nullptr); break;
        case 4: c.pull_snapshot(ch.body(), SnapshotView(), rec.builder()); break;
        case 5: cali_channel_flush(ch.id(), 0); break;
        case 6: cali_create_attribute(i ? "new" : "old", CALI_TYPE_INT, 0); break;
        case 7: c.clear(&ch); break;
        case 8: c.begin(ch.body(), A, Variant(2)); break;
        }
        CHECK(calls > n, "calls: the callback was called");
    }
    CHECK((bool) Caliper::sigsafe_instance(), "calls: access outside of the runtime");
    cali_begin_int(A.id(), 5);
    CHECK(cali_variant_to_int(cali_get(A.id()), nullptr) == 5, "calls: access outside of the runtime");
    int n = calls;
    c.delete_channel(ch);
    CHECK(calls > n, "calls: the callback was called");
    symx_reach("callback");
}

// empty handles
ENTRY(c27_null)
{
    Things t;
    life(t);
    Caliper  c;
    Channel  none;
    Attribute a;
    bool     has = symx_choose(2, "has channel"), hasa = symx_choose(2, "has attribute");
    if (has && hasa)
        return;
    uint64_t u = symx_u64("u");
    Variant  v(cali_make_variant_from_uint(u));
    Channel&  ch = has ? t.ch : none;
    Attribute at = hasa ? t.attr[symx_choose(3, "kind")] : a;
    FixedSizeSnapshotRecord<60> rec, rec2;
    int n = 0;
    c.pull_snapshot(t.ch.body(), SnapshotView(), rec.builder());
    switch (symx_choose(20, "call")) {
    case 0: c.begin(ch.body(), at, v); break;
    case 1: c.end(ch.body(), at); break;
    case 2: c.set(ch.body(), at, v); break;
    case 3: CHECK(c.get(ch.body(), at).empty(), "calls: no value"); break;
    case 4: if (!has) c.clear(&ch); break;
    case 5: if (!has) c.flush_and_write(ch.body(), SnapshotView()); break;
    case 6: if (!has) c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>&) { ++n; }); break;
    case 7: if (!has) c.delete_channel(ch); break;
    case 8: if (!has) c.activate_channel(ch); break;
    case 9: if (!has) c.deactivate_channel(ch); break;
    case 10: if (!has) c.push_snapshot(ch.body(), SnapshotView()); break;
    case 11: if (!has) c.pull_snapshot(ch.body(), SnapshotView(), rec2.builder()); break;
    case 12: CHECK(has || c.get_globals(ch.body()).empty(), "calls: no channel"); break;
    case 13: if (!hasa) c.begin(at, v); break;
    case 14: if (!hasa) c.end(at); break;
    case 15: if (!hasa) c.set(at, v); break;
    case 16: if (!hasa) c.end_with_value_check(at, v); break;
    case 17: if (!hasa) CHECK(c.get(at).empty() && c.get_blackboard_entry(at).empty() && c.exchange(at, v).empty(), "calls: no value"); break;
    case 18: if (!hasa) c.make_record(1, &at, &v, rec2.builder()); break;
    case 19: {
        int    x;
        size_t d = 1;
        if (!has) {
            c.memory_region_begin(ch.body(), &x, "x", 4, 1, &d);
            c.memory_region_end(ch.body(), &x);
        }
        break;
    }
    }
    CHECK(n == 0 && rec2.view().size() == 0, "calls: an empty handle has no data");
    FixedSizeSnapshotRecord<60> rec3;
    c.pull_snapshot(t.ch.body(), SnapshotView(), rec3.builder());
    CHECK(rec3.view().size() == rec.view().size(), "calls: an empty handle has no effect");
    CHECK(c.get_all_channels().size() == 1, "calls: an empty handle has no effect");
    symx_reach("null");
}
