// C23: time and event data belong to the right region
#include "cal.h"
#include <chrono>
#include <thread>

namespace cali
{
extern CaliperService event_service;
extern CaliperService timer_service;
}
SERVICES(event_service, timer_service)

// the clock only advances when the harness says so
static uint64_t g_now = 0;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((long) g_now)); }
} } }

namespace
{

void tick(int i) { g_now += symx_range(0, 1ull << 40, nm("dt", i)); }

typedef std::pair<cali_id_t, Variant> KV;

struct Snap {
    std::vector<KV> path; // reference entries, from the root
    std::vector<KV> imm;

    bool has(const Attribute& a) const
    {
        for (const KV& p : imm)
            if (p.first == a.id())
                return true;
        for (const KV& p : path)
            if (p.first == a.id())
                return true;
        return false;
    }
    Variant get(const Attribute& a) const
    {
        Variant r;
        int     n = 0;
        for (const KV& p : imm)
            if (p.first == a.id()) {
                r = p.second;
                ++n;
            }
        for (const KV& p : path)
            if (p.first == a.id()) {
                r = p.second;
                ++n;
            }
        CHECK(n == 1, "events: an event attribute appears once");
        return r;
    }
};

Snap read(SnapshotView rec)
{
    Snap s;
    for (const Entry& e : rec) {
        if (e.is_immediate())
            s.imm.push_back(KV(e.attribute(), e.value()));
        else {
            std::vector<KV> path;
            for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent())
                path.insert(path.begin(), KV(n->attribute(), n->data()));
            s.path.insert(s.path.end(), path.begin(), path.end());
        }
    }
    return s;
}

struct World {
    Caliper   c;
    Channel   ch;
    Attribute A[4]; // nested int, value, process scope int, not aligned int
    std::vector<Snap>     snaps;
    std::vector<uint64_t> times;
    uint64_t              start;

    World(std::map<std::string, std::string> cfg, const char* name = "evt", bool late = false)
    {
        if (!late)
            attrs();
        cfg["CALI_SERVICES_ENABLE"] = "event,timer";
        cfg.insert({ "CALI_TIMER_INCLUSIVE_DURATION", "true" });
        start = g_now;
        ch    = make_channel(c, name, cfg);
        if (late)
            attrs();
        c.activate_channel(ch);
        ch.events().process_snapshot.connect([this](Caliper*, SnapshotView, SnapshotView rec) {
            snaps.push_back(read(rec));
            times.push_back(g_now);
        });
    }
    void attrs()
    {
        A[0] = c.create_attribute("A", CALI_TYPE_INT, CALI_ATTR_NESTED);
        A[1] = c.create_attribute("V", CALI_TYPE_UINT, CALI_ATTR_ASVALUE);
        A[2] = c.create_attribute("P", CALI_TYPE_INT, CALI_ATTR_SCOPE_PROCESS);
        A[3] = c.create_attribute("U", CALI_TYPE_INT, CALI_ATTR_UNALIGNED);
    }
    Attribute ev(const char* what, const Attribute& a) { return c.get_attribute(std::string("event.") + what + "#" + a.name()); }
};

struct Open {
    int      a;
    Variant  v;
    uint64_t t;
};

Variant val(int a, int i)
{
    uint32_t u = symx_u32(nm("v", i));
    return a == 1 ? Variant(cali_make_variant_from_uint(u)) : Variant(cali_make_variant_from_int((int) u));
}

void check_path(World& w, const Snap& s, const std::vector<Open>& open)
{
    for (int a = 0; a < 4; ++a) {
        std::vector<Variant> got, want;
        for (const KV& p : (a == 1 ? s.imm : s.path))
            if (p.first == w.A[a].id())
                got.push_back(p.second);
        for (const Open& o : open)
            if (o.a == a)
                want.push_back(o.v);
        CHECK(got.size() == want.size(), "events: an event record has the open regions");
        for (size_t i = 0; i < got.size() && i < want.size(); ++i)
            CHECK(got[i] == want[i], "events: an event record has the open regions");
    }
}

void check_time(World& w, const Snap& s, uint64_t prev)
{
    CHECK(s.get(w.c.get_attribute("time.duration.ns")).to_uint() == g_now - prev, "timer: the duration is the time since the previous snapshot");
    CHECK(s.get(w.c.get_attribute("time.offset.ns")).to_uint() == g_now - w.start, "timer: the offset is the time since the start");
}

} // namespace

// any well-nested sequence of region events and snapshots
ENTRY(c23_ops)
{
    quiet();
    g_now = symx_range(0, 1ull << 50, "t0");
    int   how  = (int) symx_choose(3, "how");
    bool  incd = how < 2;
    World w({ { "CALI_TIMER_INCLUSIVE_DURATION", incd ? "true" : "false" } }, "evt", how == 1);
    int   ops = (int) symx_param("ops", 4) - !incd;
    std::vector<Open> open;
    uint64_t prev = w.start, total = 0;
    Attribute inc = w.c.get_attribute("time.inclusive.duration.ns"), dur = w.c.get_attribute("time.duration.ns"), cnt = w.c.get_attribute("region.count");
    for (int i = 0; i < ops; ++i) {
        tick(i);
        size_t before = w.snaps.size();
        int    op = (int) symx_choose(open.empty() ? 3 : 4, "op");
        int    a  = -1;
        const char* what = nullptr;
        Variant v;
        std::vector<Open> at(open);
        uint64_t incl = 0;
        bool     setv = false;
        if (op == 0) {
            w.c.push_snapshot(w.ch.body(), SnapshotView());
        } else if (op == 1) {
            a = (int) symx_choose(4, "attr");
            bool dup = false;
            for (const Open& o : open)
                dup = dup || (o.a == a && a == 1);
            if (dup)
                return;
            v    = val(a, i);
            what = "begin";
            w.c.begin(w.A[a], v);
            open.push_back(Open { a, v, g_now });
        } else if (op == 2) {
            // set changes the innermost value or adds one; it has no matching end, so it comes last for its attribute
            a    = (int) symx_choose(2, "setattr") * 2;
            v    = val(a, i);
            what = "set";
            w.c.set(w.A[a], v);
            int found = -1;
            for (size_t k = 0; k < open.size(); ++k)
                if (open[k].a == a)
                    found = (int) k;
            if (found < 0) {
                setv = true;
            } else
                open[found].v = v;
        } else {
            Open o = open.back();
            a    = o.a;
            v    = o.v;
            what = "end";
            w.c.end(w.A[a]);
            incl = g_now - o.t;
            open.pop_back();
        }
        CHECK(w.snaps.size() == before + 1, "events: every region event triggers one snapshot");
        if (w.snaps.size() != before + 1)
            return;
        const Snap& s = w.snaps.back();
        check_path(w, s, at);
        check_time(w, s, prev);
        prev = g_now;
        total += s.get(dur).to_uint();
        for (int k = 0; k < 4; ++k)
            for (const char* e : { "begin", "set", "end" }) {
                Attribute ea = w.ev(e, w.A[k]);
                if (k == a && what == std::string(e))
                    CHECK(s.has(ea) && s.get(ea) == v, "events: an event record has the region of the event");
                else
                    CHECK(!s.has(ea), "events: an event record has no other event");
            }
        CHECK(s.has(inc) == (op == 3 && incd), "timer: end events have an inclusive duration");
        if (op == 3) {
            if (incd)
                CHECK(s.get(inc).to_uint() == incl, "timer: the inclusive duration is the time since the matching begin");
            CHECK(s.get(cnt).to_uint() == 1, "events: end events count one region");
        } else
            CHECK(!s.has(cnt), "events: end events count one region");
        if (setv) {
            symx_reach("set");
            break;
        }
    }
    CHECK(total == prev - w.start, "timer: the durations add up to the elapsed time");
    symx_reach("ops");
}

// region filters, attribute lists and levels select the events
ENTRY(c23_select)
{
    quiet();
    const std::map<std::string, std::string> cfgs[] = {
        { { "CALI_EVENT_INCLUDE_REGIONS", "ab,startswith(c)" } },
        { { "CALI_EVENT_EXCLUDE_REGIONS", "ab,startswith(c)" } },
        { { "CALI_EVENT_TRIGGER", "S" } },
        { { "CALI_EVENT_REGION_LEVEL", "4" } },
        { { "CALI_EVENT_INCLUDE_BRANCHES", "ab" } },
        { { "CALI_EVENT_ENABLE_SNAPSHOT_INFO", "false" } },
    };
    int   what = (int) symx_choose(6, "config");
    World w(cfgs[what]);
    Attribute s[3] = { w.c.create_attribute("S", CALI_TYPE_STRING, CALI_ATTR_NESTED), w.c.create_attribute("T", CALI_TYPE_STRING, CALI_ATTR_NESTED | (CALI_ATTR_LEVEL_4 & ~0)), w.c.create_attribute("N", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS) };
    struct R {
        int         a;
        std::string v;
        uint64_t    t;
    };
    std::vector<R> open;
    uint64_t       prev = w.start;
    int            ops  = (int) symx_param("ops", 4);
    int            inbranch = 0;
    for (int i = 0; i < ops; ++i) {
        tick(i);
        size_t before = w.snaps.size();
        R      r;
        bool   end = !open.empty() && symx_choose(2, "end");
        if (end) {
            r = open.back();
            open.pop_back();
            w.c.end(s[r.a]);
        } else {
            r.a = (int) symx_choose(3, "attr");
            if (r.a < 2) {
                SymStr t(1, 2, "name");
                r.v = t.str();
                w.c.begin(s[r.a], Variant(CALI_TYPE_STRING, r.v.data(), r.v.size()));
            } else {
                r.v = "";
                w.c.begin(s[r.a], Variant(7));
            }
            r.t = g_now;
            open.push_back(r);
        }
        bool listed = r.v == "ab" || (r.v.size() > 0 && r.v[0] == 'c');
        bool pass   = false;
        switch (what) {
        case 0:
            pass = listed;
            break;
        case 1:
            pass = !listed;
            break;
        case 2:
            pass = r.a == 0;
            break;
        case 3:
            pass = r.a == 1;
            break;
        case 4:
            if (r.a < 2 && r.v == "ab")
                inbranch += end ? -1 : 1;
            pass = inbranch > 0 || (end && r.v == "ab");
            break;
        case 5:
            pass = true;
        }
        if (r.a == 2)
            pass = false;
        CHECK(w.snaps.size() == before + pass, "events: exactly the selected regions trigger snapshots");
        if (w.snaps.size() != before + pass)
            return;
        if (!pass)
            continue;
        const Snap& sn = w.snaps.back();
        check_time(w, sn, prev);
        prev = g_now;
        bool has = sn.has(w.ev(end ? "end" : "begin", s[r.a]));
        CHECK(has == (what != 5), "events: an event record has the region of the event");
        Attribute inc = w.c.get_attribute("time.inclusive.duration.ns");
        CHECK(sn.has(inc) == (end && what != 5), "timer: end events have an inclusive duration");
        if (end && what != 5)
            CHECK(sn.get(inc).to_uint() == g_now - r.t, "timer: the inclusive duration is the time since the matching begin");
    }
    symx_reach("select");
}

// events on two threads are timed separately
ENTRY(c23_threads)
{
    quiet();
    World w({});
    Attribute dur = w.c.get_attribute("time.duration.ns"), inc = w.c.get_attribute("time.inclusive.duration.ns");
    int where = (int) symx_choose(3, "where");
    tick(0);
    uint64_t t0 = g_now;
    w.c.begin(w.A[0], Variant(1));
    auto body = [&]() {
        Caliper c;
        tick(1);
        uint64_t t1 = g_now;
        c.begin(w.A[0], Variant(2));
        tick(2);
        c.end(w.A[0]);
        const Snap& s = w.snaps.back();
        CHECK(s.get(inc).to_uint() == g_now - t1, "timer: the inclusive duration is the time since the matching begin");
        CHECK(s.get(dur).to_uint() == g_now - t1, "timer: durations are measured per thread");
        for (const KV& p : s.path)
            CHECK(p.first != w.A[0].id() || p.second == Variant(2), "events: an event record has the regions of its own thread");
    };
    if (where == 0) {
        std::thread t(body);
        t.join();
    }
    tick(3);
    w.c.end(w.A[0]);
    const Snap& s = w.snaps.back();
    CHECK(s.get(inc).to_uint() == g_now - t0, "timer: the inclusive duration is the time since the matching begin");
    CHECK(s.get(dur).to_uint() == g_now - t0, "timer: durations are measured per thread");
    if (where == 1) {
        std::thread t(body);
        t.join();
    }
    symx_reach("threads");
}

// a channel that is not active sees no events; two channels measure independently
ENTRY(c23_channels)
{
    quiet();
    World w1({}, "one");
    World w2({}, "two", false);
    World w3({}, "three", false);
    Attribute dur = w1.c.get_attribute("time.duration.ns");
    uint64_t prev[3] = { w1.start, w2.start, w3.start };
    bool     act[3]  = { true, true, true };
    World*   w[3]    = { &w1, &w2, &w3 };
    int      ops = (int) symx_param("ops", 4), depth = 0;
    for (int i = 0; i < ops; ++i) {
        tick(i);
        size_t n[3] = { w1.snaps.size(), w2.snaps.size(), w3.snaps.size() };
        bool   want[3] = { act[0], act[1], act[2] };
        switch (symx_choose(depth ? 5 : 4, "op")) {
        case 0:
            w1.c.begin(w1.A[0], Variant(3));
            ++depth;
            break;
        case 1:
            act[1] ? w2.c.deactivate_channel(w2.ch) : w2.c.activate_channel(w2.ch);
            act[1] = !act[1];
            continue;
        case 2:
            w1.c.push_snapshot(w1.ch.body(), SnapshotView());
            want[0] = true;
            want[1] = want[2] = false;
            break;
        case 3:
            act[0] ? w1.c.deactivate_channel(w1.ch) : w1.c.activate_channel(w1.ch);
            act[0] = !act[0];
            continue;
        default:
            w1.c.end(w1.A[0]);
            --depth;
        }
        for (int k = 0; k < 3; ++k) {
            CHECK(w[k]->snaps.size() == n[k] + want[k], "events: exactly the active channels see an event");
            if (w[k]->snaps.size() != n[k] + 1)
                continue;
            CHECK(w[k]->snaps.back().get(dur).to_uint() == g_now - prev[k], "timer: durations are measured per channel");
            prev[k] = g_now;
        }
    }
    symx_reach("channels");
}

// regions of different attributes may overlap; each has its own begin
ENTRY(c23_overlap)
{
    quiet();
    World w({});
    Attribute inc = w.c.get_attribute("time.inclusive.duration.ns"), a[3];
    int       n = (int) symx_param("attrs", 20), j = 1 + (int) symx_choose(n, "j");
    a[0] = w.c.create_attribute("o", CALI_TYPE_INT, CALI_ATTR_UNALIGNED);
    for (int i = 1; i <= j; ++i)
        a[1] = w.c.create_attribute("o" + std::to_string(i), CALI_TYPE_INT, CALI_ATTR_UNALIGNED);
    uint64_t t[2];
    for (int i = 0; i < 2; ++i) {
        tick(i);
        t[i] = g_now;
        w.c.begin(a[i], Variant(i));
    }
    for (int i = 0; i < 2; ++i) {
        tick(i + 2);
        w.c.end(a[i]);
        CHECK(w.snaps.back().get(inc).to_uint() == g_now - t[i], "timer: the inclusive duration is the time since the matching begin");
    }
    symx_reach("overlap");
}
