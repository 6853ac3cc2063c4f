// C29: loop and region monitors measure what they select
#include "cal.h"
#include <chrono>

namespace cali
{
extern CaliperService loop_monitor_service;
extern CaliperService loop_statistics_service;
extern CaliperService region_monitor_service;
extern CaliperService timer_service;
extern CaliperService timeseries_service;
extern CaliperService aggregate_service;
extern CaliperService event_service;
extern Attribute      loop_attr;
}
SERVICES(loop_monitor_service, loop_statistics_service, region_monitor_service, timer_service, timeseries_service, aggregate_service, event_service)

// the clocks only advance when the harness says so
static uint64_t g_now = 1000000;
static uint64_t g_wall = 0;
static bool     g_split = false; // the wall clock is g_wall only
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((long) g_now)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((long) (g_split ? g_wall : g_now))); }
} } }

namespace
{

struct Snap {
    std::vector<std::pair<cali_id_t, Variant>> v;
    std::vector<Variant> path; // values of the open regions, from the root
    uint64_t time;

    int count(const Attribute& a) const
    {
        int n = 0;
        for (auto& p : v)
            n += (p.first == a.id());
        return n;
    }
    Variant get(const Attribute& a, const char* msg) const
    {
        Variant r;
        int     n = 0;
        for (auto& p : v)
            if (p.first == a.id()) {
                r = p.second;
                ++n;
            }
        CHECK(n == 1, msg);
        return r;
    }
};

struct World {
    Caliper           c;
    Channel           ch;
    Attribute         region, iter[2];
    std::vector<Snap> snaps;

    World(std::map<std::string, std::string> cfg, bool start = true)
    {
        region  = c.create_attribute("reg", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        iter[0] = c.get_attribute(cali_make_loop_iteration_attribute("A"));
        iter[1] = c.get_attribute(cali_make_loop_iteration_attribute("B"));
        ch = make_channel(c, "mon", cfg);
        ch.events().process_snapshot.connect([this](Caliper*, SnapshotView, SnapshotView rec) {
            Snap s;
            s.time = g_now;
            for (const Entry& e : rec) {
                if (e.is_immediate())
                    s.v.push_back({ e.attribute(), e.value() });
                else
                    for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent())
                        if (n->attribute() == region.id())
                            s.path.insert(s.path.begin(), n->data());
            }
            snaps.push_back(s);
        });
        if (start)
            c.activate_channel(ch);
    }
};

const char* LOOPS[] = { "main", "main_in", "ma" };

struct Open {
    int     kind; // 0 loop 1 iteration 2 region
    int     id;
    int64_t val;
};

// what the loop monitor has to do
struct Model {
    int  interval;
    uint64_t tint; // ns, 0: off
    int  targets;  // bit mask of LOOPS, 0: any
    int  level = 0, target = -1;
    int  niter = 0;
    bool have_start = false;
    int64_t  start = 0;
    uint64_t last = 0;
    struct Want { int n; bool has; int64_t start; uint64_t time; };
    std::vector<Want> want;

    void snap()
    {
        want.push_back(Want { niter, have_start, start, g_now });
        niter      = 0;
        have_start = false;
        last       = g_now;
    }
    void begin_loop(int id)
    {
        ++level;
        if (target < 0 && (targets == 0 || ((targets >> id) & 1))) {
            target = level;
            snap();
        }
    }
    void begin_iter(int64_t v)
    {
        if (target != level)
            return;
        ++niter;
        if (!have_start) {
            have_start = true;
            start      = v;
        }
    }
    void end_iter()
    {
        if (target != level)
            return;
        bool s = interval > 0 && niter % interval == 0;
        if (tint > 0)
            s |= (g_now - last > tint);
        if (s)
            snap();
    }
    void end_loop()
    {
        if (target == level) {
            snap();
            target = -1;
        }
        --level;
    }
};

void check(World& w, Model& m, size_t from)
{
    Attribute n_a = w.c.get_attribute("loop.iterations"), s_a = w.c.get_attribute("loop.start_iteration");
    CHECK(w.snaps.size() == m.want.size(), "loop_monitor: snapshots are taken at the selected loops and intervals");
    for (size_t i = from; i < w.snaps.size() && i < m.want.size(); ++i) {
        CHECK(w.snaps[i].get(n_a, "loop_monitor: the number of iterations is recorded").to_int() == m.want[i].n, "loop_monitor: the iterations since the last snapshot are counted");
        CHECK(w.snaps[i].count(s_a) == (m.want[i].has ? 1 : 0), "loop_monitor: the first iteration is recorded if there is one");
        if (m.want[i].has)
            CHECK(w.snaps[i].get(s_a, "loop_monitor: the first iteration is recorded").to_int64() == m.want[i].start, "loop_monitor: the first iteration is recorded");
    }
}

} // namespace

// any nesting of loops, iterations and regions
ENTRY(c29_loop)
{
    quiet();
    int N        = symx_param("ops", 5);
    int interval = symx_choose(3, "interval");
    int tgt      = symx_choose(4, "targets");
    int mask[]   = { 0, 1, 4, 3 };
    const char* txt[] = { "", "main", "ma", "main,main_in" };
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", "loop_monitor" } };
    cfg["CALI_LOOP_MONITOR_ITERATION_INTERVAL"] = std::to_string(interval);
    if (tgt)
        cfg["CALI_LOOP_MONITOR_TARGET_LOOPS"] = txt[tgt];
    {
        World w(cfg);
        Model m { interval, 0, mask[tgt] };
        std::vector<Open> open;
        for (int i = 0; i < N; ++i) {
            size_t from = w.snaps.size();
            int k = symx_choose(open.empty() ? 3 : 4, "op");
            if (k == 0) {
                int id = symx_choose(3, "loop");
                m.begin_loop(id);
                w.c.begin(loop_attr, Variant(LOOPS[id]));
                open.push_back(Open { 0, id, 0 });
            } else if (k == 1) {
                int id = symx_choose(2, "attr");
                for (const Open& o : open)
                    if (o.kind == 1 && o.id == id)
                        return; // iteration numbers do not nest
                int32_t v  = symx_range(0, 0x7fffffff, nm("it", i));
                m.begin_iter(v);
                w.c.begin(w.iter[id], Variant(v));
                open.push_back(Open { 1, id, v });
            } else if (k == 2) {
                w.c.begin(w.region, Variant("r"));
                open.push_back(Open { 2, 0, 0 });
            } else {
                Open o = open.back();
                open.pop_back();
                if (o.kind == 0)
                    m.end_loop();
                else if (o.kind == 1)
                    m.end_iter();
                w.c.end(o.kind == 0 ? loop_attr : o.kind == 1 ? w.iter[o.id] : w.region);
            }
            check(w, m, from);
        }
        symx_reach("loop");
    }
}

// many iterations of one loop, counted and timed
ENTRY(c29_iterations)
{
    quiet();
    int n        = symx_choose(symx_param("n", 5) + 1, "n");
    int interval = symx_choose(4, "interval");
    int timed    = symx_choose(2, "timed");
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", "loop_monitor" } };
    if (interval)
        cfg["CALI_LOOP_MONITOR_ITERATION_INTERVAL"] = std::to_string(interval);
    if (timed)
        cfg["CALI_LOOP_MONITOR_TIME_INTERVAL"] = "0.5";
    {
        World w(cfg);
        Model m { interval, timed ? 500000000ull : 0, 0 };
        m.begin_loop(0);
        w.c.begin(loop_attr, Variant("main"));
        int32_t base  = symx_range(0, 0x3fffffff, "base");
        int     inner = symx_choose(3, "inner"); // an inner loop in this iteration
        for (int i = 0; i < n; ++i) {
            m.begin_iter(base + i);
            w.c.begin(w.iter[0], Variant(base + i));
            if (inner == i) {
                m.begin_loop(1);
                w.c.begin(loop_attr, Variant("in"));
                m.begin_iter(i);
                w.c.begin(w.iter[1], Variant(i));
                m.end_iter();
                w.c.end(w.iter[1]);
                m.end_loop();
                w.c.end(loop_attr);
            }
            if (timed) {
                uint64_t dts[] = { 0, 300000000, 500000000, 500001000, 700000000 };
                g_now += dts[symx_choose(5, "dt")];
            }
            m.end_iter();
            w.c.end(w.iter[0]);
        }
        m.end_loop();
        w.c.end(loop_attr);
        check(w, m, 0);
        int sum = 0;
        Attribute n_a = w.c.get_attribute("loop.iterations");
        for (const Snap& s : w.snaps)
            sum += s.get(n_a, "loop_monitor: the number of iterations is recorded").to_int();
        CHECK(sum == n, "loop_monitor: every iteration is counted once");
        symx_reach("iterations");
    }
}

// loops with any name and any target
ENTRY(c29_target)
{
    quiet();
    int    L = symx_param("len", 2);
    SymStr name(1, L + 1, "name");
    SymStr target(1, L, "target");
    for (size_t i = 0; i < target.n; ++i)
        symx_assume((target.p[i] >= 'a') & (target.p[i] <= 'z'));
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", "loop_monitor" } };
    cfg["CALI_LOOP_MONITOR_TARGET_LOOPS"] = "other," + target.str();
    {
        World w(cfg);
        Buf   b(name.n); // not terminated
        memcpy(b.p, name.p, name.n);
        w.c.begin(loop_attr, Variant(CALI_TYPE_STRING, b.p, b.n));
        bool want = name.str() == target.str();
        CHECK(w.snaps.size() == (want ? 1u : 0u), "loop_monitor: exactly the target loops are measured");
        w.c.end(loop_attr);
        CHECK(w.snaps.size() == (want ? 2u : 0u), "loop_monitor: exactly the target loops are measured");
        symx_reach("target");
    }
}

// the channel starts while regions and loops are open
ENTRY(c29_late)
{
    quiet();
    const char* svc[] = { "loop_monitor", "loop_statistics", "region_monitor" };
    int         s     = symx_choose(3, "service");
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", svc[s] } };
    cfg["CALI_LOOP_MONITOR_ITERATION_INTERVAL"] = "1";
    cfg["CALI_REGION_MONITOR_TIME_INTERVAL"]    = "0.01";
    {
        World w(cfg, false);
        std::vector<Open> open;
        int n = symx_choose(4, "open");
        for (int i = 0; i < n; ++i) {
            int k = symx_choose(3, "kind");
            if (k == 1)
                for (const Open& o : open)
                    if (o.kind == 1)
                        return; // iteration numbers do not nest
            w.c.begin(k == 0 ? loop_attr : k == 1 ? w.iter[0] : w.region, k == 1 ? Variant(i) : Variant("x"));
            open.push_back(Open { k, 0, 0 });
        }
        w.c.activate_channel(w.ch);
        g_now += 20000000;
        while (!open.empty()) {
            int k = open.back().kind;
            w.c.end(k == 0 ? loop_attr : k == 1 ? w.iter[0] : w.region);
            open.pop_back();
        }
        w.snaps.clear();
        // a complete loop and region afterwards are measured as usual
        for (int r = 0; r < 2; ++r) {
            w.c.begin(w.region, Variant("after"));
            w.c.begin(loop_attr, Variant("loop"));
            for (int i = 0; i < 2; ++i) {
                w.c.begin(w.iter[1], Variant(i));
                g_now += 20000000;
                if (i == 0) {
                    w.c.begin(loop_attr, Variant("inner"));
                    w.c.end(loop_attr);
                }
                w.c.end(w.iter[1]);
            }
            w.c.end(loop_attr);
            w.c.end(w.region);
        }
        if (s == 0)
            CHECK(w.snaps.size() == 8, "loop_monitor: loops after the start of a channel are measured");
        else if (s == 1)
            CHECK(w.snaps.size() == 8, "loop_statistics: loops after the start of a channel are measured");
        symx_reach("late");
    }
}

// loop statistics: the duration of every iteration and the number of iterations
ENTRY(c29_stats)
{
    quiet();
    int N = symx_param("ops", 5);
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", "loop_statistics" } };
    {
        World w(cfg);
        Attribute d_a = w.c.get_attribute("iter.duration.ns"), c_a = w.c.get_attribute("iter.count");
        struct L { uint64_t n; };
        struct O { bool loop; uint64_t t; int attr; };
        std::vector<L> loops;
        std::vector<O> open;
        for (int i = 0; i < N; ++i) {
            size_t from = w.snaps.size();
            int    k    = symx_choose(open.empty() ? 2 : 3, "op");
            g_now += symx_range(0, 1ull << 40, nm("dt", i));
            if (k == 0) {
                w.c.begin(loop_attr, Variant("l"));
                loops.push_back(L { 0 });
                open.push_back(O { true, 0, 0 });
            } else if (k == 1) {
                // an iteration belongs to the innermost loop, and iterations don't nest directly
                if (open.empty() || !open.back().loop)
                    return;
                int a = loops.size() % 2;
                w.c.begin(w.iter[a], Variant(i));
                ++loops.back().n;
                open.push_back(O { false, g_now, a });
            } else {
                O o = open.back();
                open.pop_back();
                w.c.end(o.loop ? loop_attr : w.iter[o.attr]);
                CHECK(w.snaps.size() == from + 1, "loop_statistics: one record per iteration and loop");
                if (w.snaps.size() != from + 1)
                    return;
                if (o.loop) {
                    CHECK(w.snaps[from].get(c_a, "loop_statistics: the number of iterations is recorded").to_uint() == loops.back().n, "loop_statistics: the number of iterations of the loop is recorded");
                    CHECK(w.snaps[from].count(d_a) == 0, "loop_statistics: a loop has no iteration time");
                    loops.pop_back();
                } else {
                    CHECK(w.snaps[from].get(d_a, "loop_statistics: the duration of an iteration is recorded").to_uint() == g_now - o.t, "loop_statistics: the duration of an iteration is recorded");
                    CHECK(w.snaps[from].count(c_a) == 0, "loop_statistics: an iteration has no iteration count");
                }
                from = w.snaps.size();
            }
            CHECK(w.snaps.size() == from || k == 2, "loop_statistics: no record when a loop or an iteration begins");
        }
        symx_reach("stats");
    }
}

// region monitor: long regions are measured from the second time on
ENTRY(c29_region)
{
    quiet();
    int N = symx_param("ops", 6);
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", "region_monitor,timer" }, { "CALI_REGION_MONITOR_TIME_INTERVAL", "1" } };
    const uint64_t S = 1000000000ull;
    {
        World w(cfg);
        struct Info { double incl, child; };
        std::map<std::vector<int>, Info> info;
        std::vector<int>      path;
        std::vector<uint64_t> t0;
        int      measuring = 0; // number of open regions in the measured one
        uint64_t tm = 0;
        Attribute dur = w.c.get_attribute("time.duration.ns");
        for (int i = 0; i < N; ++i) {
            size_t from = w.snaps.size();
            if (path.empty() || symx_choose(2, "op") == 0) {
                int id = symx_choose(2, "region");
                w.c.begin(w.region, Variant(id ? "a" : "b"));
                path.push_back(id);
                t0.push_back(g_now);
                if (measuring)
                    ++measuring;
                else {
                    auto it = info.find(path);
                    if (it != info.end() && it->second.incl > 2.0 * it->second.child) {
                        measuring = 1;
                        tm        = g_now;
                    }
                }
                CHECK(w.snaps.size() == from, "region_monitor: no record when a region begins");
            } else {
                uint64_t dts[] = { 0, 2 * S, 7 * S };
                g_now += dts[symx_choose(3, "dt")];
                w.c.end(w.region);
                if (measuring && --measuring == 0) {
                    CHECK(w.snaps.size() == from + 1, "region_monitor: a long region is measured");
                    if (w.snaps.size() == from + 1) {
                        CHECK(w.snaps[from].get(dur, "region_monitor: a record has the time").to_uint() == g_now - tm, "region_monitor: the measured time is the time in the region");
                        CHECK(w.snaps[from].path.size() == path.size(), "region_monitor: a record belongs to the measured region");
                    }
                } else
                    CHECK(w.snaps.size() == from, "region_monitor: only the selected regions are measured");
                if (!measuring) {
                    double d = (g_now - t0.back()) / 1e9;
                    if (d > 1.0) {
                        info[path].incl = d;
                        std::vector<int> parent(path.begin(), path.end() - 1);
                        if (!parent.empty())
                            info[parent].child += d;
                    }
                }
                path.pop_back();
                t0.pop_back();
            }
        }
        symx_reach("region");
    }
}

// a region is measured if less than half of its time was in (long) subregions
ENTRY(c29_children)
{
    quiet();
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", "region_monitor,timer" }, { "CALI_REGION_MONITOR_TIME_INTERVAL", "1" } };
    const uint64_t S = 1000000000ull, dts[] = { 0, S / 2, 2 * S, 7 * S };
    {
        World    w(cfg);
        int      n = 1 + symx_choose(symx_param("children", 3), "children");
        double   child = 0, incl = 0;
        uint64_t t0 = g_now;
        w.c.begin(w.region, Variant("a"));
        for (int i = 0; i < n; ++i) {
            bool     inner = i > 0 && symx_choose(2, "same") == 0;
            uint64_t d     = dts[symx_choose(4, "child time")];
            w.c.begin(w.region, Variant(inner ? "c" : "b"));
            g_now += d;
            w.c.end(w.region);
            if (d > S)
                child += d / 1e9;
        }
        g_now += dts[symx_choose(4, "own time")];
        w.c.end(w.region);
        if (g_now - t0 > S)
            incl = (g_now - t0) / 1e9;
        size_t from = w.snaps.size();
        w.c.begin(w.region, Variant("a"));
        g_now += S;
        w.c.end(w.region);
        CHECK(w.snaps.size() == from + (incl > 2.0 * child), "region_monitor: a region is measured if it is long and less than half of its time is in subregions");
        symx_reach("children");
    }
}

// time series: every snapshot has the profile of the time since the previous one
ENTRY(c29_timeseries)
{
    quiet();
    g_split = true;
    g_wall  = 5000000000ull;
    int N = symx_param("ops", 4);
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", "timeseries" } };
    {
        World w(cfg);
        typedef std::vector<std::string> Path;
        std::map<Path, uint64_t> time; // completed intervals since the last snapshot
        uint64_t pending = 0;          // time since the last event
        Path     path;
        unsigned nsnap = 0;
        double   t0 = 5.0;
        Attribute s_a = w.c.get_attribute("timeseries.snapshot"), t_a = w.c.get_attribute("timeseries.starttime"), d_a = w.c.get_attribute("timeseries.duration");
        for (int i = 0; i <= N; ++i) {
            int k = i == N ? 2 : symx_choose(path.empty() ? 3 : 4, "op");
            uint64_t dt = symx_range(0, 1ull << 40, nm("dt", i));
            g_now += dt;
            pending += dt;
            if (k != 2) {
                time[path] += pending;
                pending = 0;
            }
            if (k < 2) {
                w.c.begin(w.region, Variant(k ? "a" : "b"));
                path.push_back(k ? "a" : "b");
            } else if (k == 3) {
                w.c.end(w.region);
                path.pop_back();
            } else {
                g_wall += 1000000000ull * (i + 1);
                double now  = 1e-6 * (g_wall / 1000);
                size_t from = w.snaps.size();
                w.c.push_snapshot(w.ch.body(), SnapshotView());
                std::map<Path, uint64_t> got;
                Attribute sum_a = w.c.get_attribute("sum#time.duration.ns");
                size_t n_main = 0;
                for (size_t j = from; j < w.snaps.size(); ++j) {
                    const Snap& s = w.snaps[j];
                    CHECK(s.get(s_a, "timeseries: a record has the number of the snapshot").to_uint() == nsnap, "timeseries: a record has the number of the snapshot");
                    CHECK(s.count(t_a) > 0, "timeseries: a record has the time of the previous snapshot");
                    for (auto& p : s.v)
                        if (p.first == t_a.id())
                            CHECK(p.second.to_double() == t0, "timeseries: a record has the time of the previous snapshot");
                    if (s.count(d_a)) {
                        ++n_main;
                        CHECK(s.get(d_a, "timeseries: the duration is recorded").to_double() == now - t0, "timeseries: the duration is the time since the previous snapshot");
                        CHECK(s.count(sum_a) == 0, "timeseries: the snapshot itself has no profile");
                    } else if (s.count(sum_a)) {
                        Path p;
                        for (const Variant& v : s.path)
                            p.push_back(v.to_string());
                        CHECK(got.count(p) == 0, "timeseries: a region appears once in a profile");
                        got[p] = s.get(sum_a, "timeseries: a record has the time").to_uint();
                    }
                }
                CHECK(n_main == 1, "timeseries: a snapshot is recorded once");
                for (auto& p : time)
                    CHECK((got.count(p.first) ? got[p.first] : 0) == p.second, "timeseries: the profile has the time of each region since the previous snapshot");
                for (auto& p : got)
                    CHECK((time.count(p.first) ? time[p.first] : 0) == p.second, "timeseries: the profile has the time of each region since the previous snapshot");
                time.clear();
                t0 = now;
                ++nsnap;
            }
        }
        symx_reach("timeseries");
    }
}
