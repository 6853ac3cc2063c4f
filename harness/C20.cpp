// C20: region profiles account for all time once
#include "cal.h"
#include "caliper/RegionProfile.h"
#include "caliper/reader/FlatExclusiveRegionProfile.h"
#include "caliper/reader/FlatInclusiveRegionProfile.h"
#include "caliper/reader/NestedExclusiveRegionProfile.h"
#include "caliper/reader/NestedInclusiveRegionProfile.h"
#include <chrono>
#include <set>

namespace cali
{
extern CaliperService event_service;
extern CaliperService timestamp_service;
extern CaliperService aggregate_service;
} // namespace cali
SERVICES(event_service, timestamp_service, aggregate_service)

// the clock only advances when the harness says so
static uint64_t g_now = 1000;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((long) g_now)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((long) g_now)); }
} } }

typedef std::tuple<std::map<std::string, double>, double, double> Result;

static Result run(int kind, CaliperMetadataDB& db, const char* type, const std::vector<std::vector<Entry>>& recs)
{
    switch (kind) {
    case 0: { FlatExclusiveRegionProfile p(db, "time", type); for (auto& r : recs) p(db, r); return p.result(); }
    case 1: { FlatInclusiveRegionProfile p(db, "time", type); for (auto& r : recs) p(db, r); return p.result(); }
    case 2: { NestedExclusiveRegionProfile p(db, "time", type); for (auto& r : recs) p(db, r); return p.result(); }
    }
    NestedInclusiveRegionProfile p(db, "time", type);
    for (auto& r : recs)
        p(db, r);
    return p.result();
}

ENTRY(c20_profiles)
{
    CaliperMetadataDB db;
    Attribute region = db.create_attribute("region", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    Attribute func   = db.create_attribute("func", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    Attribute tag    = db.create_attribute("tag", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    int  kind = (int) symx_choose(4, "kind");
    int  t    = (int) symx_choose(6, "type");
    int  metr = (int) symx_choose(2, "metric");
    Attribute time = db.create_attribute("time", metr ? CALI_TYPE_DOUBLE : CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
    static const char* types[] = { "", nullptr, "region", "func", "tag", "missing" };
    const Attribute    sel     = t == 2 ? region : t == 3 ? func : tag;
    int  n = (int) symx_choose(symx_param("recs", 2) + 1, "n");
    std::vector<std::vector<Entry>> recs;
    // expected
    std::map<std::string, uint64_t> want;
    uint64_t total = 0, total_reg = 0;
    for (int i = 0; i < n; ++i) {
        std::vector<Entry> rec;
        struct P { const Attribute* a; const char* v; };
        std::vector<P> path;
        switch (symx_choose(8, nm("path", i))) {
        case 0: break;
        case 1: path = { { &region, "a" } }; break;
        case 2: path = { { &region, "a" }, { &region, "b" } }; break;
        case 3: path = { { &region, "a" }, { &region, "a" } }; break;             // recursion
        case 4: path = { { &func, "f" }, { &region, "a" }, { &func, "f" } }; break; // mutual recursion
        case 5: path = { { &region, "b" }, { &func, "a" } }; break;               // same name, other type
        case 6: path = { { &region, "a" }, { &region, "b" }, { &region, "a" } }; break;
        case 7: path = { { &func, "f" }, { &tag, "t" }, { &region, "b" } }; break; // other data on the path
        }
        bool sep  = symx_choose(2, nm("tag", i));
        bool hasm = i > 0 || symx_choose(2, nm("time", i));
        std::vector<P> other;
        if (sep)
            other = { { &tag, "t" }, { &tag, "u" } };
        auto node = [&](const std::vector<P>& p) {
            Attribute as[4];
            Variant   vs[4];
            for (size_t k = 0; k < p.size(); ++k) {
                as[k] = *p[k].a;
                vs[k] = Variant(p[k].v);
            }
            return db.make_tree_entry(p.size(), as, vs);
        };
        uint64_t v = symx_u8(nm("v", i));
        bool first = (i & 1);
        if (hasm && first)
            rec.push_back(Entry(time, metr ? Variant((double) v) : Variant(cali_make_variant_from_uint(v))));
        if (!other.empty())
            rec.push_back(Entry(node(other)));
        if (!path.empty())
            rec.push_back(Entry(node(path)));
        if (hasm && !first)
            rec.push_back(Entry(time, metr ? Variant((double) v) : Variant(cali_make_variant_from_uint(v))));
        recs.push_back(rec);
        if (!hasm)
            continue;
        total += v;
        // the branch of the selected regions
        auto is_sel = [&](const P& p) { return t < 2 ? p.a->is_nested() : t < 5 && *p.a == sel; };
        std::vector<std::vector<P>> bs { other, path };
        std::set<std::string>       names;
        std::string                 nested;
        bool                        excl = false;
        if (t == 4 && sep && path.size() == 3 && path[1].a == &tag)
            symx_assume(false); // selected data on two branches: not a region hierarchy
        for (auto& b : bs) {
            bool any = false;
            for (const P& p : b)
                if (is_sel(p)) {
                    any = true;
                    nested += (nested.empty() ? "" : "/") + std::string(p.v);
                    names.insert(kind >= 2 ? nested : p.v);
                }
            if (any && is_sel(b.back())) {
                excl = true;
                if (kind == 0)
                    want[b.back().v] += v;
                else if (kind == 2)
                    want[nested] += v;
            }
        }
        if (kind == 1 || kind == 3) {
            for (const std::string& s : names)
                want[s] += v;
            total_reg += names.empty() ? 0 : v;
        } else
            total_reg += excl ? v : 0;
    }
    Result r = run(kind, db, types[t], recs);
    CHECK(std::get<2>(r) == (double) total, "the total is the sum over all records");
    CHECK(std::get<1>(r) == (double) total_reg, "the region total is the sum over all records in the selected regions");
    const std::map<std::string, double>& m = std::get<0>(r);
    CHECK(m.size() == want.size(), "exactly the regions in the records");
    for (auto& p : want) {
        auto it = m.find(p.first);
        CHECK(it != m.end(), "each region of the records");
        if (it != m.end())
            CHECK(it->second == (double) p.second, kind & 1 ? "inclusive: sum over the records in which the region is open" : "exclusive: sum over the records whose innermost region it is");
    }
    if (kind == 1 && t == 0 && n == 2)
        for (auto& p : m)
            CHECK((p.second >= 0) & (p.second <= std::get<2>(r)), "no region takes more than the total");
    if (!(kind & 1)) {
        double s = 0;
        for (auto& p : m)
            s += p.second;
        CHECK(s == std::get<1>(r), "exclusive values add up to the region total");
    }
    symx_reach("profiles");
}

// the region profile of a program
ENTRY(c20_runtime)
{
    quiet();
    int  steps = (int) symx_param("steps", 4);
    Caliper c;
    RegionProfile rp;
    Attribute func = c.create_attribute("func", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_THREAD);
    Attribute reg  = c.create_attribute("region", CALI_TYPE_STRING, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_THREAD);
    g_now = 1000;
    rp.start();
    struct P { int a; const char* v; };
    std::vector<P> open;
    std::map<std::string, uint64_t> excl[3], incl[3];
    uint64_t total = 0, et[3] = { 0, 0, 0 }, it[3] = { 0, 0, 0 };
    uint64_t pending = 0; // time since the last event
    auto pass = [&](uint64_t dt) {
        g_now += dt;
        pending += dt;
    };
    auto commit = [&] { // events account for the time since the last event
        uint64_t dt = pending;
        pending = 0;
        total += dt;
        for (int t = 0; t < 3; ++t) {
            std::set<std::string> names;
            for (const P& p : open)
                if (t == 0 || p.a == t)
                    names.insert(p.v);
            for (auto& s : names)
                incl[t][s] += dt;
            if (!names.empty())
                it[t] += dt;
            if (!open.empty() && (t == 0 || open.back().a == t)) {
                excl[t][open.back().v] += dt;
                et[t] += dt;
            }
        }
    };
    auto forget = [&] {
        for (int t = 0; t < 3; ++t) {
            excl[t].clear();
            incl[t].clear();
            et[t] = it[t] = 0;
        }
        total = 0;
    };
    auto end = [&] {
        commit();
        c.end(open.back().a == 1 ? func : reg);
        open.pop_back();
    };
    for (int i = 0; i < steps; ++i) {
        uint64_t dt = 1ull << (4 * i); // sums of any selection of steps are different
        pass(dt);
        int op = (int) symx_choose(5, nm("op", i));
        switch (op) {
        case 0: commit(); c.begin(func, Variant("f")); open.push_back(P { 1, "f" }); break;
        case 1: commit(); c.begin(reg, Variant("a")); open.push_back(P { 2, "a" }); break;
        case 2: commit(); c.begin(reg, Variant("b")); open.push_back(P { 2, "b" }); break;
        case 3:
            symx_assume(!open.empty());
            end();
            break;
        case 4: // only what is already aggregated is forgotten
            rp.clear();
            forget();
        }
    }
    while (!open.empty()) {
        pass(1ull << 30);
        end();
    }
    // time after the last event is not part of the profile
    static const char* types[] = { "", "func", "region" };
    int  t    = (int) symx_choose(3, "type");
    bool ex   = symx_choose(2, "excl");
    auto r    = ex ? rp.exclusive_region_times(types[t]) : rp.inclusive_region_times(types[t]);
    auto same = [](double v, uint64_t w) { return v == (double) w * 1e-9; };
    CHECK(same(std::get<2>(r), total), "the total is all time");
    CHECK(same(std::get<1>(r), ex ? et[t] : it[t]), "the region total is the time in the selected regions");
    auto& want = ex ? excl[t] : incl[t];
    auto& have = std::get<0>(r);
    for (auto& p : want)
        if (p.second) {
            CHECK(have.count(p.first) == 1, "each region of the program");
            if (have.count(p.first))
                CHECK(same(have[p.first], p.second), ex ? "exclusive: time while the region is the innermost" : "inclusive: time while the region is open");
        }
    for (auto& p : have)
        CHECK(want.count(p.first) == 1 || p.second == 0, "exactly the regions of the program");
    symx_reach("runtime");
}
