// C30: memory tracking accounts for every tracked allocation
#include "cal.h"
#include "caliper/cali_datatracker.h"

namespace cali
{
extern CaliperService alloc_service;
extern CaliperService allocstats_service;
extern Attribute      class_memoryaddress_attr;
}
SERVICES(alloc_service, allocstats_service)

namespace
{

typedef std::vector<std::pair<cali_id_t, Variant>> Rec;

Rec read(SnapshotView rec)
{
    Rec r;
    for (const Entry& e : rec) {
        if (e.is_immediate())
            r.push_back({ e.attribute(), e.value() });
        else
            for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent())
                r.push_back({ n->attribute(), n->data() });
    }
    return r;
}

int count(const Rec& r, const Attribute& a)
{
    int n = 0;
    for (auto& p : r)
        n += p.first == a.id();
    return n;
}

Variant get(const Rec& r, const Attribute& a, const char* msg)
{
    CHECK(count(r, a) == 1, msg);
    for (auto& p : r)
        if (p.first == a.id())
            return p.second;
    return Variant();
}

struct World {
    Caliper          c;
    Channel          ch;
    Attribute        region;
    std::vector<Rec> snaps;

    World(std::map<std::string, std::string> cfg)
    {
        region = c.create_attribute("reg", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        ch     = make_channel(c, "mem", cfg);
        ch.events().process_snapshot.connect([this](Caliper*, SnapshotView, SnapshotView rec) { snaps.push_back(read(rec)); });
        c.activate_channel(ch);
    }
    Attribute a(const char* n) { return c.get_attribute(n); }
};

struct Live {
    int         slot;
    uint64_t    size;
    uint64_t    uid;
    int         label;
    std::string path;
};

const char* LABELS[] = { "x", "y" };
// addresses far enough apart for allocations of up to 16 TiB
const void* addr(int slot) { return (const void*) (0x100000000000ull * (slot + 1)); }

} // namespace

// histories of allocations: events, active memory, high-water mark
ENTRY(c30_alloc)
{
    quiet();
    int N = symx_param("ops", 4);
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", "alloc" } };
    bool track = symx_choose(2, "track");
    cfg["CALI_ALLOC_TRACK_ALLOCATIONS"]    = track ? "true" : "false";
    cfg["CALI_ALLOC_RECORD_ACTIVE_MEM"]    = "true";
    cfg["CALI_ALLOC_RECORD_HIGHWATERMARK"] = "true";
    {
        World w(cfg);
        Attribute act = w.a("mem.active"), hwm = w.a("alloc.region.highwatermark"), sz = w.a("alloc.total_size"), uid = w.a("alloc.uid"), ad = w.a("alloc.address"), al = w.a("mem.alloc"), fr = w.a("mem.free");
        std::vector<Live> live;
        uint64_t active = 0, high = 0, uids = 0;
        for (int i = 0; i < N; ++i) {
            size_t from = w.snaps.size();
            int    k    = symx_choose(3, "op");
            uint64_t want_active = active;
            if (k == 0) {
                int      slot = symx_choose(2, "slot"), label = i % 2;
                uint64_t size;
                if (i == 0 && symx_choose(2, "dims")) {
                    int    nd      = 1 + symx_choose(4, "nd");
                    size_t dims[4] = { (size_t) symx_range(0, 1u << 20, nm("d0", i)), (size_t) symx_choose(3, "d1"), (size_t) symx_choose(3, "d2"), 5 };
                    size_t es      = symx_choose(2, "es") * 8;
                    size           = es;
                    for (int d = 0; d < nd; ++d)
                        size *= dims[d];
                    cali_datatracker_track_dimensional(addr(slot), LABELS[label], es, dims, nd);
                } else {
                    size = symx_range(0, 1ull << 40, nm("size", i));
                    cali_datatracker_track(addr(slot), LABELS[label], size);
                }
                ++uids;
                // an allocation at an address in use replaces the one that was there
                for (size_t j = 0; j < live.size(); ++j)
                    if (live[j].slot == slot) {
                        active -= live[j].size;
                        live.erase(live.begin() + j);
                        break;
                    }
                if (track) {
                    CHECK(w.snaps.size() == from + 1, "alloc: an allocation is recorded");
                    if (w.snaps.size() != from + 1)
                        return;
                    const Rec& r = w.snaps[from];
                    CHECK(get(r, sz, "alloc: the size is recorded").to_int64() == (int64_t) size, "alloc: the size of the allocation is recorded");
                    CHECK(get(r, uid, "alloc: the id is recorded").to_uint() == uids, "alloc: every allocation has its own id");
                    CHECK(get(r, ad, "alloc: the address is recorded").to_uint() == (uint64_t) addr(slot), "alloc: the address is recorded");
                    CHECK(get(r, al, "alloc: the label is recorded").to_string() == LABELS[label], "alloc: the label is recorded");
                    CHECK(count(r, fr) == 0, "alloc: an allocation is not a release");
                    CHECK(get(r, hwm, "alloc: the high-water mark is recorded").to_uint() == high, "alloc: the high-water mark since the last snapshot");
                    high = want_active;
                }
                live.push_back(Live { slot, size, uids, label, "" });
                active += size;
                if (active > high)
                    high = active;
            } else if (k == 1) {
                int slot = symx_choose(2, "slot");
                cali_datatracker_untrack(addr(slot));
                bool found = false;
                for (size_t j = 0; j < live.size(); ++j)
                    if (live[j].slot == slot) {
                        found = true;
                        if (track) {
                            CHECK(w.snaps.size() == from + 1, "alloc: a release is recorded");
                            if (w.snaps.size() != from + 1)
                                return;
                            const Rec& r = w.snaps[from];
                            CHECK(get(r, sz, "alloc: the size is recorded").to_int64() == -(int64_t) live[j].size, "alloc: the released size is recorded");
                            CHECK(get(r, uid, "alloc: the id is recorded").to_uint() == live[j].uid, "alloc: a release has the id of the allocation");
                            CHECK(get(r, fr, "alloc: the label is recorded").to_string() == LABELS[live[j].label], "alloc: a release has the label of the allocation");
                            CHECK(count(r, al) == 0, "alloc: a release is not an allocation");
                            CHECK(get(r, hwm, "alloc: the high-water mark is recorded").to_uint() == high, "alloc: the high-water mark since the last snapshot");
                            high = active;
                        }
                        active -= live[j].size;
                        live.erase(live.begin() + j);
                        break;
                    }
                if (!found || !track)
                    CHECK(w.snaps.size() == from, "alloc: nothing is recorded for an unknown address");
            } else {
                w.c.push_snapshot(w.ch.body(), SnapshotView());
                CHECK(w.snaps.size() == from + 1, "alloc: a snapshot is recorded");
                const Rec& r = w.snaps[from];
                CHECK(get(r, act, "alloc: the active memory is recorded").to_uint() == active, "alloc: the active memory is the sum of the live allocations");
                CHECK(get(r, hwm, "alloc: the high-water mark is recorded").to_uint() == high, "alloc: the high-water mark since the last snapshot");
                high = active;
            }
        }
        symx_reach("alloc");
    }
}

// addresses in a snapshot are resolved to the allocation that contains them
ENTRY(c30_resolve)
{
    quiet();
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", "alloc" }, { "CALI_ALLOC_RESOLVE_ADDRESSES", "true" }, { "CALI_ALLOC_TRACK_ALLOCATIONS", "false" } };
    {
        Caliper   c0;
        Variant   v_true(true);
        bool      early = symx_choose(2, "early");
        Attribute mem;
        if (early)
            mem = c0.create_attribute("mem", CALI_TYPE_ADDR, CALI_ATTR_ASVALUE, 1, &class_memoryaddress_attr, &v_true);
        World w(cfg);
        if (!early)
            mem = w.c.create_attribute("mem", CALI_TYPE_ADDR, CALI_ATTR_ASVALUE, 1, &class_memoryaddress_attr, &v_true);
        uint64_t base[3] = { 4096, 20480, 36864 };
        size_t   es[] = { 1, 8, 12 }, n[] = { 1, 100, 1024 };
        int      e[3], k[3];
        bool     live[3];
        for (int i = 0; i < 3; ++i) {
            e[i] = symx_choose(i == 0 ? 3 : 1, "es") + (i == 0 ? 0 : 1);
            k[i] = symx_choose(i == 2 ? 1 : 3, "n");
            cali_datatracker_track_dimensional((const void*) base[i], LABELS[i % 2], es[e[i]], &n[k[i]], 1);
            live[i] = true;
        }
        int rm = symx_choose(4, "rm");
        if (rm < 3) {
            cali_datatracker_untrack((const void*) base[rm]);
            live[rm] = false;
        }
        uint64_t a = symx_range(0, 65535, "addr");
        Entry    trigger(mem, Variant(CALI_TYPE_ADDR, &a, sizeof(a)));
        w.snaps.clear();
        w.c.push_snapshot(w.ch.body(), SnapshotView(trigger));
        CHECK(w.snaps.size() == 1, "alloc: a snapshot is recorded");
        Attribute uid = w.a("alloc.uid#mem"), idx = w.a("alloc.index#mem"), lab = w.a("alloc.label#mem");
        const Rec& r = w.snaps[0];
        int hit = -1;
        for (int i = 0; i < 3; ++i)
            if (live[i] && a >= base[i] && a < base[i] + es[e[i]] * n[k[i]])
                hit = i;
        if (hit < 0) {
            CHECK(count(r, uid) + count(r, idx) + count(r, lab) == 0, "alloc: an address outside of the allocations is not resolved");
            symx_reach("outside");
        } else {
            CHECK(get(r, uid, "alloc: an address is resolved").to_uint() == (uint64_t) hit + 1, "alloc: an address is resolved to the allocation that contains it");
            CHECK(get(r, idx, "alloc: an address is resolved").to_uint() == (a - base[hit]) / es[e[hit]], "alloc: the index of the element is recorded");
            CHECK(get(r, lab, "alloc: an address is resolved").to_string() == LABELS[hit % 2], "alloc: the label of the allocation is recorded");
            symx_reach("inside");
        }
    }
}

// several address attributes in a snapshot; information that comes with an allocation
ENTRY(c30_extra)
{
    quiet();
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", "alloc" }, { "CALI_ALLOC_RESOLVE_ADDRESSES", "true" }, { "CALI_ALLOC_TRACK_ALLOCATIONS", "true" } };
    {
        Caliper   c0;
        Variant   v_true(true);
        Attribute mem[3], info[3];
        const char *M[] = { "m0", "m1", "m2" }, *I[] = { "i0", "i1", "i2" };
        int early = symx_choose(4, "early");
        for (int i = 0; i < early; ++i)
            mem[i] = c0.create_attribute(M[i], CALI_TYPE_ADDR, CALI_ATTR_ASVALUE, 1, &class_memoryaddress_attr, &v_true);
        World w(cfg);
        for (int i = early; i < 3; ++i)
            mem[i] = w.c.create_attribute(M[i], CALI_TYPE_ADDR, CALI_ATTR_ASVALUE, 1, &class_memoryaddress_attr, &v_true);
        for (int i = 0; i < 3; ++i)
            info[i] = w.c.create_attribute(I[i], i == 1 ? CALI_TYPE_INT : CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
        const int NX   = symx_choose(4, "extra");
        Variant   xv[] = { Variant("space"), Variant((int) symx_range(0, 5, "x")), Variant("z") };
        size_t    len  = 100;
        int       xtra = symx_choose(2, "which");
        for (int k = 0; k < 2; ++k)
            w.c.memory_region_begin((const void*) (k ? 8192ull : 4096ull), LABELS[k], 4, 1, &len, k == xtra ? NX : 0, info, xv);
        CHECK(w.snaps.size() == 2, "alloc: an allocation is recorded");
        auto extras = [&](const Rec& r, int n) {
            for (int i = 0; i < 3; ++i) {
                CHECK(count(r, info[i]) == (i < n), "alloc: the information given with an allocation is recorded");
                if (i < n)
                    CHECK(get(r, info[i], "alloc: the information given with an allocation is recorded").to_string() == xv[i].to_string(), "alloc: the information given with an allocation is recorded");
            }
        };
        for (int k = 0; k < 2; ++k)
            extras(w.snaps[k], k == xtra ? NX : 0);
        w.snaps.clear();
        // one snapshot with any subset of the address attributes
        uint64_t           a[3];
        std::vector<Entry> tr;
        bool               on[3];
        for (int i = 0; i < 3; ++i) {
            on[i] = symx_choose(2, "on");
            a[i]  = 4096;
            if (on[i]) {
                uint64_t A[] = { 4096 + 40, 8192 + 4, 100 };
                a[i]         = A[symx_choose(3, "addr")];
                tr.push_back(Entry(mem[i], Variant(CALI_TYPE_ADDR, &a[i], sizeof(uint64_t))));
            }
        }
        w.c.push_snapshot(w.ch.body(), SnapshotView(tr.size(), tr.data()));
        CHECK(w.snaps.size() == 1, "alloc: a snapshot is recorded");
        for (int i = 0; i < 3; ++i) {
            std::string m = M[i];
            Attribute   uid = w.a(("alloc.uid#" + m).c_str()), idx = w.a(("alloc.index#" + m).c_str()), lab = w.a(("alloc.label#" + m).c_str());
            const Rec&  r = w.snaps[0];
            if (on[i] && a[i] != 100) {
                int k = a[i] > 8000;
                CHECK(get(r, uid, "alloc: an address is resolved").to_uint() == (uint64_t) k + 1, "alloc: an address is resolved to the allocation that contains it");
                CHECK(get(r, idx, "alloc: an address is resolved").to_uint() == (k ? 1 : 10), "alloc: the index of the element is recorded");
                CHECK(get(r, lab, "alloc: an address is resolved").to_string() == LABELS[k], "alloc: the label of the allocation is recorded");
            } else
                CHECK(count(r, uid) + count(r, idx) + count(r, lab) == 0, "alloc: nothing is recorded for an address that is not in an allocation");
        }
        w.snaps.clear();
        w.c.memory_region_end((const void*) (xtra ? 8192ull : 4096ull));
        CHECK(w.snaps.size() == 1, "alloc: a release is recorded");
        extras(w.snaps[0], NX);
        symx_reach("extra");
    }
}

// statistics per region
ENTRY(c30_stats)
{
    quiet();
    int N = symx_param("ops", 4);
    std::map<std::string, std::string> cfg { { "CALI_SERVICES_ENABLE", "allocstats" }, { "CALI_ALLOCSTATS_RECORD_HIGHWATERMARK", "true" } };
    {
        World w(cfg);
        struct Reg { uint64_t cur, total, max, hwm, n; };
        std::map<std::string, Reg> regs;
        std::vector<Live> live;
        std::string path;
        uint64_t active = 0, high = 0;
        Attribute hwm = w.a("alloc.region.highwatermark");
        for (int i = 0; i <= N; ++i) {
            int k = i == N ? 5 : symx_choose(6, "op");
            if (k == 0) {
                if (path.size() > 1)
                    return;
                int id = symx_choose(2, "region");
                w.c.begin(w.region, Variant(id ? "a" : "b"));
                path += id ? "a" : "b";
            } else if (k == 1) {
                if (path.empty())
                    return;
                w.c.end(w.region);
                path.pop_back();
            } else if (k == 2) {
                int      slot = symx_choose(2, "slot");
                uint64_t size = symx_range(0, 1ull << 40, nm("size", i));
                cali_datatracker_track(addr(slot), "l", size);
                if (path.empty())
                    continue; // not in a region: not tracked
                for (size_t j = 0; j < live.size(); ++j)
                    if (live[j].slot == slot) {
                        active -= live[j].size;
                        regs[live[j].path].cur -= live[j].size;
                        live.erase(live.begin() + j);
                        break;
                    }
                live.push_back(Live { slot, size, 0, 0, path });
                Reg& r = regs[path];
                r.cur += size;
                r.total += size;
                r.max = std::max(r.max, size);
                r.hwm = std::max(r.hwm, r.cur);
                ++r.n;
                active += size;
                high = std::max(high, active);
            } else if (k == 3) {
                int slot = symx_choose(2, "slot");
                cali_datatracker_untrack(addr(slot));
                for (size_t j = 0; j < live.size(); ++j)
                    if (live[j].slot == slot) {
                        active -= live[j].size;
                        regs[live[j].path].cur -= live[j].size;
                        live.erase(live.begin() + j);
                        break;
                    }
            } else if (k == 4) {
                w.c.clear(&w.ch);
                for (auto it = regs.begin(); it != regs.end();) {
                    bool any = false;
                    for (const Live& l : live)
                        any |= l.path == it->first;
                    if (!any)
                        it = regs.erase(it);
                    else {
                        it->second = Reg { it->second.cur, 0, 0, it->second.cur, 0 };
                        ++it;
                    }
                }
            } else {
                // look at the statistics, and at the high-water mark
                std::map<std::string, Rec> got;
                w.c.flush(w.ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) {
                    Rec         r = read(SnapshotView(rec.size(), rec.data()));
                    std::string p;
                    for (auto& x : r)
                        if (x.first == w.region.id())
                            p = x.second.to_string() + p;
                    CHECK(got.count(p) == 0, "allocstats: one record per region");
                    got[p] = r;
                });
                Attribute ta = w.a("alloc.tally"), ca = w.a("alloc.count"), ma = w.a("max#alloc.size"), aa = w.a("avg#alloc.size");
                for (auto& p : regs) {
                    if (p.second.n == 0)
                        continue; // only allocations from before the clear
                    CHECK(got.count(p.first) == 1, "allocstats: every region with allocations is reported");
                    if (got.count(p.first) != 1)
                        return;
                    const Rec& r = got[p.first];
                    CHECK(get(r, ta, "allocstats: the high-water mark is reported").to_uint() == p.second.hwm, "allocstats: the high-water mark of a region");
                    CHECK(get(r, ca, "allocstats: the number of allocations is reported").to_uint() == p.second.n, "allocstats: the number of allocations in a region");
                    CHECK(get(r, ma, "allocstats: the largest allocation is reported").to_uint() == p.second.max, "allocstats: the largest allocation in a region");
                    CHECK(get(r, aa, "allocstats: the average size is reported").to_uint() == p.second.total / p.second.n, "allocstats: the average size in a region");
                }
                for (auto& p : got)
                    CHECK(regs.count(p.first) && regs[p.first].n > 0, "allocstats: only regions with allocations are reported");
                w.snaps.clear();
                w.c.push_snapshot(w.ch.body(), SnapshotView());
                CHECK(w.snaps.size() == 1, "allocstats: a snapshot is recorded");
                CHECK(get(w.snaps[0], hwm, "allocstats: the high-water mark is recorded").to_uint() == high, "allocstats: the high-water mark since the last snapshot");
                high = active;
            }
        }
        symx_reach("stats");
    }
}
