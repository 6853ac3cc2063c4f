// C12: on-line aggregation adds up exactly what was measured
#include "cal.h"

namespace cali { extern CaliperService aggregate_service; }
SERVICES(aggregate_service)

namespace
{

struct Stat {
    uint64_t n = 0;
    Variant  mn, mx;
    uint64_t isum = 0;
    double   dsum = 0;

    void add(const Variant& v)
    {
        cali_attr_type t = v.type();
        if (!n) {
            mn = mx = v;
            isum = v.c_variant().value.v_uint;
            dsum = t == CALI_TYPE_DOUBLE ? v.to_double() : 0;
        } else {
            if (t == CALI_TYPE_DOUBLE) {
                double d = v.to_double();
                dsum += d;
                if (d < mn.to_double()) mn = v;
                if (d > mx.to_double()) mx = v;
            } else if (t == CALI_TYPE_INT) {
                int64_t d = v.to_int64();
                isum += (uint64_t) d;
                if (d < mn.to_int64()) mn = v;
                if (d > mx.to_int64()) mx = v;
            } else {
                uint64_t d = v.to_uint();
                isum += d;
                if (d < mn.to_uint()) mn = v;
                if (d > mx.to_uint()) mx = v;
            }
        }
        ++n;
    }
    Variant sum() const
    {
        return mn.type() == CALI_TYPE_DOUBLE ? Variant(dsum) : mn.type() == CALI_TYPE_INT ? Variant(cali_make_variant_from_int64((int64_t) isum)) : Variant(cali_make_variant_from_uint(isum));
    }
    Variant avg() const
    {
        return mn.type() == CALI_TYPE_DOUBLE ? Variant(dsum / (double) n) : mn.type() == CALI_TYPE_INT ? Variant(cali_make_variant_from_int64((int64_t) isum / (int64_t) n)) : Variant(cali_make_variant_from_uint(isum / n));
    }
};

struct Group {
    std::vector<Variant> path; // values of A
    bool                 hask[2];
    Variant              k[2];
    uint64_t             count = 0;
    Stat                 st[2];
};

bool same(const Group& a, const Group& b)
{
    if (a.path.size() != b.path.size())
        return false;
    for (size_t i = 0; i < a.path.size(); ++i)
        if (!(a.path[i] == b.path[i]))
            return false;
    for (int i = 0; i < 2; ++i)
        if (a.hask[i] != b.hask[i] || (a.hask[i] && !(a.k[i] == b.k[i])))
            return false;
    return true;
}

struct World {
    Caliper   c;
    Channel   ch;
    Attribute A, K[2], M[2];
    std::vector<Group>   groups;
    std::vector<Variant> open;
    Variant              kval[2];

    World(const char* keys, cali_attr_type mt, bool late = false)
    {
        A    = c.create_attribute("A", CALI_TYPE_INT, CALI_ATTR_NESTED);
        if (!late)
            attrs(mt);
        ch = make_channel(c, "agg", { { "CALI_SERVICES_ENABLE", "aggregate" }, { "CALI_AGGREGATE_KEY", keys } });
        c.activate_channel(ch);
        if (late)
            attrs(mt);
    }
    ~World() { c.deactivate_channel(ch); }

    void attrs(cali_attr_type mt)
    {
        K[0] = c.create_attribute("K", CALI_TYPE_UINT, CALI_ATTR_ASVALUE);
        K[1] = c.create_attribute("L", CALI_TYPE_UINT, CALI_ATTR_ASVALUE);
        M[0] = c.create_attribute("M", mt, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
        M[1] = c.create_attribute("N", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
    }

    Group& group(bool withl)
    {
        Group g;
        g.path = open;
        for (int i = 0; i < 2; ++i) {
            g.hask[i] = (i == 0 || withl) && !kval[i].empty();
            g.k[i]    = kval[i];
        }
        for (Group& x : groups)
            if (same(x, g))
                return x;
        groups.push_back(g);
        return groups.back();
    }

    void snapshot(bool withl, const Variant* m0, const Variant* m1)
    {
        FixedSizeSnapshotRecord<4> rec;
        if (m0)
            rec.builder().append(M[0], *m0);
        if (m1)
            rec.builder().append(M[1], *m1);
        c.push_snapshot(ch.body(), rec.view());
        Group& g = group(withl);
        ++g.count;
        if (m0)
            g.st[0].add(*m0);
        if (m1)
            g.st[1].add(*m1);
    }

    void check(bool withl)
    {
        std::vector<bool> seen(groups.size(), false);
        size_t nrec = 0;
        Attribute cnt = c.get_attribute("count");
        const char* mname[2] = { "M", "N" };
        c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& r) {
            ++nrec;
            Group g;
            g.hask[0] = g.hask[1] = false;
            SnapshotView v(r.size(), r.data());
            for (const Entry& e : r) {
                if (e.is_immediate()) {
                    for (int i = 0; i < 2; ++i)
                        if (e.attribute() == K[i].id()) {
                            CHECK(!g.hask[i], "aggregation: a key attribute appears once");
                            g.hask[i] = true;
                            g.k[i] = e.value();
                        }
                    CHECK(e.attribute() != M[0].id() && e.attribute() != M[1].id(), "aggregation: single values do not appear");
                } else
                    for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent())
                        if (n->attribute() == A.id())
                            g.path.insert(g.path.begin(), n->data());
            }
            int at = -1;
            for (size_t i = 0; i < groups.size(); ++i)
                if (same(groups[i], g)) {
                    at = (int) i;
                    break;
                }
            CHECK(at >= 0, "aggregation: every record has a key that was measured");
            if (at < 0)
                return;
            CHECK(!seen[at], "aggregation: one record per key");
            seen[at] = true;
            const Group& w = groups[at];
            CHECK(v.get_immediate_entry(cnt).value() == Variant(cali_make_variant_from_uint(w.count)), "aggregation: the count is the number of snapshots");
            for (int i = 0; i < 2; ++i) {
                Attribute amin = c.get_attribute(std::string("min#") + mname[i]), amax = c.get_attribute(std::string("max#") + mname[i]),
                          asum = c.get_attribute(std::string("sum#") + mname[i]), aavg = c.get_attribute(std::string("avg#") + mname[i]);
                if (w.st[i].n == 0) {
                    CHECK(v.get_immediate_entry(asum).empty() && v.get_immediate_entry(amin).empty(), "aggregation: no result for an attribute without values");
                    continue;
                }
                CHECK(v.get_immediate_entry(asum).value() == w.st[i].sum(), "aggregation: the sum is the sum of the values");
                CHECK(v.get_immediate_entry(amin).value() == w.st[i].mn, "aggregation: the minimum is the smallest value");
                CHECK(v.get_immediate_entry(amax).value() == w.st[i].mx, "aggregation: the maximum is the largest value");
                CHECK(v.get_immediate_entry(aavg).value() == w.st[i].avg(), "aggregation: the average is the sum divided by the count");
            }
        });
        CHECK(nrec == groups.size(), "aggregation: each key has a record");
        (void) withl;
    }
};

Variant metric(cali_attr_type t, int i)
{
    if (t == CALI_TYPE_DOUBLE) {
        double d = symx_f64(nm("m", i));
        symx_assume(d > -1e100);
        symx_assume(d < 1e100);
        return Variant(d);
    }
    uint64_t u = symx_u64(nm("m", i));
    return t == CALI_TYPE_INT ? Variant(cali_make_variant_from_int64((int64_t) u)) : Variant(cali_make_variant_from_uint(u));
}

} // namespace

// any sequence of region changes, key changes and measurements
ENTRY(c12_stream)
{
    quiet();
    const cali_attr_type types[] = { CALI_TYPE_INT, CALI_TYPE_UINT };
    cali_attr_type mt = types[symx_choose(2, "type")];
    int   snaps = (int) symx_param("snaps", 3);
    World w("K", mt);
    for (int i = 0; i < snaps; ++i) {
        switch (symx_choose(w.open.empty() ? 3 : 4, "op")) {
        case 1: {
            Variant v(cali_make_variant_from_int((int) symx_choose(2, "region")));
            w.c.begin(w.A, v);
            w.open.push_back(v);
            break;
        }
        case 2: {
            // distinct keys that may share a slot of the hash table
            const uint64_t kv[] = { 1, 1 + 8192, ~0ull };
            uint64_t       k    = kv[symx_choose(3, "key")];
            w.kval[0] = Variant(cali_make_variant_from_uint(k));
            w.c.set(w.K[0], w.kval[0]);
            break;
        }
        case 3:
            w.c.end(w.A);
            w.open.pop_back();
            break;
        default:
            break;
        }
        int     what = (int) symx_choose(3, "what");
        Variant m0 = metric(mt, i), m1 = metric(CALI_TYPE_INT, i + 10);
        w.snapshot(false, what > 0 ? &m0 : nullptr, what > 1 ? &m1 : nullptr);
    }
    w.check(false);
    symx_reach("stream");
}

// totals of floating-point values
ENTRY(c12_double)
{
    quiet();
    World w("K", CALI_TYPE_DOUBLE);
    int   snaps = (int) symx_param("snaps", 3);
    for (int i = 0; i < snaps; ++i) {
        Variant m0 = metric(CALI_TYPE_DOUBLE, i);
        w.kval[0] = Variant(cali_make_variant_from_uint(symx_choose(2, "key")));
        w.c.set(w.K[0], w.kval[0]);
        w.snapshot(false, &m0, nullptr);
    }
    w.check(false);
    symx_reach("double");
}

// two key attributes, arbitrary key values
ENTRY(c12_keys)
{
    quiet();
    World w("K,L", CALI_TYPE_INT, symx_choose(2, "late") != 0);
    int   snaps = (int) symx_param("snaps", 3);
    for (int i = 0; i < snaps; ++i) {
        int what = (int) symx_choose(4, "keys");
        for (int k = 0; k < 2; ++k)
            if (what & (1 << k)) {
                // values with the same sum have the same hash, and so do keys with and without L if its value and id add up to the table size
                uint64_t v = symx_choose(2 + k, k ? "l" : "k");
                w.kval[k] = Variant(cali_make_variant_from_uint(v == 2 ? 8192 - w.K[1].id() : v));
                w.c.set(w.K[k], w.kval[k]);
            }
        Variant m1 = metric(CALI_TYPE_INT, i);
        w.snapshot(true, nullptr, &m1);
    }
    w.check(true);
    symx_reach("keys");
}

// flush and clear in between
ENTRY(c12_clear)
{
    quiet();
    World w("K", CALI_TYPE_INT);
    int   steps = (int) symx_param("steps", 4);
    for (int i = 0; i < steps; ++i) {
        switch (symx_choose(3, "op")) {
        case 0: {
            w.kval[0] = Variant(cali_make_variant_from_uint(symx_choose(2, "key")));
            w.c.set(w.K[0], w.kval[0]);
            Variant m0 = metric(CALI_TYPE_INT, i);
            w.snapshot(false, &m0, nullptr);
            break;
        }
        case 1:
            w.check(false);
            break;
        case 2:
            w.c.clear(&w.ch);
            w.groups.clear();
            break;
        }
    }
    w.check(false);
    symx_reach("clear");
}

// a metric that is created while data is recorded
ENTRY(c12_new_metric)
{
    quiet();
    World w("K", CALI_TYPE_INT);
    Variant m0 = metric(CALI_TYPE_INT, 0), m1 = metric(CALI_TYPE_INT, 1), m2 = metric(CALI_TYPE_INT, 2), m3 = metric(CALI_TYPE_INT, 3);
    int before = (int) symx_choose(3, "before");
    for (int i = 0; i < before; ++i)
        w.snapshot(false, &m0, nullptr);
    Attribute x = w.c.create_attribute("X", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
    uint64_t  sum = 0, n = 0;
    for (int i = 0; i < 2; ++i) {
        FixedSizeSnapshotRecord<4> rec;
        const Variant& m = i ? m2 : m3;
        rec.builder().append(x, m);
        rec.builder().append(w.M[0], m1);
        w.c.push_snapshot(w.ch.body(), rec.view());
        Group& g = w.group(false);
        ++g.count;
        g.st[0].add(m1);
        sum += m.c_variant().value.v_uint;
        ++n;
    }
    w.check(false);
    int found = 0;
    Attribute sx = w.c.get_attribute("sum#X");
    w.c.flush(w.ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) {
        Entry e = SnapshotView(r.size(), r.data()).get_immediate_entry(sx);
        if (!e.empty()) {
            ++found;
            CHECK(e.value().c_variant().value.v_uint == sum, "aggregation: the sum of a new metric is the sum of its values");
        }
    });
    CHECK(found == 1, "aggregation: values of a metric that was created later are aggregated");
    symx_reach("new");
}

// snapshots from signal handlers when the database is full are counted as skipped
ENTRY(c12_full)
{
    quiet();
    World w("K", CALI_TYPE_INT);
    uint64_t n = symx_param("n", 4100);
    bool     clear_first = symx_choose(2, "clear") != 0;
    if (clear_first) {
        Variant m0 = metric(CALI_TYPE_INT, 0);
        w.kval[0] = Variant(cali_make_variant_from_uint(7));
        w.c.set(w.K[0], w.kval[0]);
        w.snapshot(false, &m0, nullptr);
        w.c.clear(&w.ch);
        w.groups.clear();
    }
    Caliper sig = Caliper::sigsafe_instance();
    uint64_t sym = symx_range(0, 3, "extra");
    Attribute k = w.K[0], m = w.M[0];
    for (uint64_t i = 0; i < n; ++i) {
        w.c.set(k, Variant(cali_make_variant_from_uint(i)));
        FixedSizeSnapshotRecord<2> rec;
        rec.builder().append(m, Variant(cali_make_variant_from_int64((int64_t) (i % 1024 ? i : i + sym))));
        sig.push_snapshot(w.ch.body(), rec.view());
    }
    uint64_t total = 0, skipped = 0, isum = 0, nrec = 0;
    Attribute cnt = w.c.get_attribute("count"), sumattr = w.c.get_attribute("sum#M");
    w.c.flush(w.ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& r) {
        SnapshotView v(r.size(), r.data());
        uint64_t c1 = v.get_immediate_entry(cnt).value().to_uint();
        total += c1;
        Entry e = v.get_immediate_entry(k);
        if (e.empty()) {
            skipped += c1;
            bool mark = false;
            for (const Entry& x : r)
                if (x.is_reference() && db.get_attribute(x.attribute()).name() == "skipped.records")
                    mark = true;
            CHECK(mark, "aggregation: skipped snapshots are marked");
        } else {
            ++nrec;
            CHECK(c1 == 1, "aggregation: a key that occurs once is counted once");
            CHECK(v.get_immediate_entry(sumattr).value().to_uint() == e.value().to_uint() + (e.value().to_uint() % 1024 ? 0 : sym), "aggregation: the sum belongs to its key");
        }
    });
    CHECK(total == n, "aggregation: every snapshot is counted, if only as skipped");
    CHECK(nrec + skipped == n, "aggregation: every snapshot is counted, if only as skipped");
    // nothing is left after clearing
    w.c.clear(&w.ch);
    w.groups.clear();
    w.check(false);
    w.kval[0] = Variant(cali_make_variant_from_uint(9));
    w.c.set(w.K[0], w.kval[0]);
    Variant m0 = metric(CALI_TYPE_INT, 1);
    w.snapshot(false, &m0, nullptr);
    w.check(false);
    symx_reach("full");
}
