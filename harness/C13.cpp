// C13: the trace returns every snapshot in order
#include "cal.h"
#include "services/trace/TraceBufferChunk.h"
#include <thread>

namespace cali { extern CaliperService trace_service; }
SERVICES(trace_service)

namespace
{

typedef std::vector<std::pair<cali_id_t, Variant>> Rec;

cali_id_t first_user_attr = 0;

// global values of the runtime itself (e.g. its version) are part of snapshots, too
Rec content(const std::vector<Entry>& rr)
{
    Rec out;
    std::vector<Entry> r;
    for (const Entry& e : rr)
        if (e.attribute() >= first_user_attr)
            r.push_back(e);
    for (const Entry& e : r) {
        if (e.is_immediate())
            out.push_back(std::make_pair(e.attribute(), e.value()));
        else {
            Rec path;
            for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent())
                path.insert(path.begin(), std::make_pair(n->attribute(), n->data()));
            out.insert(out.end(), path.begin(), path.end());
        }
    }
    return out;
}

bool same(const Rec& a, const Rec& b)
{
    if (a.size() != b.size())
        return false;
    bool ok = true;
    for (size_t i = 0; i < a.size(); ++i)
        ok = ok & (a[i].first == b[i].first) & (a[i].second.type() == b[i].second.type()) & same_bits(a[i].second, b[i].second);
    return ok;
}

struct World {
    Caliper   c;
    Channel   ch;
    Attribute A, I, X, T[3];
    std::vector<Variant> open;
    std::vector<Rec>     want;

    World(const char* policy, const char* size, const char* name = "trc")
    {
        A    = c.create_attribute("A", CALI_TYPE_INT, CALI_ATTR_NESTED);
        first_user_attr = A.id();
        I    = c.create_attribute("I", CALI_TYPE_UINT, CALI_ATTR_ASVALUE);
        X    = c.create_attribute("X", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
        T[0] = c.create_attribute("D", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE);
        T[1] = c.create_attribute("B", CALI_TYPE_BOOL, CALI_ATTR_ASVALUE);
        T[2] = c.create_attribute("U", CALI_TYPE_ADDR, CALI_ATTR_ASVALUE);
        ch   = make_channel(c, name, { { "CALI_SERVICES_ENABLE", "trace" }, { "CALI_TRACE_BUFFER_POLICY", policy }, { "CALI_TRACE_BUFFER_SIZE", size } });
        c.activate_channel(ch);
    }

    Rec push(const std::vector<std::pair<Attribute, Variant>>& l)
    {
        FixedSizeSnapshotRecord<120> rec;
        Rec w;
        for (const Variant& v : open)
            w.push_back(std::make_pair(A.id(), v));
        for (auto& p : l) {
            rec.builder().append(p.first, p.second);
            w.push_back(std::make_pair(p.first.id(), p.second));
        }
        c.push_snapshot(ch.body(), rec.view());
        return w;
    }

    std::vector<Rec> flush()
    {
        std::vector<Rec> got;
        c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) { got.push_back(content(r)); });
        return got;
    }

    void check(const std::vector<Rec>& got)
    {
        CHECK(got.size() == want.size(), "trace: every snapshot is returned once");
        for (size_t i = 0; i < got.size() && i < want.size(); ++i)
            CHECK(same(got[i], want[i]), "trace: snapshots are returned unchanged in the order of recording");
    }
};

} // namespace

// any sequence of snapshots, region changes, flushes and clears
ENTRY(c13_ops)
{
    quiet();
    const char* pol[] = { "grow", "stop", "flush" };
    World w(pol[symx_choose(3, "policy")], "1");
    int   steps = (int) symx_param("steps", 4);
    for (int i = 0; i < steps; ++i) {
        switch (symx_choose(w.open.empty() ? 5 : 6, "op")) {
        case 0: // any values; the length of the encoding depends on them
            w.want.push_back(w.push({ { w.I, Variant(cali_make_variant_from_uint(i == 0 ? symx_u64("u") : symx_range(0, 100, nm("u", i)))) } }));
            break;
        case 1:
            w.want.push_back(w.push({ { w.T[0], Variant(i == 0 ? symx_f64("d") : 0.5 * i) }, { w.T[1], Variant(symx_choose(2, "b") != 0) }, { w.X, Variant(cali_make_variant_from_int64(symx_range(0, 100, nm("x", i)))) } }));
            break;
        case 2: {
            Variant v(cali_make_variant_from_int((int) symx_choose(2, "r")));
            w.c.begin(w.A, v);
            w.open.push_back(v);
            break;
        }
        case 3:
            w.check(w.flush());
            break;
        case 4:
            w.c.clear(&w.ch);
            w.want.clear();
            break;
        default:
            w.c.end(w.A);
            w.open.pop_back();
        }
    }
    w.check(w.flush());
    symx_reach("ops");
}

// a buffer of the smallest size overflows: what each policy keeps
ENTRY(c13_overflow)
{
    quiet();
    const char* pol[] = { "grow", "stop", "flush" };
    int   p = (int) symx_choose(3, "policy");
    World w(pol[p], "1");
    std::vector<Rec> written;
    w.ch.events().write_output_evt.connect([&](Caliper* c, ChannelBody* chB, SnapshotView) {
        c->flush(chB, SnapshotView(), [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& r) { written.push_back(content(r)); });
    });
    uint64_t n = symx_param("n", 1500), ents = symx_param("entries", 119);
    uint64_t mid = symx_choose(2, "mid");
    std::vector<std::pair<Attribute, Variant>> l;
    l.push_back(std::make_pair(w.I, Variant()));
    for (uint64_t k = 1; k < ents; ++k)
        l.push_back(std::make_pair(w.X, Variant(cali_make_variant_from_int64(-(int64_t) k))));
    for (uint64_t i = 0; i < n; ++i) {
        // the encoding of the value has the same length for all of the range
        uint64_t v = i + 1000;
        if (i % symx_param("every", 300) == 3)
            v = symx_range(1000, 5000, nm("v", (int) (i / 300)));
        l[0].second = Variant(cali_make_variant_from_uint(v));
        w.want.push_back(w.push(l));
        if (mid && i == 100) {
            // a flush keeps the data
            w.check(w.flush());
        }
    }
    std::vector<Rec> got = w.flush();
    if (p == 2) {
        CHECK(written.size() > 0, "trace: the flush policy writes the buffer when it is full");
        written.insert(written.end(), got.begin(), got.end());
        w.check(written);
    } else if (p == 0) {
        w.check(got);
    } else {
        CHECK(got.size() < n && got.size() > 100, "trace: a full trace stops recording");
        w.want.resize(got.size());
        w.check(got);
    }
    CHECK(p != 1 || w.want.size() < n, "trace: the test fills the buffer");
    // recording goes on after a clear
    w.c.clear(&w.ch);
    w.want.clear();
    w.want.push_back(w.push({ { w.I, Variant(cali_make_variant_from_uint(5)) } }));
    w.check(w.flush());
    symx_reach("overflow");
}

// a record that does not fit into any buffer is dropped
ENTRY(c13_zero)
{
    quiet();
    const char* pol[] = { "grow", "stop", "flush" };
    World w(pol[symx_choose(3, "policy")], "0");
    for (int i = 0; i < 2; ++i)
        w.push({ { w.I, Variant(cali_make_variant_from_uint(symx_u64("v"))) } });
    CHECK(w.flush().size() == 0, "trace: a record that does not fit is dropped");
    symx_reach("zero");
}

// one chunk of any size: a record is only accepted when its encoding fits
ENTRY(c13_chunk)
{
    quiet();
    Caliper c;
    Attribute a = c.create_attribute("I", CALI_TYPE_UINT, CALI_ATTR_ASVALUE), r = c.create_attribute("R", CALI_TYPE_INT, CALI_ATTR_DEFAULT);
    size_t size = symx_param("lo", 36) + symx_choose(symx_param("sizes", 48), "size");
    trace::TraceBufferChunk chunk(size);
    std::vector<Rec> want;
    for (int i = 0; i < 3; ++i) {
        FixedSizeSnapshotRecord<4> rec;
        size_t n = 1 + symx_choose(2, "entries");
        for (size_t k = 0; k < n; ++k)
            rec.builder().append(a, Variant(cali_make_variant_from_uint(symx_u64(nm("v", (int) (i * 2 + k))))));
        if (!chunk.fits(rec.view()))
            continue;
        chunk.save_snapshot(rec.view());
        SnapshotView v = rec.view();
        want.push_back(content(std::vector<Entry>(v.begin(), v.end())));
    }
    size_t i = 0;
    size_t nw = chunk.flush(&c, [&](CaliperMetadataAccessInterface&, const std::vector<Entry>& rec) {
        CHECK(i < want.size() && same(content(rec), want[i]), "trace: snapshots are returned unchanged in the order of recording");
        ++i;
    });
    CHECK(i == want.size() && nw == i, "trace: every snapshot is returned once");
    symx_reach("chunk");
}

// records of several threads, with threads that end before the flush
ENTRY(c13_threads)
{
    quiet();
    World w("grow", "1");
    uint64_t va = symx_range(0, 100, "va"), vb = symx_range(0, 100, "vb"), vc = symx_range(0, 100, "vc");
    bool     clear = symx_choose(2, "clear") != 0;
    int      where = (int) symx_choose(3, "where");
    auto one = [&](uint64_t id, uint64_t v) {
        Caliper c;
        for (uint64_t i = 0; i < 2; ++i) {
            FixedSizeSnapshotRecord<2> rec;
            rec.builder().append(w.I, Variant(cali_make_variant_from_uint(id * 1000 + i)));
            rec.builder().append(w.X, Variant(cali_make_variant_from_int64((int64_t) v)));
            c.push_snapshot(w.ch.body(), rec.view());
        }
    };
    if (where == 0)
        one(0, va);
    std::thread t1([&]() { one(1, vb); });
    t1.join();
    if (where == 1)
        one(0, va);
    if (clear) {
        w.c.clear(&w.ch);
        CHECK(w.flush().size() == 0, "trace: clear removes the records of all threads");
    }
    std::thread t2([&]() { one(2, vc); });
    t2.join();
    if (where == 2)
        one(0, va);
    std::vector<Rec> got = w.flush();
    uint64_t next[3] = { 0, 0, 0 }, val[3] = { va, vb, vc };
    for (const Rec& r : got) {
        CHECK(r.size() == 2 && r[0].first == w.I.id(), "trace: snapshots of threads are returned unchanged");
        uint64_t v = r[0].second.to_uint(), id = v / 1000;
        CHECK(id < 3 && v % 1000 == next[id], "trace: each thread's snapshots are returned once and in order");
        CHECK(r[1].second.to_uint() == val[id], "trace: snapshots of threads are returned unchanged");
        ++next[id];
    }
    CHECK(next[0] == ((clear && where < 2) ? 0u : 2u) && next[1] == (clear ? 0u : 2u) && next[2] == 2, "trace: each thread's snapshots are returned once and in order");
    symx_reach("threads");
}
