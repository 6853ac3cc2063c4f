// C11: threads
#include "cal.h"
#include <functional>
#include <mutex>
#include <thread>

namespace cali
{
extern CaliperService aggregate_service, event_service, statistics_service, timer_service, trace_service;
}

SERVICES(event_service, timer_service, aggregate_service, trace_service, statistics_service)

namespace
{

struct PN {
    cali_id_t attr;
    Variant   val;
};

std::vector<PN> path_of(const Node* n)
{
    std::vector<PN> r;
    for (; n && n->id() != CALI_INV_ID; n = n->parent())
        r.insert(r.begin(), PN { n->attribute(), n->data() });
    return r;
}

// Runs f on two threads. The runtime ends with the thread that started it, so
// neither thread ends before this one is done.
struct Two {
    std::mutex  m;
    std::thread t;
    explicit Two(const std::function<void(int)>& f)
    {
        m.lock();
        t = std::thread([this, f]() {
            f(1);
            std::lock_guard<std::mutex> g(m);
        });
        f(0);
    }
    ~Two()
    {
        m.unlock();
        t.join();
    }
};

} // namespace

// threads take their first measurement at the same time
ENTRY(c11_init)
{
    quiet();
    cali_id_t id[2] = { CALI_INV_ID, CALI_INV_ID };
    {
        Two t([&](int k) {
            Caliper c;
            CHECK((bool) c, "threads: every thread has a runtime");
            id[k] = c.create_attribute("a", CALI_TYPE_INT, CALI_ATTR_DEFAULT).id();
            CHECK(c.get_attribute("a").id() == id[k], "threads: all threads use the same runtime");
        });
    }
    CHECK(id[0] == id[1], "threads: the runtime is initialised once");
    symx_reach("init");
}

namespace
{

void complete(Caliper& c, const Attribute& a, const char* name, cali_attr_type type, int prop)
{
    Attribute b = c.get_attribute(a.id());
    CHECK(b == a && b.name() == name && b.type() == type && (b.properties() & prop) == prop, "threads: an attribute is complete");
}

} // namespace

// threads create attributes
ENTRY(c11_attributes)
{
    quiet();
    Caliper   c;
    Attribute m = c.create_attribute("m", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
    static const char* const names[] = { "a", "b" };
    int       n[2] = { 0, (int) symx_choose(2, "name") };
    cali_attr_type ty[2] = { CALI_TYPE_INT, symx_choose(2, "type") ? CALI_TYPE_INT : CALI_TYPE_STRING };
    Variant   mv[2] = { Variant(cali_make_variant_from_int64((int64_t) symx_u64("m0"))), Variant(cali_make_variant_from_int64((int64_t) symx_u64("m1"))) };
    Attribute at[2];
    {
        Two t([&](int k) {
            Caliper c;
            at[k] = c.create_attribute(names[n[k]], ty[k], CALI_ATTR_NESTED, 1, &m, &mv[k]);
            CHECK((bool) at[k], "threads: an attribute is created");
            CHECK(c.get_attribute(names[n[k]]) == at[k], "threads: an attribute is found by its name");
            complete(c, at[k], names[n[k]], at[k].type(), CALI_ATTR_NESTED);
            Attribute o = c.get_attribute(names[n[1 - k]]);
            if (o) {
                CHECK(o.name() == names[n[1 - k]] && !o.get(m).empty(), "threads: an attribute of another thread is complete");
                complete(c, o, names[n[1 - k]], o.type(), CALI_ATTR_NESTED);
            }
        });
    }
    if (n[0] == n[1]) {
        CHECK(at[0] == at[1], "threads: threads agree on one attribute per name");
        bool w[2];
        for (int k = 0; k < 2; ++k)
            w[k] = at[0].type() == ty[k] && at[0].get(m) == mv[k];
        CHECK(w[0] || w[1], "threads: an attribute has the definition of one of the threads");
        symx_reach("same name");
    } else {
        for (int k = 0; k < 2; ++k)
            CHECK(at[k].type() == ty[k] && at[k].get(m) == mv[k], "threads: an attribute has its definition");
        CHECK(!(at[0] == at[1]), "threads: attributes of different names are different");
        symx_reach("different names");
    }
}

static Node* path(Caliper& c, const Attribute at[2], const Variant vv[2], Node* parent)
{
    return at[0] == at[1] ? c.make_tree_entry(at[0], 2, vv, parent) : c.make_tree_entry(at[1], vv[1], c.make_tree_entry(at[0], vv[0], parent));
}

// threads append to the context tree
ENTRY(c11_tree)
{
    quiet();
    Caliper   c;
    Attribute A = c.create_attribute("A", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS), B = c.create_attribute("B", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS);
    Variant   vp(1);
    Node*     top   = c.make_tree_entry(A, vp);
    int64_t   v[2]  = { (int64_t) symx_u64("v0"), (int64_t) symx_u64("v1") };
    SymStr    s(1, 2, "s");
    bool      str = symx_choose(2, "string"), root = symx_choose(2, "at the root");
    Node*     n[2];
    {
        Two t([&](int k) {
            Caliper   c;
            Attribute at[2] = { A, str ? B : A };
            Variant   vv[2] = { Variant(cali_make_variant_from_int64(v[k])), str ? Variant(CALI_TYPE_STRING, s.p, s.n) : Variant(7) };
            n[k] = path(c, at, vv, root ? nullptr : top);
            CHECK(n[k] != nullptr, "threads: a path is created");
            std::vector<PN> p = path_of(n[k]);
            size_t          o = root ? 0 : 1;
            CHECK(p.size() == 2 + o, "threads: a path has the given entries");
            for (int i = 0; i < 2; ++i)
                CHECK(p[o + i].attr == at[i].id() && p[o + i].val == vv[i], "threads: a path has the given entries");
            for (Node* x = n[k]; x && x->id() != CALI_INV_ID; x = x->parent())
                CHECK(c.node(x->id()) == x, "threads: a node is found by its id");
        });
    }
    for (int k = 0; k < 2; ++k)
        for (Node* x = n[k]; x && x->id() != CALI_INV_ID; x = x->parent()) {
            CHECK(c.node(x->id()) == x, "threads: a node is found by its id");
            int found = 0;
            for (Node* y = x->parent()->first_child(); y; y = y->next_sibling())
                found += y == x;
            CHECK(found == 1, "threads: no node is lost");
            for (Node* y = n[1 - k]; y && y->id() != CALI_INV_ID; y = y->parent())
                CHECK((x->id() == y->id()) == (x == y), "threads: nodes have unique ids");
        }
    Attribute at[2] = { A, str ? B : A };
    for (int k = 0; k < 2; ++k) { // later lookups find the nodes
        Variant vv[2] = { Variant(cali_make_variant_from_int64(v[k])), str ? Variant(CALI_TYPE_STRING, s.p, s.n) : Variant(7) };
        Node*   x = path(c, at, vv, root ? nullptr : top);
        CHECK(x == n[k] || (v[0] == v[1] && x == n[1 - k]) || x->parent() == n[0]->parent() || x->parent() == n[1]->parent(), "threads: a path is found again");
    }
    symx_reach("tree");
}

// threads need new node blocks at the same time
ENTRY(c11_blocks)
{
    quiet();
    RuntimeConfig::get_default_config().preset("CALI_CONTEXTTREE_NODES_PER_BLOCK", "16");
    Caliper   c;
    Attribute A = c.create_attribute("A", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
    Node*     n[2][2];
    {
        Two t([&](int k) {
            Caliper c;
            for (int i = 0; i < 2; ++i) {
                Variant vv[8];
                for (int x = 0; x < 8; ++x)
                    vv[x] = Variant(100 * k + 10 * i + x);
                n[k][i] = c.make_tree_entry(A, 8, vv);
                CHECK(n[k][i] != nullptr, "threads: a path is created");
            }
        });
    }
    std::vector<bool> seen(64 * 16, false);
    for (int k = 0; k < 2; ++k)
        for (int i = 0; i < 2; ++i) {
            int d = 7;
            for (Node* x = n[k][i]; x && x->id() != CALI_INV_ID; x = x->parent(), --d) {
                CHECK(x->data().to_int() == 100 * k + 10 * i + d && x->attribute() == A.id(), "threads: a path has the given entries");
                CHECK(x->id() < seen.size() && !seen[x->id()], "threads: nodes have unique ids");
                seen[x->id()] = true;
                CHECK(c.node(x->id()) == x, "threads: a node is found by its id");
            }
            CHECK(d == -1, "threads: a path has the given entries");
        }
    symx_reach("blocks");
}

// values of the whole process
ENTRY(c11_process)
{
    quiet();
    Caliper   c;
    static const int props[] = { CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_ASVALUE, CALI_ATTR_SCOPE_PROCESS | CALI_ATTR_UNALIGNED };
    Attribute at[2] = { c.create_attribute("A", CALI_TYPE_INT, props[symx_choose(2, "prop")]), c.create_attribute("B", CALI_TYPE_INT, props[symx_choose(2, "prop")]) };
    int       op[2] = { (int) symx_choose(3, "op"), (int) symx_choose(3, "op") };
    int64_t   v[2]  = { (int64_t) symx_u64("v0"), (int64_t) symx_u64("v1") };
    Variant   val[2] = { Variant(cali_make_variant_from_int64(v[0])), Variant(cali_make_variant_from_int64(v[1])) };
    for (int k = 0; k < 2; ++k)
        if (op[k] == 1)
            c.begin(at[k], val[k]);
    {
        Two t([&](int k) {
            Caliper c;
            if (op[k] == 0)
                c.begin(at[k], val[k]);
            else if (op[k] == 1)
                c.end(at[k]);
            else
                c.set(at[k], val[k]);
            CHECK(op[k] == 1 ? c.get(at[k]).empty() : c.get(at[k]).value() == val[k], "threads: a thread's update of a process value is not lost");
        });
    }
    for (int k = 0; k < 2; ++k)
        CHECK(op[k] == 1 ? c.get(at[k]).empty() : c.get(at[k]).value() == val[k], "threads: a thread's update of a process value is not lost");
    FixedSizeSnapshotRecord<60> rec;
    c.pull_context(rec.builder());
    for (int k = 0; k < 2; ++k) {
        Entry e = rec.view().get(at[k]);
        CHECK(op[k] == 1 ? e.empty() : e.value() == val[k], "threads: a snapshot has the process values");
    }
    symx_reach("process");
}

// values of a channel
ENTRY(c11_channel)
{
    quiet();
    Caliper   c;
    static const int props[] = { CALI_ATTR_ASVALUE, CALI_ATTR_UNALIGNED };
    Attribute at[2] = { c.create_attribute("A", CALI_TYPE_INT, props[symx_choose(2, "prop")]), c.create_attribute("B", CALI_TYPE_INT, props[symx_choose(2, "prop")]) };
    Channel   ch = make_channel(c, "ch");
    c.activate_channel(ch);
    int       op[2] = { (int) symx_choose(3, "op"), (int) symx_choose(3, "op") };
    int64_t   v[2]  = { (int64_t) symx_u64("v0"), (int64_t) symx_u64("v1") };
    Variant   val[2] = { Variant(cali_make_variant_from_int64(v[0])), Variant(cali_make_variant_from_int64(v[1])) };
    for (int k = 0; k < 2; ++k)
        if (op[k] == 1)
            c.begin(ch.body(), at[k], val[k]);
    {
        Two t([&](int k) {
            Caliper c;
            if (op[k] == 0)
                c.begin(ch.body(), at[k], val[k]);
            else if (op[k] == 1)
                c.end(ch.body(), at[k]);
            else
                c.set(ch.body(), at[k], val[k]);
        });
    }
    for (int k = 0; k < 2; ++k)
        CHECK(op[k] == 1 ? c.get(ch.body(), at[k]).empty() : c.get(ch.body(), at[k]).value() == val[k], "threads: a thread's update of a channel value is not lost");
    symx_reach("channel");
}

// threads measure into the same channel
ENTRY(c11_measure)
{
    quiet();
    Caliper     c;
    bool        trace = symx_choose(2, "service");
    Channel     ch = make_channel(c, "ch", { { "CALI_SERVICES_ENABLE", trace ? "event,trace" : "event,aggregate" }, { "CALI_TRACE_BUFFER_SIZE", "1" } });
    c.activate_channel(ch);
    Attribute   r = c.create_attribute("r", CALI_TYPE_INT, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_THREAD);
    int         v[2] = { (int) symx_range(1, 2, "v0"), (int) symx_range(1, 2, "v1") };
    {
        Two t([&](int k) {
            Caliper c;
            c.begin(r, Variant(cali_make_variant_from_int(v[k])));
            c.end(r);
        });
    }
    // every thread has one snapshot without and one with the region
    int with[3] = { 0, 0, 0 };
    c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) {
        int region = 0;
        int count  = trace ? 1 : 0;
        for (const Entry& e : rec) {
            Entry x = e.get(r);
            if (!x.empty())
                region = x.value().to_int();
            Attribute a = db.get_attribute(e.attribute());
            if (!trace && a.name() == "count")
                count = e.value().to_int();
        }
        CHECK(region >= 0 && region < 3, "threads: a record has the value of its thread");
        with[region] += count;
    });
    for (int i = 1; i < 3; ++i)
        CHECK(with[i] == (v[0] == i) + (v[1] == i), "threads: every thread's snapshots are recorded once");
    symx_reach("measure");
}

// attributes are created while another thread measures
ENTRY(c11_services)
{
    quiet();
    Caliper c;
    static const struct { const char* svc; int kind; bool both; } cases[] = { { "event,timer", 0, false }, { "aggregate", 1, false }, { "aggregate", 1, true }, { "statistics,event,aggregate", 2, false } };
    int       w = (int) symx_choose(4, "case"), kind = cases[w].kind;
    bool      both = cases[w].both;
    Channel ch = make_channel(c, "ch", { { "CALI_SERVICES_ENABLE", cases[w].svc }, { "CALI_AGGREGATE_KEY", "key1" } });
    c.activate_channel(ch);
    Attribute r = c.create_attribute("r", CALI_TYPE_INT, CALI_ATTR_NESTED | CALI_ATTR_SCOPE_THREAD);
    {
        Two t([&](int k) {
            Caliper c;
            if (k || both) {
                static const int props[] = { CALI_ATTR_NESTED, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE, CALI_ATTR_ASVALUE };
                Attribute n = c.create_attribute(k ? "key1" : "key0", CALI_TYPE_INT, props[kind] | CALI_ATTR_SCOPE_THREAD);
                c.begin(n, Variant(2));
                CHECK(c.get(n).value().to_int() == 2, "threads: a thread has its own values");
                if (kind == 1)
                    c.push_snapshot(ch.body(), SnapshotView());
                c.end(n);
            } else {
                c.begin(r, Variant(1));
                CHECK(c.get(r).value().to_int() == 1, "threads: a thread has its own values");
                if (kind == 1)
                    c.push_snapshot(ch.body(), SnapshotView());
                c.end(r);
            }
        });
    }
    symx_reach("services");
}

// a metadata store
ENTRY(c11_db)
{
    CaliperMetadataDB db;
    Attribute A = db.create_attribute("A", CALI_TYPE_INT, CALI_ATTR_DEFAULT), S = db.create_attribute("S", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    int64_t   v[2] = { (int64_t) symx_u64("v0"), (int64_t) symx_u64("v1") };
    bool      str = symx_choose(2, "string"), names = symx_choose(2, "name");
    Node*     n[2];
    Attribute at[2];
    {
        Two t([&](int k) {
            at[k] = db.create_attribute(k && names ? "y" : "x", CALI_TYPE_INT, CALI_ATTR_DEFAULT);
            CHECK(at[k].type() == CALI_TYPE_INT, "threads: an attribute is complete");
            Attribute aa[2] = { A, str ? S : A };
            Variant   vv[2] = { Variant(cali_make_variant_from_int64(v[k])), str ? Variant("text") : Variant(1) };
            n[k] = db.make_tree_entry(2, aa, vv);
            CHECK(n[k] && n[k]->data() == vv[1] && n[k]->parent()->data() == vv[0], "threads: a path has the given entries");
            CHECK(db.node(n[k]->id()) == n[k] && db.get_attribute(at[k].id()) == at[k] && db.get_attribute(k && names ? "y" : "x") == at[k], "threads: nodes are found by their ids");
        });
    }
    CHECK((at[0] == at[1]) == !names, "threads: threads agree on one attribute per name");
    CHECK((n[0] == n[1]) == (v[0] == v[1]), "threads: equal paths have the same node");
    symx_reach("db");
}
