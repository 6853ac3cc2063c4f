// C09: annotations nest and unwind like a stack
#include "cal.h"
#include "caliper/Annotation.h"
#include <functional>

SERVICES()

namespace
{

struct AV {
    Attribute a;
    Variant   v;
};

enum { REGION, UNALIGNED, VALUE };

// what the user sees: one stack per kind and scope
struct World {
    Caliper                c;
    std::vector<Attribute> at;
    std::vector<AV>        stack[2][2][2]; // scope, region/unaligned, hidden
    std::vector<AV>        vals;           // attributes stored as value
    bool                   dead = false;

    Attribute mk(const char* n, cali_attr_type t, int prop)
    {
        at.push_back(c.create_attribute(n, t, prop | CALI_ATTR_SKIP_EVENTS * 0));
        return at.back();
    }

    static int kind(const Attribute& a)
    {
        int p = a.properties();
        return p & CALI_ATTR_ASVALUE ? VALUE : p & CALI_ATTR_UNALIGNED ? UNALIGNED : REGION;
    }

    std::vector<AV>& st(const Attribute& a)
    {
        int p = a.properties();
        return stack[(p & CALI_ATTR_SCOPE_MASK) == CALI_ATTR_SCOPE_PROCESS][kind(a) == UNALIGNED][(p & CALI_ATTR_HIDDEN) != 0];
    }

    int find_val(const Attribute& a)
    {
        for (size_t i = 0; i < vals.size(); ++i)
            if (vals[i].a == a)
                return (int) i;
        return -1;
    }

    static int innermost(const std::vector<AV>& s, const Attribute& a)
    {
        for (int i = (int) s.size() - 1; i >= 0; --i)
            if (s[i].a == a)
                return i;
        return -1;
    }

    void m_begin(const Attribute& a, const Variant& v)
    {
        if (dead)
            return;
        if (kind(a) == VALUE)
            m_set(a, v);
        else
            st(a).push_back(AV { a, v });
    }

    void m_set(const Attribute& a, const Variant& v)
    {
        if (dead)
            return;
        if (kind(a) == VALUE) {
            int i = find_val(a);
            if (i < 0)
                vals.push_back(AV { a, v });
            else
                vals[i].v = v;
        } else {
            std::vector<AV>& s = st(a);
            int i = innermost(s, a);
            if (i >= 0)
                s.erase(s.begin() + i);
            s.push_back(AV { a, v });
        }
    }

    void m_end(const Attribute& a, const Variant* expect = nullptr)
    {
        if (dead)
            return;
        if (kind(a) == VALUE) {
            int i = find_val(a);
            if (i < 0 || (expect && !(vals[i].v == *expect)))
                dead = true;
            else
                vals.erase(vals.begin() + i);
            return;
        }
        std::vector<AV>& s = st(a);
        int i = innermost(s, a);
        if (i < 0 || (kind(a) == REGION && i + 1 != (int) s.size()) || (expect && !(s[i].v == *expect)))
            dead = true;
        else
            s.erase(s.begin() + i);
    }

    void check()
    {
        for (const Attribute& a : at) {
            Entry e = c.get(a);
            int   i = kind(a) == VALUE ? find_val(a) : innermost(st(a), a);
            if (i < 0)
                CHECK(e.empty(), "annotations: an attribute without open region has no value");
            else
                CHECK(!e.empty() && e.value() == (kind(a) == VALUE ? vals[i].v : st(a)[i].v), "annotations: the value of an attribute is the innermost open one");
        }
        FixedSizeSnapshotRecord<60> rec;
        c.pull_context(rec.builder());
        check_context(rec.view());
    }

    bool mine(const Attribute& a)
    {
        for (const Attribute& x : at)
            if (x == a)
                return true;
        return false;
    }

    void check_context(SnapshotView v)
    {
        std::vector<AV> got[2][2], gval; // visible ones
        for (const Entry& e : v) {
            if (e.is_immediate()) {
                Attribute a = c.get_attribute(e.attribute());
                if (mine(a))
                    gval.push_back(AV { a, e.value() });
            } else {
                std::vector<AV> path;
                for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) {
                    Attribute a = c.get_attribute(n->attribute());
                    if (mine(a))
                        path.insert(path.begin(), AV { a, n->data() });
                }
                for (const AV& x : path) {
                    int p = x.a.properties();
                    CHECK(!(p & CALI_ATTR_HIDDEN), "annotations: hidden attributes are not in snapshots");
                    got[(p & CALI_ATTR_SCOPE_MASK) == CALI_ATTR_SCOPE_PROCESS][kind(x.a) == UNALIGNED].push_back(x);
                }
            }
        }
        for (int s = 0; s < 2; ++s)
            for (int k = 0; k < 2; ++k) {
                const std::vector<AV>&w = stack[s][k][0], &g = got[s][k];
                CHECK(w.size() == g.size(), "annotations: a snapshot has exactly the open regions");
                for (size_t i = 0; i < w.size(); ++i)
                    CHECK(w[i].a == g[i].a && w[i].v == g[i].v, "annotations: a snapshot has the open regions in order");
            }
        size_t nvis = 0;
        for (const AV& x : vals)
            if (!(x.a.properties() & CALI_ATTR_HIDDEN)) {
                ++nvis;
                int n = 0;
                for (const AV& y : gval)
                    if (y.a == x.a) {
                        ++n;
                        CHECK(y.v == x.v, "annotations: a snapshot has the current values");
                    }
                CHECK(n == 1, "annotations: a snapshot has each value once");
            }
        CHECK(gval.size() == nvis, "annotations: a snapshot has no other values");
    }
};

Variant sym_val(const Attribute& a, int i)
{
    if (a.type() == CALI_TYPE_STRING) {
        char* s = (char*) malloc(2);
        s[0] = (char) symx_range('a', 'z', nm("s", i));
        s[1] = 0;
        return Variant(s);
    }
    return Variant(cali_make_variant_from_int((int) symx_range(0, 255, nm("v", i))));
}

const int N   = CALI_ATTR_NESTED;
const int Vl  = CALI_ATTR_ASVALUE;
const int Un  = CALI_ATTR_UNALIGNED;
const int Hd  = CALI_ATTR_HIDDEN;
const int Pr  = CALI_ATTR_SCOPE_PROCESS;

struct Def {
    const char*    name;
    cali_attr_type type;
    int            prop;
};

const Def sets[][3] = {
    { { "A", CALI_TYPE_STRING, N }, { "B", CALI_TYPE_INT, N }, { "U", CALI_TYPE_INT, Un } },
    { { "A", CALI_TYPE_INT, 0 }, { "P", CALI_TYPE_INT, N | Pr }, { "V", CALI_TYPE_INT, Vl } },
    { { "U", CALI_TYPE_INT, Un }, { "W", CALI_TYPE_STRING, Un }, { "A", CALI_TYPE_INT, N } },
    { { "A", CALI_TYPE_INT, N }, { "H", CALI_TYPE_INT, N | Hd }, { "X", CALI_TYPE_INT, Vl | Hd } },
    { { "Q", CALI_TYPE_INT, Pr | Vl }, { "R", CALI_TYPE_INT, Pr | Un }, { "S", CALI_TYPE_INT, Pr } },
};

} // namespace

// begin, set and end in any order
ENTRY(c09_ops)
{
    quiet();
    World w;
    int   set = (int) symx_choose(5, "set");
    int   ops = (int) symx_param("ops", 4);
    for (const Def& d : sets[set])
        w.mk(d.name, d.type, d.prop);
    w.check();
    for (int i = 0; i < ops; ++i) {
        int       op = (int) symx_choose(9, "op");
        Attribute a  = w.at[op % 3];
        if (op < 3) {
            Variant v = sym_val(a, i);
            w.c.begin(a, v);
            w.m_begin(a, v);
        } else if (op < 6) {
            w.c.end(a);
            w.m_end(a);
        } else {
            Variant v = sym_val(a, i);
            w.c.set(a, v);
            w.m_set(a, v);
        }
        w.check();
    }
    symx_reach(w.dead ? "mismatch" : "ops");
}

// well-nested regions only, deeper
ENTRY(c09_nested)
{
    quiet();
    World w;
    int   ops = (int) symx_param("ops", 6);
    w.mk("A", CALI_TYPE_STRING, N);
    w.mk("B", CALI_TYPE_INT, 0);
    w.mk("V", CALI_TYPE_INT, Vl);
    std::vector<AV>& s = w.st(w.at[0]);
    for (int i = 0; i < ops; ++i) {
        int op = (int) symx_choose(s.empty() ? 2 : 3, "op");
        if (op < 2) {
            Variant v = sym_val(w.at[op], i);
            w.c.begin(w.at[op], v);
            w.m_begin(w.at[op], v);
        } else {
            Attribute a = s.back().a;
            w.c.end(a);
            w.m_end(a);
        }
        w.check();
    }
    // unwind
    while (!s.empty()) {
        Attribute a = s.back().a;
        w.c.end(a);
        w.m_end(a);
        w.check();
    }
    CHECK(!w.dead, "annotations: well-nested regions do not mismatch");
    symx_reach("nested");
}

// long runs of updates
ENTRY(c09_long)
{
    quiet();
    World w;
    int   set = (int) symx_choose(5, "set"), n = (int) symx_param("n", 14), mode = (int) symx_choose(3, "mode");
    for (const Def& d : sets[set])
        w.mk(d.name, d.type, d.prop);
    for (int i = 0; i < n; ++i) {
        Attribute a = w.at[mode == 2 ? i / 4 % 3 : i % 3];
        Variant   v = sym_val(a, i);
        bool      open = World::kind(a) == VALUE ? w.find_val(a) >= 0 : !w.st(a).empty() && w.st(a).back().a == a;
        if (mode == 0 || (mode == 2 && i % 2 == 0) || !open) { // begin, or begin and end, or replace
            if (World::kind(a) == VALUE && open) {
                w.c.set(a, v);
                w.m_set(a, v);
            } else {
                w.c.begin(a, v);
                w.m_begin(a, v);
            }
        } else if (mode == 1) {
            w.c.set(a, v);
            w.m_set(a, v);
        } else {
            w.c.end(a);
            w.m_end(a);
        }
        w.check();
    }
    CHECK(!w.dead, "annotations: well-nested regions do not mismatch");
    symx_reach("long");
}

// ending with the value of the region
ENTRY(c09_end_value)
{
    quiet();
    World w;
    w.mk("A", CALI_TYPE_STRING, N);
    w.mk("B", CALI_TYPE_INT, symx_choose(2, "prop") ? Un : N);
    w.mk("V", CALI_TYPE_INT, Vl);
    for (int i = 0; i < 2; ++i) {
        Attribute a = w.at[symx_choose(3, "attr")];
        Variant   v = sym_val(a, i);
        w.c.begin(a, v);
        w.m_begin(a, v);
    }
    for (int i = 2; i < 4; ++i) {
        Attribute a = w.at[symx_choose(3, "attr")];
        Variant   v = sym_val(a, i);
        w.c.end_with_value_check(a, v);
        w.m_end(a, &v);
        w.check();
    }
    symx_reach(w.dead ? "mismatch" : "match");
}

// the C interface and the C++ convenience classes
ENTRY(c09_api)
{
    quiet();
    World w;
    Attribute reg = w.c.get_attribute("region"), loop = w.c.get_attribute("loop"), phase = w.c.get_attribute("phase");
    w.at = { reg, loop, phase };
    cali_id_t iv = cali_make_loop_iteration_attribute("l");
    Attribute it = w.c.get_attribute(iv);
    w.at.push_back(it);
    char n1[2] = { (char) symx_range('a', 'z', "n1"), 0 }, n2[2] = { (char) symx_range('a', 'z', "n2"), 0 };
    char c1[2] = { n1[0], 0 }, c2[2] = { n2[0], 0 };
    int  which = (int) symx_choose(5, "api");
    int  num = (int) symx_range(0, 1000, "num");
    int  steps = 0;
    std::function<void(int)> inner = [&](int depth) {
        // the caller's buffer may change after the call
        w.check();
        ++steps;
        if (depth == 0)
            return;
        switch (which) {
        case 0: {
            cali_begin_region(n2);
            w.m_begin(reg, Variant(c2));
            inner(depth - 1);
            cali_end_region(n2);
            w.m_end(reg);
            break;
        }
        case 1: {
            // the iteration number is a value attribute, which does not nest: every level has its own loop
            char ln[3] = { n2[0], (char) ('0' + depth), 0 };
            char* lc = strdup(ln);
            cali::Loop l(ln);
            w.m_begin(loop, Variant(lc));
            Attribute la = w.c.get_attribute(std::string("iteration#") + lc);
            if (!w.mine(la))
                w.at.push_back(la);
            for (int i = 0; i < 2; ++i) {
                cali::Loop::Iteration itr = l.iteration(num + i);
                w.m_begin(la, Variant(num + i));
                inner(depth - 1);
                w.m_end(la);
            }
            // the region ends with the object
            w.check();
            l.end();
            w.m_end(loop);
            w.check();
            break;
        }
        case 2: {
            cali_begin_phase(n2);
            w.m_begin(phase, Variant(c2));
            {
                cali::ScopeAnnotation f(n1);
                w.m_begin(reg, Variant(c1));
                inner(depth - 1);
            }
            w.m_end(reg);
            cali_end_phase(n2);
            w.m_end(phase);
            break;
        }
        case 3: {
            cali_begin_int_byname("bn", num);
            Attribute a = w.c.get_attribute("bn");
            if (!w.mine(a))
                w.at.push_back(a);
            w.m_begin(a, Variant(num));
            cali_set_int_byname("un", num + 1);
            Attribute u = w.c.get_attribute("un");
            if (!w.mine(u))
                w.at.push_back(u);
            w.m_set(u, Variant(num + 1));
            inner(depth - 1);
            cali_end_byname("bn");
            w.m_end(a);
            break;
        }
        default: {
            cali::Annotation an("ann", CALI_ATTR_DEFAULT);
            an.begin(num);
            Attribute a = w.c.get_attribute("ann");
            if (!w.mine(a))
                w.at.push_back(a);
            w.m_begin(a, Variant(num));
            {
                cali::Annotation::Guard g(an.begin(num + 1));
                w.m_begin(a, Variant(num + 1));
                inner(depth - 1);
            }
            w.m_end(a);
            w.check();
            an.end();
            w.m_end(a);
        }
        }
        n2[0] = '#';
        w.check();
        n2[0] = c2[0];
    };
    cali_begin_region(n1);
    w.m_begin(reg, Variant(c1));
    n1[0] = '#';
    w.check();
    n1[0] = c1[0];
    inner((int) symx_param("depth", 2));
    cali_end_region(n1);
    w.m_end(reg);
    w.check();
    CHECK(!w.dead, "annotations: well-nested regions do not mismatch");
    symx_reach("api");
}

// callbacks see the region that begins or ends, at the right moment
ENTRY(c09_events)
{
    quiet();
    World w;
    Channel ch = make_channel(w.c, "ch");
    w.c.activate_channel(ch);
    w.mk("A", CALI_TYPE_INT, N);
    w.mk("V", CALI_TYPE_INT, Vl);
    w.mk("S", CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS);
    struct Ev {
        int       kind;
        Attribute a;
        Variant   v;
        Variant   cur; // value on the blackboard
    };
    std::vector<Ev> log;
    ch.events().pre_begin_evt.connect([&](Caliper* c, ChannelBody*, const Attribute& a, const Variant& v) { log.push_back(Ev { 0, a, v, c->get(a).value() }); });
    ch.events().post_begin_evt.connect([&](Caliper* c, ChannelBody*, const Attribute& a, const Variant& v) { log.push_back(Ev { 1, a, v, c->get(a).value() }); });
    ch.events().pre_end_evt.connect([&](Caliper* c, ChannelBody*, const Attribute& a, const Variant& v) { log.push_back(Ev { 2, a, v, c->get(a).value() }); });
    ch.events().pre_set_evt.connect([&](Caliper* c, ChannelBody*, const Attribute& a, const Variant& v) { log.push_back(Ev { 3, a, v, c->get(a).value() }); });
    int ops = (int) symx_param("ops", 3);
    for (int i = 0; i < ops; ++i) {
        int       op = (int) symx_choose(9, "op");
        Attribute a  = w.at[op % 3];
        log.clear();
        Variant before = w.c.get(a).value();
        Variant v = Variant(cali_make_variant_from_int((int) symx_range(0, 255, nm("v", i))));
        bool dead = w.dead;
        if (op < 3) {
            w.c.begin(a, v);
            w.m_begin(a, v);
        } else if (op < 6) {
            w.c.end(a);
            w.m_end(a);
        } else {
            w.c.set(a, v);
            w.m_set(a, v);
        }
        if (w.dead || op % 3 == 2)
            CHECK(log.empty(), "annotations: no event for skipped attributes and mismatches");
        else if (op < 3)
            CHECK(log.size() == 2 && log[0].kind == 0 && log[1].kind == 1 && log[0].a == a && log[1].a == a && log[0].v == v && log[1].v == v && log[0].cur == before && log[1].cur == v, "annotations: begin events come before and after the begin");
        else if (op < 6)
            CHECK(log.size() == 1 && log[0].kind == 2 && log[0].a == a && log[0].v == before && log[0].cur == before, "annotations: the end event comes before the end, with the value of the region");
        else
            CHECK(log.size() == 1 && log[0].kind == 3 && log[0].a == a && log[0].v == v && log[0].cur == before, "annotations: the set event comes before the value changes");
        (void) dead;
        w.check();
    }
    w.c.deactivate_channel(ch);
    symx_reach("events");
}

// a snapshot is the context plus what the trigger added
ENTRY(c09_snapshot)
{
    quiet();
    World   w;
    Channel ch = make_channel(w.c, "ch");
    w.c.activate_channel(ch);
    w.mk("A", CALI_TYPE_INT, N);
    w.mk("V", CALI_TYPE_INT, Vl);
    w.mk("P", CALI_TYPE_INT, Pr);
    Attribute t = w.c.create_attribute("T", CALI_TYPE_INT, Vl), m = w.c.create_attribute("M", CALI_TYPE_INT, Vl);
    std::vector<std::vector<Entry>> recs;
    ch.events().snapshot.connect([&](Caliper*, SnapshotView, SnapshotBuilder& b) { b.append(m, Variant(7)); });
    ch.events().process_snapshot.connect([&](Caliper*, SnapshotView, SnapshotView v) { recs.push_back(std::vector<Entry>(v.begin(), v.end())); });
    for (int i = 0; i < 3; ++i) {
        Attribute a = w.at[symx_choose(3, "attr")];
        Variant   v = sym_val(a, i);
        w.c.begin(a, v);
        w.m_begin(a, v);
        if (i == 1)
            w.c.push_snapshot(ch.body(), SnapshotView());
    }
    Variant tv = Variant(cali_make_variant_from_int((int) symx_u32("t")));
    Entry   te(t, tv);
    recs.clear();
    w.c.push_snapshot(ch.body(), SnapshotView(te));
    FixedSizeSnapshotRecord<60> rec;
    w.c.pull_snapshot(ch.body(), SnapshotView(te), rec.builder());
    recs.push_back(std::vector<Entry>(rec.view().begin(), rec.view().end()));
    CHECK(recs.size() == 2, "annotations: a pushed snapshot is processed once");
    for (auto& r : recs) {
        SnapshotView v(r.size(), r.data());
        w.check_context(v);
        int nt = 0, nmm = 0;
        for (const Entry& e : r) {
            if (e.attribute() == t.id()) {
                ++nt;
                CHECK(e.value() == tv, "annotations: a snapshot has the trigger's values");
            }
            if (e.attribute() == m.id())
                ++nmm;
        }
        CHECK(nt == 1 && nmm == 1, "annotations: a snapshot has the trigger's and the measurement values once");
    }
    w.c.deactivate_channel(ch);
    symx_reach("snapshot");
}

// globals set through the C interface are reported unchanged, the last value counts
ENTRY(c09_globals)
{
    quiet();
    World  w;
    int    len = (int) symx_param("len", 2);
    SymStr s(0, len, "s");
    int    n = (int) symx_u32("n");
    uint64_t u = symx_u64("u");
    bool   twice = symx_choose(2, "twice");
    if (twice) {
        cali_set_global_string_byname("g.s", "before");
        cali_set_global_int_byname("g.i", 1);
    }
    cali_set_global_string_byname("g.s", s.p);
    cali_set_global_int_byname("g.i", n);
    cali_set_global_uint_byname("g.u", u);
    std::vector<Entry> g = w.c.get_globals();
    int found = 0;
    for (const Item& it : flatten(w.c, g)) {
        if (it.name == "g.s") {
            ++found;
            CHECK(it.val.type() == CALI_TYPE_STRING && it.val.to_string() == s.str(), "annotations: a global string is reported unchanged");
        } else if (it.name == "g.i") {
            ++found;
            CHECK(it.val == Variant(n), "annotations: a global integer is reported unchanged");
        } else if (it.name == "g.u") {
            ++found;
            CHECK(it.val == Variant(cali_make_variant_from_uint(u)), "annotations: a global number is reported unchanged");
        }
    }
    CHECK(found == 3, "annotations: each global is reported once");
    symx_reach("globals");
}
