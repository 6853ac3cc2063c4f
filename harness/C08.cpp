// C08: the blackboard is a map; snapshots show the entries marked for them
#include "hc.h"
#include "caliper/Blackboard.h"
#include "caliper/SnapshotRecord.h"

namespace
{

const int NK = 4;

struct Model {
    cali_id_t key[NK];
    bool      vis[NK];
    bool      has[NK];
    Entry     val[NK];
    int       n;
};

// key sets: neighbours and multiples of the table size collide or follow each other; also at the end of the table
const cali_id_t sets[][NK] = {
    { 5, 5 + 1021, 6, 5 + 2 * 1021 },       // three in one slot, one in the next
    { 1020, 1020 + 1021, 0, 1 + 1021 },     // wrap-around
    { 1019, 1020, 1019 + 1021, 1020 + 1021 },
    { 31, 31 + 1021, 32, 63 },              // table-of-contents word boundary
    { 1, 2, 1022, 1023 },
};

void compare(const Blackboard& bb, const Model& m)
{
    for (int i = 0; i < m.n; ++i) {
        Entry e = bb.get(m.key[i]);
        if (m.has[i])
            CHECK(e == m.val[i] && same_bits(e.value(), m.val[i].value()), "blackboard: lookup returns the stored value");
        else
            CHECK(e.empty(), "blackboard: lookup of a missing key returns nothing");
    }
    FixedSizeSnapshotRecord<16> rec;
    bb.snapshot(rec.builder());
    SnapshotView v = rec.view();
    size_t expect = 0;
    for (int i = 0; i < m.n; ++i) {
        int count = 0;
        for (const Entry& e : v)
            if (e.attribute() == m.val[i].attribute() && !e.empty())
                ++count;
        int want = m.has[i] && m.vis[i] ? 1 : 0;
        expect += want;
        CHECK(count == want, "blackboard: a snapshot has each visible entry once and no other");
        if (want && count)
            for (const Entry& e : v)
                if (e.attribute() == m.val[i].attribute())
                    CHECK(same_bits(e.value(), m.val[i].value()), "blackboard: a snapshot has the stored value");
    }
    CHECK(v.size() == expect, "blackboard: a snapshot has nothing but stored entries");
}

struct World {
    MiniDB     db;
    Attribute  a[NK];
    World()
    {
        Node* t = db.add(1, 9, Variant(CALI_TYPE_UINT));
        for (int i = 0; i < NK; ++i) {
            Node* p = db.add(30 + i, Attribute::PROP_ATTR_ID, Variant(CALI_ATTR_ASVALUE), t);
            a[i]    = Attribute::make_attribute(db.add(40 + i, Attribute::NAME_ATTR_ID, Variant("a"), p));
        }
    }
    Entry entry(int i, uint64_t u) { return Entry(a[i], Variant(cali_make_variant_from_uint(u))); }
};

void ops(const cali_id_t* keys, int nk, int nops, World& w)
{
    // static: large; one instance per path
    std::unique_ptr<Blackboard> bb(new Blackboard);
    Model m;
    m.n = nk;
    for (int i = 0; i < nk; ++i) {
        m.key[i] = keys[i];
        m.vis[i] = symx_choose(2, "visible") != 0;
        m.has[i] = false;
        m.val[i] = w.entry(i, 0);
    }
    for (int k = 0; k < nops; ++k) {
        int op = (int) symx_choose(3, "op"), i = (int) symx_choose(nk, "key");
        int before = bb->count();
        if (op == 0) {
            Entry e = w.entry(i, symx_u64("v"));
            bb->set(m.key[i], e, m.vis[i]);
            m.val[i] = e;
            m.has[i] = true;
            CHECK(bb->count() != before, "blackboard: an update changes the update count");
        } else if (op == 1) {
            Entry e = w.entry(i, symx_u64("x"));
            Entry o = bb->exchange(m.key[i], e, m.vis[i]);
            if (m.has[i])
                CHECK(same_bits(o.value(), m.val[i].value()), "blackboard: exchange returns the previous value");
            else
                CHECK(o.empty(), "blackboard: exchange returns nothing for a new key");
            m.val[i] = e;
            m.has[i] = true;
            CHECK(bb->count() != before, "blackboard: an update changes the update count");
        } else {
            bb->del(m.key[i]);
            if (m.has[i])
                CHECK(bb->count() != before, "blackboard: an update changes the update count");
            m.has[i] = false;
        }
    }
    compare(*bb, m);
}

} // namespace

ENTRY(c08_ops)
{
    World w;
    ops(sets[symx_choose(5, "set")], (int) symx_param("keys", 3), (int) symx_param("ops", 4), w);
    symx_reach("ops");
}

// fill with all keys, then delete and re-add in any order
ENTRY(c08_chain)
{
    World w;
    const cali_id_t* keys = sets[symx_choose(5, "set")];
    std::unique_ptr<Blackboard> bb(new Blackboard);
    Model m;
    m.n = NK;
    for (int i = 0; i < NK; ++i) {
        m.key[i] = keys[i];
        m.vis[i] = symx_choose(2, "visible") != 0;
        m.has[i] = true;
        m.val[i] = w.entry(i, symx_u64("v"));
        bb->set(m.key[i], m.val[i], m.vis[i]);
    }
    compare(*bb, m);
    for (int k = 0; k < (int) symx_param("dels", 2); ++k) {
        int i = (int) symx_choose(NK, "del");
        bb->del(m.key[i]);
        m.has[i] = false;
    }
    compare(*bb, m);
    int i = (int) symx_choose(NK, "re");
    m.val[i] = w.entry(i, symx_u64("n"));
    bb->set(m.key[i], m.val[i], m.vis[i]);
    m.has[i] = true;
    compare(*bb, m);
    symx_reach("chain");
}

// one key at any place of the table, with arbitrary key bits
ENTRY(c08_any_key)
{
    World w;
    std::unique_ptr<Blackboard> bb(new Blackboard);
    uint64_t slot = symx_range(0, 1020, "slot");
    slot = symx_param("stride", 40) == 1 ? symx_concretize(slot) : slot;
    if (symx_param("stride", 40) != 1) {
        symx_assume(slot % 31 == 0 || slot > 1016);
        slot = symx_concretize(slot);
    }
    cali_id_t k1 = slot, k2 = slot + 1021 * symx_range(1, symx_param("mult", 7), "mult");
    Entry e1 = w.entry(0, symx_u64("v1")), e2 = w.entry(1, symx_u64("v2"));
    bb->set(k1, e1, true);
    bb->set(k2, e2, true);
    CHECK(same_bits(bb->get(k1).value(), e1.value()) && same_bits(bb->get(k2).value(), e2.value()), "blackboard: colliding keys keep their values");
    bb->del(k1);
    CHECK(bb->get(k1).empty() && same_bits(bb->get(k2).value(), e2.value()), "blackboard: deletion keeps the other key");
    FixedSizeSnapshotRecord<4> rec;
    bb->snapshot(rec.builder());
    CHECK(rec.view().size() == 1 && same_bits(rec.view()[0].value(), e2.value()), "blackboard: snapshot after deletion");
    symx_reach("any");
}

// a full table rejects new keys and keeps the old ones
ENTRY(c08_full)
{
    World w;
    std::unique_ptr<Blackboard> bb(new Blackboard);
    uint64_t v = symx_u64("v");
    int      n = 0;
    uint64_t stride = symx_choose(2, "stride") ? 1 : 7;
    for (; n < 1100; ++n) {
        bb->set(3 + n * stride, w.entry(0, v + n), true);
        if (bb->num_skipped_entries() > 0)
            break;
    }
    CHECK(n < 1021, "blackboard: a full table reports skipped entries");
    CHECK(bb->get(3 + n * stride).empty(), "blackboard: a skipped entry is not stored");
    for (int i = 0; i < n; i += 97)
        CHECK(bits(bb->get(3 + i * stride).value()) == v + i, "blackboard: a full table keeps its entries");
    bb->set(3, w.entry(0, v + 1), true);
    CHECK(bits(bb->get(3).value()) == v + 1, "blackboard: a full table still takes updates");
    bb->del(3);
    bb->set(3 + n * stride, w.entry(0, v), true);
    CHECK(bits(bb->get(3 + n * stride).value()) == v, "blackboard: room is reused");
    symx_reach("full");
}
