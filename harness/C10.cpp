// C10: the runtime context tree and its memory pool
#include "hc.h"
#include "caliper/MetadataTree.h"
#include "caliper/MemoryPool.h"
#include "common/RuntimeConfig.h"

using cali::internal::MetadataTree;

namespace
{

void setup(const char* pool = "60000", const char* npb = "256")
{
    RuntimeConfig cfg = RuntimeConfig::get_default_config();
    cfg.allow_read_env(false);
    cfg.preset("CALI_MEMORY_POOL_SIZE", pool);
    cfg.preset("CALI_CONTEXTTREE_NODES_PER_BLOCK", npb);
    cfg.preset("CALI_CONTEXTTREE_NUM_BLOCKS", "64");
}

// attributes that live outside of the tree under test
struct Attrs {
    MiniDB    db;
    Attribute s, i, u, b;
    static Attribute mk(MiniDB& db, int id, cali_attr_type t)
    {
        Node* tn = db.add(id, 9, Variant(t));
        Node* p  = db.add(id + 1, Attribute::PROP_ATTR_ID, Variant(CALI_ATTR_DEFAULT), tn);
        return Attribute::make_attribute(db.add(id + 2, Attribute::NAME_ATTR_ID, Variant("n"), p));
    }
    Attrs() : s(mk(db, 100000, CALI_TYPE_STRING)), i(mk(db, 200000, CALI_TYPE_INT)), u(mk(db, 300000, CALI_TYPE_UINT)), b(mk(db, 400000, CALI_TYPE_USR)) {}
};

struct PN {
    cali_id_t attr;
    Variant   val;
};

std::vector<PN> path_of(const Node* n, const MetadataTree& t)
{
    std::vector<PN> r;
    for (; n && n != t.root(); n = n->parent())
        r.insert(r.begin(), PN { n->attribute(), n->data() });
    return r;
}

bool same(const std::vector<PN>& a, const std::vector<PN>& b)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i].attr != b[i].attr || !(a[i].val == b[i].val))
            return false;
    return true;
}

void registered(const MetadataTree& t, const Node* n)
{
    for (; n && n != t.root(); n = n->parent())
        CHECK(t.node(n->id()) == n, "context tree: a node is found by its id");
}

} // namespace

// equal values share a node, different ones do not; the user's buffer is copied
ENTRY(c10_child)
{
    setup();
    Attrs        A;
    MetadataTree t;
    size_t       len = symx_param("len", 3);
    SymStr       a(0, len, "a", false), b(0, len, "b", false);
    Attribute    at = symx_choose(2, "type") ? A.s : A.b;
    cali_attr_type ty = at == A.s ? CALI_TYPE_STRING : CALI_TYPE_USR;
    std::string  ka = a.str(), kb = b.str();
    Node*        na = t.get_child(at, Variant(ty, a.p, a.n), nullptr);
    Node*        nb = t.get_child(at, Variant(ty, b.p, b.n), nullptr);
    CHECK(na && nb, "context tree: nodes are created");
    CHECK((na == nb) == (ka == kb), "context tree: equal values share a node");
    for (size_t i = 0; i < a.n; ++i)
        a.p[i] ^= 0x55;
    CHECK(na->data() == Variant(ty, ka.data(), ka.size()), "context tree: values are copied");
    if (ty == CALI_TYPE_STRING)
        CHECK(((const char*) na->data().data())[na->data().size()] == 0, "context tree: strings are terminated");
    CHECK(t.get_child(at, Variant(ty, kb.data(), kb.size()), nullptr) == nb, "context tree: building a path again gives the same node");
    CHECK(na->parent() == t.root() && na->attribute() == at.id(), "context tree: a node is below its parent");
    // the same value below another node or with another attribute is another node
    Node* nc = t.get_child(at, Variant(ty, kb.data(), kb.size()), na);
    CHECK(nc != nb && nc != na && nc->parent() == na, "context tree: paths of different depth differ");
    registered(t, nc);
    registered(t, nb);
    symx_reach("child");
}

ENTRY(c10_scalars)
{
    setup();
    Attrs        A;
    MetadataTree t;
    int          k = (int) symx_choose(7, "kind");
    Variant      x = sym_scalar(k, "x"), y = sym_scalar(k, "y");
    if (k == 2)
        symx_assume(x == x && y == y && bits(x) != 0x8000000000000000ull && bits(y) != 0x8000000000000000ull);
    Node*        nx = t.get_child(A.i, x, nullptr);
    Node*        ny = t.get_child(A.i, y, nullptr);
    Node*        nz = t.get_child(A.u, x, nullptr);
    CHECK((nx == ny) == same_bits(x, y), "context tree: equal values share a node");
    CHECK(nz != nx && nz != ny, "context tree: the same value of another attribute has its own node");
    CHECK(same_bits(nx->data(), x) && same_bits(ny->data(), y), "context tree: values are stored unchanged");
    CHECK(nx->id() != nz->id(), "context tree: ids are unique");
    symx_reach("scalars");
}

// paths of several values
ENTRY(c10_path)
{
    setup();
    Attrs        A;
    MetadataTree t;
    int          n = 1 + (int) symx_choose(3, "n"), m = 1 + (int) symx_choose(3, "m");
    SymStr       a(0, symx_param("len", 2), "a", false);
    bool         str = symx_choose(2, "str") != 0;
    Variant      v[3], w[3];
    Attribute    at = str ? A.s : A.u;
    for (int i = 0; i < 3; ++i) {
        if (str) {
            v[i] = i == 1 ? Variant(CALI_TYPE_STRING, a.p, a.n) : Variant("seven77");
            w[i] = i == 2 ? Variant(CALI_TYPE_STRING, a.p, a.n) : Variant("seven77");
        } else {
            v[i] = Variant(cali_make_variant_from_uint(symx_u8("v")));
            w[i] = Variant(cali_make_variant_from_uint(symx_u8("w")));
        }
    }
    std::vector<PN> pv, pw;
    for (int i = 0; i < n; ++i)
        pv.push_back({ at.id(), v[i] });
    for (int i = 0; i < m; ++i)
        pw.push_back({ at.id(), w[i] });
    Node* x = t.get_path(at, n, v, nullptr);
    Node* y = t.get_path(at, m, w, nullptr);
    CHECK(same(path_of(x, t), pv) && same(path_of(y, t), pw), "context tree: a path has the given values from the root down");
    CHECK((x == y) == same(pv, pw), "context tree: equal paths share a node");
    Node* z = nullptr;
    for (int i = 0; i < n; ++i)
        z = t.get_child(at, v[i], z);
    CHECK(z == x, "context tree: one step at a time gives the same path");
    // copying a list of nodes
    const Node* list[3] = { y, nullptr, x };
    Node* q = t.get_path(3, list, nullptr);
    CHECK(q->data() == x->data() && q->parent() == t.get_child(at, y->data(), nullptr), "context tree: a path from a list of nodes has their values");
    registered(t, x);
    registered(t, q);
    symx_reach("path");
}

// the values of a path of strings survive later ones
ENTRY(c10_strings)
{
    setup();
    Attrs        A;
    MetadataTree t;
    char         buf[4][16];
    Variant      v[4];
    int          n = 1 + (int) symx_choose(3, "n");
    unsigned char x = symx_u8("x");
    for (int i = 0; i < 4; ++i) {
        // sizes matter modulo the alignment
        int len = i < n || i == 3 ? (int) symx_choose(9, "len") : 0;
        if (i == 1 && n == 3)
            len = len * 5 % 9;
        memset(buf[i], 'a' + i, sizeof(buf[i]));
        if (len)
            buf[i][len - 1] = (char) (x ^ i);
        v[i] = Variant(CALI_TYPE_STRING, buf[i], len);
    }
    Node* p = t.get_path(A.s, n, v, nullptr);
    Node* q = t.get_path(A.s, 1, v + 3, p);
    for (Node* m = q; m != t.root(); m = m->parent())
        CHECK(((const char*) m->data().data())[m->data().size()] == 0, "context tree: strings are terminated");
    std::vector<PN> want;
    for (int i = 0; i < n; ++i)
        want.push_back({ A.s.id(), v[i] });
    want.push_back({ A.s.id(), v[3] });
    CHECK(same(path_of(q, t), want), "context tree: a path has the given values from the root down");
    symx_reach("strings");
}

// removing and replacing entries of a path
ENTRY(c10_edit)
{
    setup();
    Attrs        A;
    MetadataTree t;
    Attribute    at[3] = { Attrs::mk(A.db, 500000, CALI_TYPE_UINT), A.u, Attrs::mk(A.db, 600000, CALI_TYPE_UINT) };
    int          n = (int) symx_choose(symx_param("depth", 3) + 1, "depth");
    std::vector<PN> p;
    Node*        node = nullptr;
    for (int i = 0; i < n; ++i) {
        int     k = (int) symx_choose(2, "attr");
        Variant v(cali_make_variant_from_uint(symx_range(0, 3, "v")));
        node = t.get_child(at[k], v, node);
        p.push_back({ at[k].id(), v });
    }
    if (!n)
        node = nullptr;
    std::vector<PN> e = p;
    int   op = (int) symx_choose(3, "op"), k = (int) symx_choose(3, "which");
    Node* r;
    Variant nv[2] = { Variant(cali_make_variant_from_uint(symx_range(0, 3, "n0"))), Variant(cali_make_variant_from_uint(symx_range(0, 3, "n1"))) };
    auto remove_last = [&]() {
        for (size_t i = e.size(); i-- > 0;)
            if (e[i].attr == at[k].id()) {
                e.erase(e.begin() + i);
                return;
            }
    };
    if (op == 0) {
        if (!n)
            return;
        r = t.remove_first_in_path(node, at[k]);
        remove_last();
    } else if (op == 1) {
        r = t.replace_first_in_path(node, at[k], nv[0]);
        remove_last();
        e.push_back({ at[k].id(), nv[0] });
    } else {
        if (!n)
            return;
        r = t.replace_all_in_path(node, at[k], 2, nv);
        for (size_t i = e.size(); i-- > 0;)
            if (e[i].attr == at[k].id())
                e.erase(e.begin() + i);
        e.push_back({ at[k].id(), nv[0] });
        e.push_back({ at[k].id(), nv[1] });
    }
    CHECK(same(path_of(r, t), e), "context tree: the edited path has the other entries in order and the new ones at the end");
    CHECK(same(path_of(node, t), p), "context tree: the original path is unchanged");
    Node* again = t.root();
    for (auto& x : e)
        again = t.get_child(x.attr == at[0].id() ? at[0] : x.attr == at[1].id() ? at[1] : at[2], x.val, again);
    CHECK(again == r, "context tree: the edited path is the one that is built directly");
    registered(t, r);
    symx_reach("edit");
}

// many nodes: blocks fill up, ids stay unique, nodes stay intact
ENTRY(c10_blocks)
{
    static const char* npb[] = { "256", "16", "12", "1", "0", "17" };
    setup("60000", npb[symx_choose(6, "npb")]);
    Attrs        A;
    MetadataTree t;
    uint64_t     base = symx_range(0, 1000, "base");
    int          n = (int) symx_param("n", 40);
    std::vector<Node*> nodes;
    std::vector<std::pair<Node*, uint64_t>> below;
    for (int i = 0; i < n; ++i) {
        Node* x;
        if (i % 5 == 4 || i % 5 == 1) {
            Variant v[3] = { Variant(cali_make_variant_from_uint(base + i)), Variant(cali_make_variant_from_uint(base + i + 2000)), Variant(cali_make_variant_from_uint(base + i + 4000)) };
            int     len  = i % 5 == 4 ? 3 : 2;
            x = t.get_path(A.u, len, v, nullptr);
            for (; x && len > 1; x = x->parent())
                below.push_back({ x, base + i + 2000 * --len });
        } else
            x = t.get_child(A.u, Variant(cali_make_variant_from_uint(base + i)), nullptr);
        CHECK(x, "context tree: nodes are created");
        nodes.push_back(x);
    }
    for (int i = 0; i < n; ++i) {
        CHECK(bits(nodes[i]->data()) == base + i && nodes[i]->parent() == t.root(), "context tree: nodes keep their values");
        CHECK(t.node(nodes[i]->id()) == nodes[i], "context tree: a node is found by its id");
        CHECK(t.get_child(A.u, Variant(cali_make_variant_from_uint(base + i)), nullptr) == nodes[i], "context tree: building a path again gives the same node");
    }
    for (auto& b : below) {
        CHECK(bits(b.first->data()) == b.second, "context tree: nodes keep their values");
        CHECK(t.node(b.first->id()) == b.first, "context tree: a node is found by its id");
    }
    for (int i = 0; i < 12; ++i)
        CHECK(t.node(i)->id() == (cali_id_t) i, "context tree: the built-in nodes stay intact");
    CHECK(t.node(100000) == nullptr, "context tree: an unknown id gives nothing");
    symx_reach("blocks");
}

// memory pool: regions are valid, aligned, disjoint and zero
ENTRY(c10_pool)
{
    setup("100");
    MemoryPool pool;
    static const uint64_t base[] = { 0, 64, 65510, 65529, 131056 };
    struct R { unsigned char* p; size_t n, a; } r[4];
    int k = (int) symx_param("n", 3);
    for (int i = 0; i < k; ++i) {
        r[i].n = base[symx_choose(i ? 5 : 4, "size")] + symx_concretize(symx_range(0, symx_param("delta", 7), "d"));
        r[i].a = 1ull << (3 * symx_choose(2, "align"));
        r[i].p = (unsigned char*) (r[i].a == 1 ? pool.allocate(r[i].n) : pool.allocate(r[i].n, r[i].a));
        CHECK(r[i].p, "pool: an expandable pool always delivers");
        CHECK((uintptr_t) r[i].p % r[i].a == 0, "pool: aligned");
        if (r[i].n) {
            CHECK(r[i].p[0] == 0 && r[i].p[r[i].n - 1] == 0, "pool: memory is zero");
            r[i].p[0] = r[i].p[r[i].n - 1] = (unsigned char) (i + 1);
        }
        for (int j = 0; j < i; ++j)
            CHECK(r[j].p + r[j].n <= r[i].p || r[i].p + r[i].n <= r[j].p, "pool: regions do not overlap");
    }
    MemoryPool other;
    pool.merge(other);
    for (int i = 0; i < k; ++i)
        if (r[i].n)
            CHECK(r[i].p[0] == i + 1 && r[i].p[r[i].n - 1] == i + 1, "pool: contents survive later allocations and merges");
    symx_reach("pool");
}
