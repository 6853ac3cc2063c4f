// C24: the interval tree behind allocation tracking
#include "hc.h"
#include "services/alloc/SplayTree.hpp"

namespace
{

struct Iv {
    uint64_t start, size, uid;
};

struct Cmp {
    int operator() (const Iv& a, const Iv& b) const { return a.start < b.start ? -1 : a.start == b.start ? 0 : 1; }
};

struct Contains {
    uint64_t a;
    int operator() (const Iv& i) const { return a < i.start ? -1 : a - i.start < i.size ? 0 : 1; }
};

struct Starts {
    uint64_t a;
    int operator() (const Iv& i) const { return a < i.start ? -1 : a == i.start ? 0 : 1; }
};

typedef cali::SplayTree<Iv, Cmp> Tree;

struct Model {
    Iv   iv[8];
    bool has[8];
    int  n = 0;
};

void disjoint(const Iv& a, const Model& m)
{
    for (int i = 0; i < m.n; ++i)
        symx_assume(!m.has[i] || a.start == m.iv[i].start || (a.start > m.iv[i].start ? a.start - m.iv[i].start >= m.iv[i].size : m.iv[i].start - a.start >= a.size));
}

void lookup(Tree& t, const Model& m, uint64_t a)
{
    auto r = t.find(Contains { a });
    uint64_t uid = 0;
    for (int i = 0; i < m.n; ++i)
        if (m.has[i])
            uid = symx_select((a - m.iv[i].start) < m.iv[i].size && a >= m.iv[i].start, m.iv[i].uid, uid);
    CHECK((r ? (*r).uid : 0) == uid, "allocation tree: lookup gives the allocation that contains the address");
}

void insert(Tree& t, Model& m, uint64_t hi)
{
    Iv v { symx_range(0, hi, "start"), symx_range(1, hi, "size"), (uint64_t) (m.n + 1) };
    disjoint(v, m);
    // tracking the same start again replaces the earlier entry
    for (int i = 0; i < m.n; ++i)
        if (m.has[i] && m.iv[i].start == v.start)
            m.has[i] = false;
    t.insert(v);
    m.iv[m.n]    = v;
    m.has[m.n++] = true;
}

void remove(Tree& t, Model& m, int k, bool any, uint64_t hi)
{
    uint64_t a = any ? symx_range(0, hi, "addr") : m.iv[k].start;
    auto r = t.find(Starts { a });
    bool want = false;
    for (int i = 0; i < m.n; ++i)
        if (m.has[i] && m.iv[i].start == a) {
            want     = true;
            m.has[i] = false;
            CHECK(r && (*r).uid == m.iv[i].uid, "allocation tree: an allocation is found by its start address");
        }
    CHECK(bool(r) == want, "allocation tree: only start addresses are found");
    if (r)
        t.remove(r);
}

} // namespace

// any history of insertions and removals in any address order
ENTRY(c24_history)
{
    Tree  t;
    Model m;
    int   n = (int) symx_param("ops", 5);
    for (int i = 0; i < n; ++i) {
        if (m.n == 0 || symx_choose(2, "op") == 0)
            insert(t, m, 255);
        else
            remove(t, m, (int) symx_choose(m.n, "which"), false, 0);
    }
    lookup(t, m, symx_range(0, 511, "query"));
    symx_reach("history");
}

// many insertions in any order, then removals of any of them
ENTRY(c24_many)
{
    Tree  t;
    Model m;
    int   n = (int) symx_param("n", 4);
    for (int i = 0; i < n; ++i)
        insert(t, m, 255);
    for (int i = 0; i < (int) symx_param("rm", 2); ++i)
        remove(t, m, (int) symx_choose(n, "which"), false, 0);
    lookup(t, m, symx_range(0, 511, "query"));
    symx_reach("many");
}

// removal of an arbitrary address
ENTRY(c24_remove_any)
{
    Tree  t;
    Model m;
    for (int i = 0; i < 3; ++i)
        insert(t, m, 0xffffull);
    remove(t, m, 0, true, 0x1ffff);
    lookup(t, m, symx_range(0, 0x1ffff, "query"));
    symx_reach("any");
}
