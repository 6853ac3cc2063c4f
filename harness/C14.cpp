// C14: query aggregation equals its definition over the records of each group
#include "rec.h"
#include "caliper/reader/Aggregator.h"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/QuerySpec.h"
#include <algorithm>

struct Db {
    CaliperMetadataDB db;
    Attribute         region, tag, mode, it, x, y;
    explicit Db(int fill = 0)
    {
        // other attributes and values first, so that ids differ
        for (int i = 0; i < fill; ++i) {
            Attribute a = db.create_attribute(nm("fill", i), CALI_TYPE_INT, CALI_ATTR_DEFAULT);
            Variant   v(cali_make_variant_from_int(i));
            db.make_tree_entry(1, &a, &v);
        }
        if (fill & 1)
            tag = db.create_attribute("tag", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
        region = db.create_attribute("region", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        tag    = db.create_attribute("tag", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
        mode   = db.create_attribute("mode", CALI_TYPE_INT, CALI_ATTR_DEFAULT);
        it     = db.create_attribute("it", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    }
    void metrics(cali_attr_type tx, cali_attr_type ty)
    {
        x = db.create_attribute("x", tx, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
        y = db.create_attribute("y", ty, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
    }
    // context paths
    Node* path(int form)
    {
        Attribute as[3];
        Variant   vs[3];
        int       n   = 0;
        auto      add = [&](const Attribute& a, const Variant& v) { as[n] = a; vs[n] = v; ++n; };
        Variant   m(cali_make_variant_from_int(1));
        switch (form) {
        case 1: add(region, Variant("a")); break;
        case 2: add(region, Variant("a")); add(region, Variant("b")); break;
        case 3: add(region, Variant("a")); add(tag, Variant("t")); add(region, Variant("b")); break;
        case 4: add(tag, Variant("t")); add(mode, m); add(region, Variant("a")); break;
        case 5: add(mode, m); add(tag, Variant("t")); add(region, Variant("a")); break;
        case 6: add(tag, Variant("t")); add(tag, Variant("u")); break;
        case 7: add(region, Variant("a")); add(region, Variant("a")); break;
        default: return nullptr;
        }
        return db.make_tree_entry(n, as, vs);
    }
};

// what a record contributes
struct R {
    int     form;
    bool    hasx, hasy, hasit;
    Variant x, y, it;
    std::vector<Entry> rec;
};

static R make_rec(Db& d, int form, const Variant& x, const Variant& y, const Variant& it)
{
    R r { form, !x.empty(), !y.empty(), !it.empty(), x, y, it, {} };
    if (Node* n = d.path(form))
        r.rec.push_back(Entry(n));
    if (r.hasit)
        r.rec.push_back(Entry(d.it, it));
    if (r.hasx)
        r.rec.push_back(Entry(d.x, x));
    if (r.hasy)
        r.rec.push_back(Entry(d.y, y));
    return r;
}

// group-by clauses: which attributes are part of the key
struct G {
    const char* text;
    bool        region, tag, mode, it;
};
static const G groups[] = {
    { " GROUP BY tag,mode,region", true, true, true, false },
    { " GROUP BY path", true, false, false, false },
    { " GROUP BY region", true, false, false, false },
    { " GROUP BY tag,mode", false, true, true, false },
    { " GROUP BY it,path", true, false, false, true },
    { " GROUP BY it,tag", false, true, false, true },
    { " GROUP BY none", false, false, false, false },
    { "", true, true, true, false }, // here, the order of context values matters
};

// the key of a group
struct Key {
    std::string path, tags; // nested regions from the root down; other context values in canonical order
    bool        hasit = false;
    Variant     it;
    bool operator== (const Key& k) const { return path == k.path && tags == k.tags && hasit == k.hasit && (!hasit || it == k.it); }
};

static Key key_of(const R& r, const G& g)
{
    static const char* paths[] = { "", "/a", "/a/b", "/a/b", "/a", "/a", "", "/a/a" };
    static const char* ts[]    = { "", "", "", "t,", "t,", "t,", "t,u,", "" };
    static const char* ms[]    = { "", "", "", "", "1;", "1;", "", "" };
    Key k;
    if (g.region)
        k.path = paths[r.form];
    if (g.tag)
        k.tags += ts[r.form];
    if (g.mode)
        k.tags += ms[r.form];
    if (g.it && r.hasit) {
        k.hasit = true;
        k.it    = r.it;
    }
    return k;
}

// the key of an output record
static Key key_out(Db& d, const std::vector<Entry>& rec)
{
    Key         k;
    std::string t, m;
    for (const Entry& e : rec) {
        if (e.is_reference()) {
            for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) {
                std::string s = n->data().to_string();
                if (n->attribute() == d.region.id())
                    k.path = "/" + s + k.path;
                else if (n->attribute() == d.tag.id())
                    t = s + "," + t;
                else
                    m = s + ";" + m;
            }
        } else if (e.attribute() == d.it.id()) {
            k.hasit = true;
            k.it    = e.value();
        }
    }
    k.tags = t + m;
    return k;
}

static bool below(const std::string& p, const std::string& of)
{
    return p.compare(0, of.size(), of) == 0 && (p.size() == of.size() || p[of.size()] == '/');
}

typedef std::vector<std::vector<Entry>> Out;

static Out run(Db& d, const std::string& q, const std::vector<const std::vector<Entry>*>& recs)
{
    CalQLParser p(q.c_str());
    CHECK(!p.error(), "query is accepted");
    Aggregator a(p.spec());
    for (auto* r : recs)
        a.add(d.db, *r);
    Out out;
    a.flush(d.db, [&](CaliperMetadataAccessInterface&, const EntryList& l) { out.push_back(l); });
    return out;
}

static Variant get(Db& d, const std::vector<Entry>& rec, const std::string& name, int* n = nullptr)
{
    Variant   v;
    int       c = 0;
    Attribute a = d.db.get_attribute(name);
    if (a)
        for (const Entry& e : rec)
            if (e.is_immediate() && e.attribute() == a.id()) {
                v = e.value();
                ++c;
            }
    CHECK(c <= 1, "a result appears once");
    if (n)
        *n = c;
    return v;
}

// ---- definitions of the operators

typedef std::vector<const R*> Rs;

static Variant sum(const Rs& rs, bool y)
{
    Variant s;
    for (auto* r : rs)
        if (y ? r->hasy : r->hasx) {
            const Variant& v = y ? r->y : r->x;
            if (s.empty())
                s = v;
            else if (v.type() == CALI_TYPE_INT)
                s = Variant(cali_make_variant_from_int64(s.to_int64() + v.to_int64()));
            else if (v.type() == CALI_TYPE_UINT)
                s = Variant(cali_make_variant_from_uint(s.to_uint() + v.to_uint()));
            else
                s = Variant(s.to_double() + v.to_double());
        }
    return s;
}

static Variant ext(const Rs& rs, bool max)
{
    const R* f = nullptr;
    for (auto* r : rs)
        if (r->hasx) {
            f = r;
            break;
        }
    if (!f)
        return Variant();
    if (f->x.type() == CALI_TYPE_DOUBLE) {
        double m = f->x.to_double();
        for (auto* r : rs)
            if (r->hasx) {
                double v = r->x.to_double();
                m        = (max ? v > m : v < m) ? v : m;
            }
        return Variant(m);
    }
    uint64_t flip = f->x.type() == CALI_TYPE_INT ? 1ull << 63 : 0; // signed order
    uint64_t m    = bits(f->x) ^ flip;
    for (auto* r : rs)
        if (r->hasx) {
            uint64_t v = bits(r->x) ^ flip;
            m          = (max ? v > m : v < m) ? v : m;
        }
    m ^= flip;
    return flip ? Variant(cali_make_variant_from_int64((int64_t) m)) : Variant(cali_make_variant_from_uint(m));
}

static bool eqv(const Variant& a, const Variant& b)
{
    if (a.type() == CALI_TYPE_DOUBLE && b.type() == CALI_TYPE_DOUBLE)
        return a.to_double() == b.to_double();
    return (a.type() == b.type()) & (bits(a) == bits(b));
}

// kernel index, text, result name
struct K {
    const char *text, *name;
};
static const K kernels[] = {
    { "count()", "count" },
    { "sum(x)", "sum#x" },
    { "min(x)", "min#x" },
    { "max(x)", "max#x" },
    { "avg(x)", "avg#x" },
    { "any(x)", "any#x" },
    { "scale(x,2)", "scale#x" },
    { "scale_count(0.5)", "scount" },
    { "ratio(x,y,3)", "ratio#x/y" },
    { "percent_total(x)", "percent_total#x" },
    { "variance(x)", "variance#x" },
    { "inclusive_sum(x)", "inclusive#x" },
    { "inclusive_scale(x,2)", "iscale#x" },
    { "inclusive_min(x)", "imin#x" },
    { "inclusive_max(x)", "imax#x" },
    { "inclusive_ratio(x,y)", "iratio#x/y" },
    { "inclusive_percent_total(x)", "ipercent_total#x" },
};
static const int NK = sizeof(kernels) / sizeof(kernels[0]);

typedef std::vector<int> Ks;

static std::string query(const Ks& ks, const G& g)
{
    std::string q = "AGGREGATE ";
    for (int i : ks)
        q += (i != ks[0] ? "," : "") + std::string(kernels[i].text);
    return q + g.text;
}

static void check_result(int k, const Variant& v, bool have, const Rs& own, const Rs& incl, const Rs& all, size_t nrec)
{
    Variant s = sum(own, false), is = sum(incl, false), sy = sum(own, true), isy = sum(incl, true);
    uint64_t nx = 0;
    for (auto* r : own)
        nx += r->hasx;
    double tot = sum(all, false).to_double();
    switch (k) {
    case 0: CHECK((have || nrec == 0) && (!have || v.to_uint() == nrec), "count: number of records"); break;
    case 1: CHECK(have == !s.empty() && (!have || eqv(v, s)), "sum: sum of the values"); break;
    case 2: CHECK(have == !s.empty() && (!have || eqv(v, ext(own, false))), "min: smallest value"); break;
    case 3: CHECK(have == !s.empty() && (!have || eqv(v, ext(own, true))), "max: largest value"); break;
    case 4: {
        CHECK(have == (nx > 0), "avg: exists if there is a value");
        if (!have)
            break;
        if (s.type() == CALI_TYPE_DOUBLE)
            CHECK(v.to_double() == s.to_double() / (double) nx, "avg: sum divided by number of values");
        else if (s.type() == CALI_TYPE_INT)
            CHECK(v.type() == CALI_TYPE_INT && v.to_int64() == s.to_int64() / (int64_t) nx, "avg: sum divided by number of values");
        else
            CHECK(v.to_uint() == s.to_uint() / nx, "avg: sum divided by number of values");
        break;
    }
    case 5: {
        CHECK(have == (nx > 0), "any: exists if there is a value");
        bool any = !have;
        for (auto* r : own)
            any |= r->hasx && eqv(v, r->x);
        CHECK(any, "any: one of the values");
        break;
    }
    case 6: CHECK(have == !s.empty() && (!have || v.to_double() == 2.0 * s.to_double()), "scale: scaled sum"); break;
    case 7: CHECK((have || nrec == 0) && (!have || v.to_double() == 0.5 * (double) nrec), "scale_count: scaled count"); break;
    case 8: CHECK(have == (!s.empty() && !sy.empty()) && (!have || v.to_double() == 3.0 * s.to_double() / sy.to_double()), "ratio: ratio of sums"); break;
    case 9: CHECK(have == (!s.empty() && tot > 0.0) && (!have || v.to_double() == 100.0 * s.to_double() / tot), "percent_total: share of the total"); break;
    case 10: {
        CHECK(have == (nx > 0), "variance: exists if there is a value");
        if (!have)
            break;
        double a = 0.0, q = 0.0;
        for (auto* r : own)
            if (r->hasx) {
                a += r->x.to_double();
                q += r->x.to_double() * r->x.to_double();
            }
        CHECK(v.to_double() == q / nx - (a / nx) * (a / nx), "variance: mean of squares minus square of mean");
        break;
    }
    case 11: CHECK(have == !is.empty() && (!have || eqv(v, is)), "inclusive_sum: sum over the region and the regions in it"); break;
    case 12: CHECK(have == !is.empty() && (!have || v.to_double() == 2.0 * is.to_double()), "inclusive_scale: scaled inclusive sum"); break;
    case 13: CHECK(have == !is.empty() && (!have || eqv(v, ext(incl, false))), "inclusive_min: smallest value in the region"); break;
    case 14: CHECK(have == !is.empty() && (!have || eqv(v, ext(incl, true))), "inclusive_max: largest value in the region"); break;
    case 15: CHECK(have == (!is.empty() && !isy.empty()) && (!have || v.to_double() == 1.0 * is.to_double() / isy.to_double()), "inclusive_ratio: ratio of inclusive sums"); break;
    case 16: CHECK(have == (!is.empty() && tot > 0.0) && (!have || v.to_double() == 100.0 * is.to_double() / tot), "inclusive_percent_total: share of the total"); break;
    }
}

static void check_all(Db& d, const Out& out, const std::vector<R>& rs, const G& g, const Ks& ks)
{
    std::vector<Key> want; // groups of records
    Rs               all;
    for (const R& r : rs) {
        Key k = key_of(r, g);
        if (std::find(want.begin(), want.end(), k) == want.end())
            want.push_back(k);
        all.push_back(&r);
    }
    std::vector<Key> got;
    for (auto& o : out) {
        Key k = key_out(d, o);
        CHECK(std::find(got.begin(), got.end(), k) == got.end(), "one result per group");
        got.push_back(k);
        Rs own, incl;
        for (const R& r : rs) {
            Key rk = key_of(r, g);
            if (rk == k)
                own.push_back(&r);
            Key up = rk;
            up.path = k.path;
            if (up == k && below(rk.path, k.path) && (!k.path.empty() || rk.path.empty()))
                incl.push_back(&r);
        }
        CHECK(own.size() > 0 || incl.size() > 0, "every result belongs to a group of records");
        for (int i : ks) {
            int     n = 0;
            Variant v = get(d, o, kernels[i].name, &n);
            check_result(i, v, n > 0, own, incl, all, own.size());
        }
        for (const Entry& e : o)
            CHECK(!e.empty() && (e.is_reference() || !e.value().empty()), "results have values");
    }
    for (auto& k : want)
        CHECK(std::find(got.begin(), got.end(), k) != got.end(), "every group has a result");
}

// type 0: any int64, 1: any uint64, 2: small numbers for operators that compute with doubles
static Variant sym_metric(int t, const char* n)
{
    if (t == 2)
        return Variant(cali_make_variant_from_uint(symx_u8(n) & 15));
    if (t == 0)
        return Variant(cali_make_variant_from_int64((int64_t) symx_u64(n)));
    return Variant(cali_make_variant_from_uint(symx_u64(n)));
}

static std::vector<const std::vector<Entry>*> refs(const std::vector<R>& rs, size_t lo, size_t hi)
{
    std::vector<const std::vector<Entry>*> v;
    for (size_t i = lo; i < hi; ++i)
        v.push_back(&rs[i].rec);
    return v;
}

static std::vector<R> sym_recs(Db& d, int n, int forms, int t, const G& g, bool full)
{
    std::vector<R> rs;
    for (int i = 0; i < n; ++i) {
        int     f  = (int) symx_choose(forms, nm("form", i));
        if (!g.text[0] && f == 5)
            f = 4;
        int     h  = full ? (int) symx_choose(3, nm("has", i)) : 0;
        Variant x  = h == 1 ? Variant() : sym_metric(t, nm("x", i));
        Variant y  = h == 2 ? Variant() : t == 2 ? Variant(cali_make_variant_from_uint(1 + (symx_u8(nm("y", i)) & 7))) : sym_metric(1, nm("y", i));
        Variant it = g.it && (!full || i > 0) ? Variant(cali_make_variant_from_int64((int64_t) symx_range(0, 3, nm("it", i)))) : Variant();
        rs.push_back(make_rec(d, f, x, y, it));
    }
    return rs;
}

static int sym_type(Db& d, int n)
{
    int t = (int) symx_choose(n, "type");
    d.metrics(t ? CALI_TYPE_UINT : CALI_TYPE_INT, CALI_TYPE_UINT);
    return t;
}

// every operator over every grouping
ENTRY(c14_ops)
{
    Db             d;
    int            t  = sym_type(d, 2);
    const G&       g  = groups[symx_choose(sizeof(groups) / sizeof(groups[0]), "group")];
    std::vector<R> rs = sym_recs(d, (int) symx_param("recs", 2), 8, t, g, true);
    Ks             ks { 0, 1, 2, 3, 4, 5 };
    check_all(d, run(d, query(ks, g), refs(rs, 0, rs.size())), rs, g, ks);
    symx_reach("ops");
}

// inclusive operators
ENTRY(c14_inclusive)
{
    Db             d;
    int            t  = sym_type(d, 2);
    const G        g  = groups[symx_choose(5, "group")];
    std::vector<R> rs = sym_recs(d, (int) symx_param("recs", 2), 8, t, g, true);
    Ks             ks { 11, 13, 14 };
    check_all(d, run(d, query(ks, g), refs(rs, 0, rs.size())), rs, g, ks);
    symx_reach("inclusive");
}

// operators that compute with doubles
ENTRY(c14_fp)
{
    Db d;
    d.metrics(CALI_TYPE_UINT, CALI_TYPE_UINT);
    static const int gs[] = { 1, 3 };
    const G          g    = groups[gs[symx_choose(2, "group")]];
    std::vector<R>   rs   = sym_recs(d, (int) symx_param("recs", 2), 4, 2, g, true);
    Ks               ks;
    if (symx_choose(2, "part"))
        ks = { 6, 7, 8, 9, 10 };
    else
        ks = { 12, 15, 16 };
    check_all(d, run(d, query(ks, g), refs(rs, 0, rs.size())), rs, g, ks);
    symx_reach("fp");
}

// the same with large values
ENTRY(c14_fp_large)
{
    Db d;
    d.metrics(CALI_TYPE_UINT, CALI_TYPE_UINT);
    static const uint64_t vs[] = { 3, 5000000000ull, 1ull << 45, 0 };
    const G          g    = groups[symx_choose(2, "group") ? 2 : 1];
    std::vector<R>   rs;
    for (int i = 0; i < (int) symx_param("recs", 3); ++i)
        rs.push_back(make_rec(d, 1 + (int) symx_choose(2, nm("form", i)), Variant(cali_make_variant_from_uint(vs[symx_choose(i ? 4 : 2, nm("x", i))])), Variant(cali_make_variant_from_uint(vs[i ? 1 : 1 - symx_choose(2, nm("y", i))])), Variant()));
    Ks ks { 6, 7, 8, 9, 12, 15, 16 };
    check_all(d, run(d, query(ks, g), refs(rs, 0, rs.size())), rs, g, ks);
    symx_reach("large");
}

// the order of values in a record does not matter for its group
ENTRY(c14_key_order)
{
    Db d;
    d.metrics(CALI_TYPE_INT, CALI_TYPE_UINT);
    Attribute it2 = d.db.create_attribute("it2", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    bool      two = symx_choose(2, "groupby") != 0;
    struct K { int64_t a, b; uint64_t n; };
    std::vector<K> want;
    std::vector<std::vector<Entry>> recs;
    for (int i = 0; i < (int) symx_param("recs", 3); ++i) {
        K k { (int64_t) symx_range(0, 1, nm("a", i)), (int64_t) symx_range(0, 1, nm("b", i)), 1 };
        Entry ea(d.it, Variant(cali_make_variant_from_int64(k.a))), eb(it2, Variant(cali_make_variant_from_int64(k.b))), r(d.path(1)), x(d.x, Variant(cali_make_variant_from_int64(1)));
        switch (symx_choose(4, nm("order", i))) {
        case 0: recs.push_back({ ea, eb, x, r }); break;
        case 1: recs.push_back({ r, eb, ea, x }); break;
        case 2: recs.push_back({ x, eb, r, ea }); break;
        case 3: recs.push_back({ ea, r, x, eb }); break;
        }
        bool found = false;
        for (K& w : want)
            if (w.a == k.a && w.b == k.b) {
                ++w.n;
                found = true;
            }
        if (!found)
            want.push_back(k);
    }
    std::vector<const std::vector<Entry>*> l;
    for (auto& r : recs)
        l.push_back(&r);
    Out o = run(d, two ? "AGGREGATE count() GROUP BY it,it2,region" : "AGGREGATE count() GROUP BY it2,it", l);
    CHECK(o.size() == want.size(), "one result per group");
    for (const K& w : want) {
        int found = 0;
        for (auto& r : o)
            if (get(d, r, "it").to_int64() == w.a && get(d, r, "it2").to_int64() == w.b) {
                ++found;
                CHECK(get(d, r, "count").to_uint() == w.n, "every record is counted in its group");
            }
        CHECK(found == 1, "every group has a result");
    }
    symx_reach("order");
}

// doubles: sums are taken in the order of the records
ENTRY(c14_doubles)
{
    Db d;
    d.metrics(CALI_TYPE_DOUBLE, CALI_TYPE_DOUBLE);
    const G        g = groups[2];
    std::vector<R> rs;
    int            n = (int) symx_param("recs", 3);
    for (int i = 0; i < n; ++i) {
        double x = (double) (int32_t) symx_u32(nm("x", i)) * 0.125;
        rs.push_back(make_rec(d, 1 + (int) symx_choose(2, nm("form", i)), Variant(x), Variant(2.0), Variant()));
    }
    Ks ks { 1, 2, 3, 4 };
    if (symx_choose(2, "kernel"))
        ks = { 10 };
    check_all(d, run(d, query(ks, g), refs(rs, 0, rs.size())), rs, g, ks);
    symx_reach("doubles");
}

// aggregate two parts, then aggregate the results
static void split(Db& d, const std::vector<R>& rs, const G& g, const Ks& ks)
{
    size_t      at = 1 + symx_choose(rs.size() - 1, "split");
    bool        in = symx_choose(2, "into"); // the second part's results go into the first part's database
    std::string q  = query(ks, g);
    Out         b  = run(d, q, refs(rs, at, rs.size())), a;
    std::vector<const std::vector<Entry>*> all;
    if (in) {
        all = refs(rs, 0, at);
    } else {
        a = run(d, q, refs(rs, 0, at));
        for (auto& r : a)
            all.push_back(&r);
    }
    for (auto& r : b)
        all.push_back(&r);
    check_all(d, run(d, q, all), rs, g, ks);
    symx_reach("split");
}

ENTRY(c14_split)
{
    Db               d;
    int              t    = sym_type(d, 2);
    static const int gs[] = { 0, 1, 3, 4 };
    const G          g    = groups[gs[symx_choose(4, "group")]];
    split(d, sym_recs(d, (int) symx_param("recs", 2), (int) symx_param("forms", 6), t, g, false), g, { 0, 1, 2, 3, 4, 5, 11, 13, 14 });
}

ENTRY(c14_split_fp)
{
    Db d;
    d.metrics(CALI_TYPE_UINT, CALI_TYPE_UINT);
    static const int gs[] = { 1, 3 };
    const G          g    = groups[gs[symx_choose(2, "group")]];
    Ks               ks { 6, 7, 8, 9 };
    if (symx_choose(2, "part"))
        ks = { 12, 15, 16 };
    split(d, sym_recs(d, (int) symx_param("recs", 2), (int) symx_param("forms", 4), 2, g, true), g, ks);
}

// the same with operators that compute with doubles, on a few exact values
ENTRY(c14_split_stat)
{
    Db d;
    d.metrics(CALI_TYPE_DOUBLE, CALI_TYPE_DOUBLE);
    const G              g    = groups[2];
    static const double  vs[] = { 0.0, 1.0, -2.5, 1024.0 };
    std::vector<R>       rs;
    for (int i = 0; i < 4; ++i)
        rs.push_back(make_rec(d, 1 + (int) symx_choose(2, nm("form", i)), i == 2 ? Variant() : Variant(vs[symx_choose(i == 1 ? 4 : 2, nm("x", i))]), Variant(2.0), Variant()));
    Ks ks { 1, 2, 3, 4 };
    if (symx_choose(2, "kernel"))
        ks = { 10 };
    split(d, rs, g, ks);
}

// partial counts of any size
ENTRY(c14_partial_counts)
{
    Db d;
    d.metrics(CALI_TYPE_INT, CALI_TYPE_UINT);
    int       p  = CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE | CALI_ATTR_SKIP_EVENTS;
    Attribute c  = d.db.create_attribute("count", CALI_TYPE_UINT, p);
    Attribute ac = d.db.create_attribute("avg.count#x", CALI_TYPE_UINT, p);
    Attribute as = d.db.create_attribute("avg.sum#x", CALI_TYPE_INT, p);
    static const uint64_t ns[] = { 1, 2, (1ull << 31), (1ull << 32) - 1, (1ull << 32), (1ull << 32) + 3, 1ull << 40 };
    uint64_t  n  = ns[symx_choose(7, "count")], m = ns[symx_choose(7, "count2")];
    int64_t   s  = (int64_t) symx_range(0, 1000000, "sum") << 20;
    std::vector<Entry> r1 { Entry(c, Variant(cali_make_variant_from_uint(n))), Entry(ac, Variant(cali_make_variant_from_uint(n))), Entry(as, Variant(cali_make_variant_from_int64(s))) };
    std::vector<Entry> r2 { Entry(c, Variant(cali_make_variant_from_uint(m))), Entry(ac, Variant(cali_make_variant_from_uint(m))), Entry(as, Variant(cali_make_variant_from_int64(7))) };
    Out o = run(d, "AGGREGATE count(),avg(x) GROUP BY none", { &r1, &r2 });
    CHECK(o.size() == 1, "one result");
    CHECK(get(d, o[0], "count").to_uint() == n + m, "counts add up");
    CHECK(get(d, o[0], "avg.count#x").to_uint() == n + m, "counts add up");
    CHECK((uint64_t) get(d, o[0], "avg#x").to_int64() == (uint64_t) (s + 7) / (n + m), "average of combined parts");
    symx_reach("partial");
}

// operator arguments that are not numbers
ENTRY(c14_bad_args)
{
    static const char* qs[] = { "AGGREGATE scale(x,abc)", "AGGREGATE ratio(x,y,z)", "AGGREGATE scale_count(x)", "AGGREGATE inclusive_scale(x,1e999)", "AGGREGATE inclusive_ratio(x,y,\"\")" };
    Db d;
    d.metrics(CALI_TYPE_INT, CALI_TYPE_UINT);
    const char* q = qs[symx_choose(5, "query")];
    CalQLParser p(q);
    if (!p.error()) {
        R          r = make_rec(d, 1, sym_metric(0, "x"), sym_metric(1, "y"), Variant());
        Aggregator a(p.spec());
        a.add(d.db, r.rec);
        int n = 0;
        a.flush(d.db, [&](CaliperMetadataAccessInterface&, const EntryList&) { ++n; });
        CHECK(n == 1, "one result");
    }
    symx_reach("bad");
}

// many groups: hash chains
ENTRY(c14_many)
{
    Db d;
    d.metrics(CALI_TYPE_INT, CALI_TYPE_UINT);
    uint64_t    k = symx_range(0, 7, "k");
    CalQLParser p("AGGREGATE sum(x) GROUP BY it");
    Aggregator  a(p.spec());
    static const int64_t its[] = { 0, 1, 4096, 8192, 5, -4096, 4097, 1ll << 40 };
    int64_t     v = (int64_t) symx_u64("v");
    for (int i = 0; i < 8; ++i) {
        R r = make_rec(d, 0, Variant(cali_make_variant_from_int64(i)), Variant(), Variant(cali_make_variant_from_int64(its[i])));
        a.add(d.db, r.rec);
    }
    R r = make_rec(d, 0, Variant(cali_make_variant_from_int64(v)), Variant(), Variant(cali_make_variant_from_int64(its[k])));
    a.add(d.db, r.rec);
    Out o;
    a.flush(d.db, [&](CaliperMetadataAccessInterface&, const EntryList& l) { o.push_back(l); });
    CHECK(o.size() == 8, "one result per group");
    for (auto& e : o) {
        int64_t s = get(d, e, "sum#x").to_int64(), id = get(d, e, "it").to_int64();
        int     i = 0;
        while (i < 8 && its[i] != id)
            ++i;
        CHECK(i < 8, "group key");
        CHECK(s == i + ((uint64_t) i == k ? v : 0), "sum of the group");
    }
    symx_reach("many");
}
