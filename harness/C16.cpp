// C16: LET expressions compute their definition and leave the rest alone
#include "rec.h"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/Preprocessor.h"
#include "caliper/reader/QuerySpec.h"

struct Db {
    CaliperMetadataDB db;
    Attribute         region, tag, p, other;
    Db()
    {
        region = db.create_attribute("region", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        tag    = db.create_attribute("tag", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
        p      = db.create_attribute("p", CALI_TYPE_INT, CALI_ATTR_DEFAULT);
        other  = db.create_attribute("other", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    }
};

typedef std::vector<Entry> Rec;

static bool same(const Entry& a, const Entry& b)
{
    if (a.is_reference() || b.is_reference())
        return a.is_reference() && b.is_reference() && a.node() == b.node();
    return a.attribute() == b.attribute() && same_bits(a.value(), b.value());
}

// apply the LET clause; returns the added entries
static Rec added(Db& d, Preprocessor& pp, const Rec& rec)
{
    Rec in(rec), out = pp.process(d.db, in);
    CHECK(in.size() == rec.size() && out.size() >= rec.size(), "all entries are kept");
    for (size_t i = 0; i < rec.size() && i < in.size(); ++i)
        CHECK(same(in[i], rec[i]), "the input record is unchanged");
    for (const Entry& e : rec) {
        bool found = false;
        for (size_t i = 0; i < out.size() && !found; ++i)
            if (e.is_reference() == out[i].is_reference() && (e.is_reference() || e.attribute() == out[i].attribute()) && same(e, out[i])) {
                out.erase(out.begin() + i);
                found = true;
            }
        CHECK(found, "all entries are kept");
    }
    return out;
}

struct Let {
    QuerySpec    spec;
    Preprocessor pp;
    static QuerySpec parse(const std::string& q)
    {
        CalQLParser p(("LET " + q + " SELECT *").c_str());
        CHECK(!p.error(), "query is accepted");
        return p.spec();
    }
    explicit Let(const std::string& q) : spec(parse(q)), pp(spec) {}
};

// the record gets one new entry "r" with the given value, or none if the value is empty
static void check_result(Db& d, const Rec& add, const Variant& want, const char* name, const char* msg)
{
    CHECK(add.size() == (want.empty() ? 0 : 1), msg);
    if (add.size() != 1 || want.empty())
        return;
    Attribute r = d.db.get_attribute(name);
    CHECK(add[0].is_immediate() && r && add[0].attribute() == r.id(), "the result has the name of the LET expression");
    Variant v = add[0].value();
    CHECK(v.type() == want.type() && r.type() == want.type(), "result type");
    if (want.type() == CALI_TYPE_DOUBLE) {
        double a = v.to_double(), b = want.to_double();
        CHECK(a == b, msg);
    } else if (want.type() == CALI_TYPE_STRING)
        CHECK(v == want, msg);
    else
        CHECK(bits(v) == bits(want), msg);
}

// a small exact value of any numeric type
static Variant small(int type, const char* name, double* val)
{
    int k = (int) (symx_u8(name) & 31) - (type == 1 ? 0 : 16);
    *val  = (double) k;
    switch (type) {
    case 0: return Variant(cali_make_variant_from_int64(k));
    case 1: return Variant(cali_make_variant_from_uint((uint64_t) k));
    }
    *val = (double) k * 0.5;
    return Variant((double) k * 0.5);
}
static const cali_attr_type types[] = { CALI_TYPE_INT, CALI_TYPE_UINT, CALI_TYPE_DOUBLE };

// records: other entries around the operands
static Rec around(Db& d, const Rec& ops)
{
    Rec     rec;
    Variant v[2] = { Variant("a"), Variant("t") };
    Attribute a[2] = { d.region, d.tag };
    if (symx_choose(2, "before"))
        rec.push_back(Entry(d.db.make_tree_entry(2, a, v)));
    rec.insert(rec.end(), ops.begin(), ops.end());
    if (symx_choose(2, "after"))
        rec.push_back(Entry(d.other, Variant(cali_make_variant_from_int64((int64_t) symx_u64("other")))));
    return rec;
}

ENTRY(c16_ratio)
{
    Db  d;
    int tn = (int) symx_choose(3, "tn"), td = (int) symx_choose(3, "td");
    Attribute n = d.db.create_attribute("n", types[tn], CALI_ATTR_ASVALUE);
    Attribute m = d.db.create_attribute("m.x", types[td], symx_choose(2, "path") ? CALI_ATTR_DEFAULT : CALI_ATTR_ASVALUE);
    static const double dens[] = { 0, 1, 2, -4, 8 };
    Rec    ops;
    double vn = 0, vd = 0;
    bool   hn = symx_choose(2, "hasn"), hd = symx_choose(2, "hasd");
    if (hn)
        ops.push_back(Entry(n, small(tn, "n", &vn)));
    if (hd) {
        vd = dens[symx_choose(5, "d")];
        if (td == 1 && vd < 0)
            vd = 4;
        Variant v = td == 0 ? Variant(cali_make_variant_from_int64((int64_t) vd)) : td == 1 ? Variant(cali_make_variant_from_uint((uint64_t) vd)) : Variant(vd);
        ops.push_back(m.store_as_value() ? Entry(m, v) : Entry(d.db.make_tree_entry(1, &m, &v)));
    }
    Rec    rec   = around(d, ops);
    bool   scale = symx_choose(2, "scale");
    Let    l(scale ? "r=ratio(n,m.x,4)" : "r=ratio(n,m.x)");
    Rec    add = added(d, l.pp, rec);
    Variant want;
    if (hn && hd && vd != 0)
        want = Variant((scale ? 4.0 : 1.0) * (vn * (1.0 / vd)));
    check_result(d, add, want, "r", "ratio: numerator / denominator * scale");
    symx_reach("ratio");
}

ENTRY(c16_scale)
{
    Db  d;
    int t = (int) symx_choose(3, "type");
    Attribute n = d.db.create_attribute("n", types[t], symx_choose(2, "path") ? CALI_ATTR_DEFAULT : CALI_ATTR_ASVALUE);
    static const char*  txt[] = { "2", "-0.25", "1e2", "0" };
    static const double val[] = { 2, -0.25, 100, 0 };
    int    s = (int) symx_choose(4, "scale");
    Rec    ops;
    double x   = 0;
    bool   has = symx_choose(2, "has");
    if (has) {
        Variant v = small(t, "n", &x);
        ops.push_back(n.store_as_value() ? Entry(n, v) : Entry(d.db.make_tree_entry(1, &n, &v)));
    }
    Rec rec = around(d, ops);
    Let l(std::string("r=scale(n,") + txt[s] + ")");
    check_result(d, added(d, l.pp, rec), has ? Variant(x * val[s]) : Variant(), "r", "scale: value times factor");
    symx_reach("scale");
}

// integers of any magnitude
ENTRY(c16_truncate)
{
    Db   d;
    bool uns = symx_choose(2, "unsigned");
    Attribute n = d.db.create_attribute("n", uns ? CALI_TYPE_UINT : CALI_TYPE_INT, symx_choose(2, "path") ? CALI_ATTR_DEFAULT : CALI_ATTR_ASVALUE);
    static const char*    txt[] = { "", ",10", ",16", ",1000000007" };
    static const uint64_t val[] = { 1, 10, 16, 1000000007 };
    int      f   = (int) symx_choose(4, "factor");
    bool     has = symx_choose(2, "has");
    uint64_t x   = symx_u64("x");
    Variant  v   = uns ? Variant(cali_make_variant_from_uint(x)) : Variant(cali_make_variant_from_int64((int64_t) x));
    Rec      ops;
    if (has)
        ops.push_back(n.store_as_value() ? Entry(n, v) : Entry(d.db.make_tree_entry(1, &n, &v)));
    Rec rec = around(d, ops);
    Let l(std::string("r=truncate(n") + txt[f] + ")");
    Variant want;
    if (has)
        want = uns ? Variant(cali_make_variant_from_uint(x - x % val[f])) : Variant(cali_make_variant_from_int64((int64_t) x - (int64_t) x % (int64_t) val[f]));
    check_result(d, added(d, l.pp, rec), want, "r", "truncate: value - value mod factor");
    symx_reach("truncate");
}

// floating point values, and factors that are not integers
ENTRY(c16_truncate_fp)
{
    Db  d;
    int t = (int) symx_choose(3, "type");
    Attribute n = d.db.create_attribute("n", types[t], CALI_ATTR_ASVALUE);
    static const char* txt[] = { "0.5", "10", "2.5", "0" };
    static const int   num[] = { 2, 40, 10, 0 }; // in steps of 1/4
    static const int   xs[]  = { 0, 4, 36, 44, 100, 4000, -36, -4000 };
    int  f = (int) symx_choose(4, "factor"), x = xs[symx_choose(t == 1 ? 6 : 8, "x")];
    if (t == 2)
        x += (int) symx_choose(3, "frac");
    Variant v = t == 0 ? Variant(cali_make_variant_from_int64(x / 4)) : t == 1 ? Variant(cali_make_variant_from_uint((uint64_t) x / 4)) : Variant(x * 0.25);
    Rec rec { Entry(n, v) };
    Let l(std::string("r=truncate(n,") + txt[f] + ")");
    Rec add = added(d, l.pp, rec);
    if (f == 3)
        CHECK(add.size() <= 1, "truncating to multiples of zero");
    else {
        int     r = x - x % num[f]; // rounds integers to integers
        Variant want;
        if (t == 0)
            want = Variant(cali_make_variant_from_int64(r / 4));
        else if (t == 1)
            want = Variant(cali_make_variant_from_uint((uint64_t) r / 4));
        else
            want = Variant(r * 0.25);
        check_result(d, add, want, "r", "truncate: value - value mod factor");
    }
    symx_reach("truncate");
}

// first and sum over up to three operands of the same type
ENTRY(c16_first_sum)
{
    Db  d;
    int t = (int) symx_choose(3, "type");
    Attribute as[3];
    static const char* names[] = { "n0", "n1", "n2" };
    int  form = (int) symx_choose(4, "forms"); // which operands are kept in the context tree
    Rec  ops;
    Variant first, sum;
    int  order = (int) symx_choose(2, "order");
    Variant vs[3];
    for (int i = 0; i < 3; ++i) {
        if (symx_choose(2, nm("exists", i)))
            as[i] = d.db.create_attribute(names[i], types[t], (form >> (i & 1)) & 1 ? CALI_ATTR_DEFAULT : CALI_ATTR_ASVALUE);
        if (!as[i] || !symx_choose(2, nm("has", i)))
            continue;
        uint64_t u = symx_u64(nm("v", i));
        double   x = 0;
        Variant  v = t == 0 ? Variant(cali_make_variant_from_int64((int64_t) u)) : t == 1 ? Variant(cali_make_variant_from_uint(u)) : Variant((double) (int32_t) u * 0.125);
        vs[i] = v;
        if (first.empty())
            first = v;
        if (sum.empty())
            sum = v;
        else if (t == 0)
            sum = Variant(cali_make_variant_from_int64((int64_t) (bits(sum) + bits(v))));
        else if (t == 1)
            sum = Variant(cali_make_variant_from_uint(bits(sum) + bits(v)));
        else
            sum = Variant(sum.to_double() + v.to_double());
    }
    for (int q = 0; q < 3; ++q) {
        int i = order ? 2 - q : q;
        if (!vs[i].empty())
            ops.push_back(as[i].store_as_value() ? Entry(as[i], vs[i]) : Entry(d.db.make_tree_entry(1, &as[i], &vs[i])));
    }
    Rec  rec = around(d, ops);
    bool s   = symx_choose(2, "sum");
    Let  l(s ? "r=sum(n0,n1,n2)" : "r=first(n0,n1,n2)");
    check_result(d, added(d, l.pp, rec), s ? sum : first, "r", s ? "sum: sum of the operands in the record" : "first: the first operand in the record");
    symx_reach("first_sum");
}

// the innermost value
ENTRY(c16_leaf)
{
    Db  d;
    int n = (int) symx_choose(4, "nodes");
    std::vector<std::unique_ptr<SymStr>> keep;
    Attribute   as[3];
    Variant     vs[3];
    std::string leaf[3];
    bool        has[3] = { false, false, false };
    int         which  = (int) symx_choose(4, "which"); // leaf(), leaf(region), leaf(tag), leaf(missing)
    for (int i = 0; i < n; ++i) {
        bool t = symx_choose(2, nm("tag", i));
        keep.emplace_back(new SymStr(1, symx_param("len", 1), nm("s", i)));
        for (size_t q = 0; q < keep.back()->n; ++q) // sort before or after all other strings of the database
            symx_assume(keep.back()->p[q] > 0 && keep.back()->p[q] <= '_');
        as[i] = t ? d.tag : d.region;
        vs[i] = Variant(CALI_TYPE_STRING, keep.back()->p, keep.back()->n);
        leaf[t] = keep.back()->str();
        has[t]  = true;
    }
    Rec rec;
    if (symx_choose(2, "before"))
        rec.push_back(Entry(d.other, Variant(cali_make_variant_from_int64((int64_t) symx_u64("other")))));
    if (n)
        rec.push_back(Entry(d.db.make_tree_entry(n, as, vs)));
    static const char* txt[] = { "r=leaf()", "r=leaf(region)", "r=leaf(tag)", "r=leaf(missing)" };
    Let  l(txt[which]);
    int  w = which == 0 ? 0 : which - 1;
    check_result(d, added(d, l.pp, rec), has[w] ? Variant(CALI_TYPE_STRING, leaf[w].data(), leaf[w].size()) : Variant(), "r", "leaf: innermost value of the hierarchy");
    Attribute r = d.db.get_attribute("r");
    CHECK(!r || !r.is_nested(), "leaf: the result is no region");
    symx_reach("leaf");
}

// the value of an attribute that is not part of a hierarchy
ENTRY(c16_leaf_value)
{
    Db  d;
    Let l(symx_choose(2, "which") ? "r=leaf(other)" : "r=leaf(p)");
    bool has[2] = { symx_choose(2, "hasp") != 0, symx_choose(2, "hasother") != 0 };
    Variant vp(cali_make_variant_from_int64((int64_t) symx_u64("p"))), vo(cali_make_variant_from_int64((int64_t) symx_u64("o")));
    Rec  rec;
    Variant rv("x");
    rec.push_back(Entry(d.db.make_tree_entry(1, &d.region, &rv)));
    if (has[0])
        rec.push_back(Entry(d.p, vp)); // as an immediate value, as in records of other writers
    if (has[1])
        rec.push_back(Entry(d.other, vo));
    bool which = l.spec.preprocess_ops.front().op.args[0] == "other";
    check_result(d, added(d, l.pp, rec), which ? (has[1] ? vo : Variant()) : has[0] ? vp : Variant(), "r", "leaf: value of the attribute");
    symx_reach("leafvalue");
}

// conditions on earlier results
ENTRY(c16_if_chain)
{
    Db  d;
    Attribute n = d.db.create_attribute("n", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    static const char* q[] = { "r=first(n) IF n>10, s=sum(n,n) IF r", "r=first(n) IF n>10, s=sum(n,n) IF NOT r", "r=sum(n,n), s=first(n) IF r>20", "s=first(n) IF r, r=first(n)" };
    int  c = (int) symx_choose(4, "query");
    Let  l(q[c]);
    int64_t x = (int64_t) symx_range(0, 1ull << 40, "x");
    Rec  rec { Entry(n, Variant(cali_make_variant_from_int64(x))) };
    Rec  add = added(d, l.pp, rec);
    Attribute r = d.db.get_attribute("r"), s = d.db.get_attribute("s");
    bool hasr = false, hass = false;
    for (const Entry& e : add) {
        hasr = hasr || (r && e.attribute() == r.id());
        hass = hass || (s && e.attribute() == s.id());
    }
    bool big = x > 10;
    CHECK(hasr == (c < 2 ? big : true), "results are added exactly if the condition is met");
    CHECK(hass == (c == 0 || c == 2 ? big : c == 1 ? !big : false), "conditions see the results of earlier expressions");
    symx_reach("ifchain");
}

// conditions, chained expressions, and several records
ENTRY(c16_if)
{
    Db  d;
    static const char* conds[] = { "", " IF n=7", " IF NOT n=7", " IF tag", " IF NOT tag", " IF n>100", " if n<-5", " IF q" };
    int c = (int) symx_choose(8, "cond");
    Attribute n = d.db.create_attribute("n", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    Let l(std::string("r=first(n)") + conds[c] + ", s=sum(r,n), q=first(missing)");
    for (int k = 0; k < symx_param("recs", 2); ++k) {
        int64_t x = (int64_t) symx_u64(nm("x", k));
        bool hasn = symx_choose(2, nm("hasn", k)), tag = symx_choose(2, nm("hastag", k));
        Rec  rec;
        Variant v[2] = { Variant("a"), Variant("t") };
        Attribute a[2] = { d.region, d.tag };
        if (tag)
            rec.push_back(Entry(d.db.make_tree_entry(2, a, v)));
        if (hasn)
            rec.push_back(Entry(n, Variant(cali_make_variant_from_int64(x))));
        bool ok = hasn;
        switch (c) {
        case 1: ok = hasn && x == 7; break;
        case 2: ok = hasn && x != 7; break;
        case 3: ok = hasn && tag; break;
        case 4: ok = hasn && !tag; break;
        case 5: ok = hasn && x > 100; break;
        case 6: ok = hasn && x < -5; break;
        case 7: ok = false; break;
        }
        Rec       add = added(d, l.pp, rec);
        Attribute r   = d.db.get_attribute("r"), s = d.db.get_attribute("s");
        CHECK(add.size() == (size_t) (hasn ? 1 : 0) + (ok ? 1 : 0), "results are added exactly if the condition is met");
        int nr = 0, ns = 0;
        for (const Entry& e : add) {
            if (r && e.attribute() == r.id()) {
                ++nr;
                CHECK(e.value().to_int64() == x, "first with a condition");
            } else if (s && e.attribute() == s.id()) {
                ++ns;
                CHECK((uint64_t) e.value().to_int64() == (ok ? 2 * (uint64_t) x : (uint64_t) x), "later expressions see the results of earlier ones");
            }
        }
        CHECK(nr == (ok ? 1 : 0) && ns == (hasn ? 1 : 0), "results are added exactly if the condition is met");
    }
    symx_reach("if");
}
