// C15: a WHERE filter keeps exactly the matching records
#include "rec.h"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/QuerySpec.h"
#include "caliper/reader/RecordSelector.h"

static int str_cmp(const char* a, size_t an, const char* b)
{
    size_t bn = strlen(b), n = an < bn ? an : bn;
    for (size_t i = 0; i < n; ++i)
        if ((unsigned char) a[i] != (unsigned char) b[i])
            return (unsigned char) a[i] < (unsigned char) b[i] ? -1 : 1;
    return an < bn ? -1 : an > bn ? 1 : 0;
}

// condition kinds: exists, =, <, >, and their negations; the negation of an ordering is the opposite ordering
static const int kinds[] = { 0, 1, 2, 3, 6, 7, 8, 9 };

static std::string cond_text(int k, const char* attr, const char* val)
{
    static const char* ops[] = { "", "=", "<", ">", "<=", ">=" };
    bool               neg   = k >= 6;
    int                o     = neg ? k - 6 : k;
    std::string        s     = std::string(neg ? "not " : "") + attr;
    if (o > 0)
        s += std::string(ops[o]) + val;
    return s;
}

// does one value meet the (positive) condition: cmp is the comparison with the value of the condition
static bool meets(int o, int cmp)
{
    switch (o) {
    case 0: return true;
    case 1: return cmp == 0;
    case 2: return cmp < 0;
    case 3: return cmp > 0;
    case 4: return cmp <= 0;
    case 5: return cmp >= 0;
    }
    return false;
}

// expected result, given the comparisons of all values of the attribute in the record
static bool expected(int k, const std::vector<int>& cmps)
{
    static const int opposite[] = { 0, 1, 5, 4, 3, 2 };
    bool             neg        = k >= 6;
    int              o          = neg ? k - 6 : k;
    if (neg && o >= 2) {
        neg = false;
        o   = opposite[o];
    }
    bool any = false;
    for (int c : cmps)
        any |= meets(o, c);
    return any != neg;
}

static bool pass(CaliperMetadataDB& db, const std::string& where, const std::vector<Entry>& rec)
{
    CalQLParser p(("SELECT * WHERE " + where).c_str());
    CHECK(!p.error(), "filter is accepted");
    RecordSelector s(p.spec());
    bool           r = s.pass(db, rec);
    int            n = 0;
    s(db, rec, [&](CaliperMetadataAccessInterface&, const EntryList& l) {
        ++n;
        CHECK(l.size() == rec.size(), "passing records are unchanged");
    });
    CHECK(n == (r ? 1 : 0), "exactly the passing records are kept");
    return r;
}

struct T {
    cali_attr_type type;
    const char*    text;
};
static const T ts[] = {
    { CALI_TYPE_INT, "5" }, { CALI_TYPE_INT, "-3" }, { CALI_TYPE_INT, "9223372036854775807" },
    { CALI_TYPE_UINT, "7" }, { CALI_TYPE_UINT, "18446744073709551615" },
    { CALI_TYPE_DOUBLE, "2.5" }, { CALI_TYPE_DOUBLE, "-1e3" },
    { CALI_TYPE_BOOL, "true" }, { CALI_TYPE_STRING, "ab" }, { CALI_TYPE_STRING, "b" },
};

struct Val {
    Variant v;
    int     cmp;
};

static Val sym_val(const T& t, const char* name, std::vector<std::unique_ptr<SymStr>>& keep)
{
    Val r;
    switch (t.type) {
    case CALI_TYPE_INT: {
        int64_t x = (int64_t) symx_u64(name), y = strtoll(t.text, nullptr, 10);
        r.v   = Variant(cali_make_variant_from_int64(x));
        r.cmp = x < y ? -1 : x > y;
        break;
    }
    case CALI_TYPE_UINT: {
        uint64_t x = symx_u64(name), y = strtoull(t.text, nullptr, 10);
        r.v   = Variant(cali_make_variant_from_uint(x));
        r.cmp = x < y ? -1 : x > y;
        break;
    }
    case CALI_TYPE_DOUBLE: {
        double x = (double) (int32_t) symx_u32(name) * 0.25, y = strtod(t.text, nullptr);
        r.v   = Variant(x);
        r.cmp = x < y ? -1 : x > y;
        break;
    }
    case CALI_TYPE_BOOL: {
        bool x = symx_choose(2, name);
        r.v   = Variant(x);
        r.cmp = x ? 0 : -1;
        break;
    }
    default:
        keep.emplace_back(new SymStr(0, symx_param("len", 2), name));
        r.v   = Variant(CALI_TYPE_STRING, keep.back()->p, keep.back()->n);
        r.cmp = str_cmp(keep.back()->p, keep.back()->n, t.text);
    }
    return r;
}

// one condition on an attribute stored as value or in a path
ENTRY(c15_cond)
{
    const T&  t = ts[symx_choose(sizeof(ts) / sizeof(ts[0]), "type")];
    int       k = kinds[symx_choose(8, "cond")];
    bool      asvalue = symx_choose(2, "asvalue");
    CaliperMetadataDB db;
    Attribute a = db.create_attribute("a", t.type, asvalue ? CALI_ATTR_ASVALUE : CALI_ATTR_DEFAULT);
    Attribute o = db.create_attribute("o", t.type, CALI_ATTR_DEFAULT);
    Attribute i = db.create_attribute("i", t.type, CALI_ATTR_ASVALUE);
    std::vector<std::unique_ptr<SymStr>> keep;
    std::vector<int>   cmps;
    std::vector<Entry> rec;
    int         n = (int) symx_choose(t.type == CALI_TYPE_STRING ? 2 : 3, "values"); // values of a in the record
    Val         other { Variant::from_string(t.type, t.text), 0 }; // other attributes have the value that is compared with
    std::vector<Attribute> as { o };
    std::vector<Variant>   vs { other.v };
    rec.push_back(Entry(i, other.v));
    for (int q = 0; q < n; ++q) {
        Val v = sym_val(t, nm("v", q), keep);
        cmps.push_back(v.cmp);
        if (asvalue)
            rec.push_back(Entry(a, v.v));
        else {
            as.push_back(a);
            vs.push_back(v.v);
            if (symx_choose(2, nm("deeper", q))) {
                as.push_back(o);
                vs.push_back(other.v);
            }
        }
    }
    rec.insert(rec.begin() + symx_choose(2, "pos"), Entry(db.make_tree_entry(as.size(), as.data(), vs.data())));
    bool r = pass(db, cond_text(k, "a", t.text), rec);
    CHECK(r == expected(k, cmps), "a record passes exactly if it meets the condition");
    symx_reach(r ? "pass" : "fail");
}

// conjunctions
ENTRY(c15_and)
{
    CaliperMetadataDB db;
    int       k1 = kinds[symx_choose(8, "cond1")], k2 = kinds[symx_choose(8, "cond2")];
    T         ta { CALI_TYPE_INT, "5" }, tb { CALI_TYPE_UINT, "10" };
    Attribute a = db.create_attribute("a", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    Attribute b = db.create_attribute("b.c#d", CALI_TYPE_UINT, CALI_ATTR_NESTED);
    std::vector<std::unique_ptr<SymStr>> keep;
    std::vector<int>   ca, cb;
    std::vector<Entry> rec;
    if (symx_choose(2, "hasa")) {
        Val v = sym_val(ta, "a", keep);
        ca.push_back(v.cmp);
        rec.push_back(Entry(a, v.v));
    }
    if (symx_choose(2, "hasb")) {
        Val v = sym_val(tb, "b", keep);
        cb.push_back(v.cmp);
        rec.push_back(Entry(db.make_tree_entry(1, &b, &v.v)));
    }
    bool r = pass(db, cond_text(k1, "a", ta.text) + "," + cond_text(k2, "b.c#d", tb.text), rec);
    CHECK(r == (expected(k1, ca) && expected(k2, cb)), "a record passes exactly if it meets all conditions");
    symx_reach(r ? "pass" : "fail");
}

// attributes that don't exist (yet) and values that don't fit the attribute's type
ENTRY(c15_missing)
{
    CaliperMetadataDB db;
    int         k  = kinds[symx_choose(8, "cond")];
    int         c  = (int) symx_choose(3, "case");
    Attribute   a  = db.create_attribute("a", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    Variant     v(cali_make_variant_from_int64((int64_t) symx_u64("v")));
    std::vector<Entry> rec { Entry(a, v) };
    std::string where = cond_text(k, c < 2 ? "missing" : "a", c < 2 ? "5" : "text");
    CalQLParser p(("SELECT * WHERE " + where).c_str());
    CHECK(!p.error(), "filter is accepted");
    RecordSelector s(p.spec());
    bool        r  = s.pass(db, rec);
    bool        neg = k == 6 || k == 7; // "not exists" and "not equal" hold
    if (c < 2)
        CHECK(r == neg, "no condition on a missing attribute holds");
    else
        CHECK(r == (k == 0 || k == 7), "a value that can't be a value of the attribute doesn't compare with anything");
    if (c == 1) { // the attribute appears later
        Attribute m = db.create_attribute("missing", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
        int64_t   x = (int64_t) symx_u64("w");
        std::vector<Entry> rec2 { Entry(m, Variant(cali_make_variant_from_int64(x))) };
        std::vector<int>   cm { x < 5 ? -1 : x > 5 };
        CHECK(s.pass(db, rec2) == expected(k, cm), "attributes are found when they appear");
    }
    symx_reach("missing");
}

// no filter, empty records
ENTRY(c15_none)
{
    CaliperMetadataDB db;
    Attribute a = db.create_attribute("a", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    std::vector<Entry> rec;
    if (symx_choose(2, "nonempty"))
        rec.push_back(Entry(a, Variant(cali_make_variant_from_int64((int64_t) symx_u64("v")))));
    CalQLParser p("SELECT *");
    CHECK(RecordSelector(p.spec()).pass(db, rec), "everything passes without a filter");
    CHECK(RecordSelector(QuerySpec::Condition()).pass(db, rec), "everything passes an empty condition");
    symx_reach("none");
}
