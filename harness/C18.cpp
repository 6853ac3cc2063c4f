// C18: JSON output is well-formed and complete
#include "rec.h"
#include "json.h"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/FormatProcessor.h"
#include "caliper/reader/QuerySpec.h"
#include <cstdio>

struct Db {
    CaliperMetadataDB db;
};
typedef std::vector<Entry> Rec;

static std::string format(CaliperMetadataDB& db, const std::string& query, const std::vector<Rec>& recs)
{
    CalQLParser p(query.c_str());
    CHECK(!p.error(), "query is accepted");
    std::ostringstream os;
    OutputStream       out;
    out.set_stream(&os);
    FormatProcessor f(p.spec(), out);
    for (const Rec& r : recs)
        f.process_record(db, r);
    f.flush(db);
    std::string s = os.str();
    if (!symx_engine())
        fprintf(stderr, "%s\n", s.c_str());
    return s;
}

static J parse(const std::string& s)
{
    J j;
    CHECK(JsonParser::parse(s, j), "output is a well-formed JSON document");
    return j;
}

enum Layout { RECORDS, OBJECT, SPLIT_LINES, HATCHET, LAYOUTS };

static std::string fmt(int layout, bool pretty = false, const char* more = "")
{
    switch (layout) {
    case RECORDS: return std::string("FORMAT json(records") + (pretty ? ",pretty" : "") + more + ")";
    case OBJECT: return std::string("FORMAT json(object") + (pretty ? ",pretty" : "") + more + ")";
    case SPLIT_LINES: return std::string("FORMAT json(split") + (pretty ? ",pretty" : "") + more + ")";
    }
    return "FORMAT json-split";
}

// the records in the output as key, value maps; null values are left out, node ids are replaced by the path
static std::vector<J> records(int layout, const std::string& text, J* doc = nullptr)
{
    std::vector<J> r;
    // the split layout is a list of objects without brackets
    J j = parse(layout == SPLIT_LINES ? "[" + text + "]" : text);
    if (doc)
        *doc = j;
    const J* recs = &j;
    if (layout == OBJECT) {
        CHECK(j.t == 'o' && j.o.size() == 3 && j.get("globals") && j.get("attributes"), "document with records, globals, and attributes");
        recs = j.get("records");
    }
    if (layout != HATCHET) {
        CHECK(recs && recs->t == 'a', "list of records");
        if (recs)
            for (const J& rec : recs->a) {
                CHECK(rec.t == 'o', "records are objects");
                r.push_back(rec);
            }
    } else {
        const J *d = j.get("data"), *c = j.get("columns"), *m = j.get("column_metadata"), *n = j.get("nodes");
        CHECK(j.t == 'o' && d && c && m && n && d->t == 'a' && c->t == 'a' && m->t == 'a' && n->t == 'a', "document with data, columns, column metadata, and nodes");
        if (!(d && c && m && n))
            return r;
        CHECK(c->a.size() == m->a.size(), "metadata for each column");
        for (const J& row : d->a) {
            J rec;
            rec.t = 'o';
            CHECK(row.t == 'a' && row.a.size() == c->a.size(), "one value for each column");
            for (size_t i = 0; i < row.a.size() && i < c->a.size(); ++i) {
                const J& v = row.a[i];
                if (v.t == 'l' && v.s == "null")
                    continue;
                const J* isval = m->a[i].get("is_value");
                CHECK(isval && isval->t == 'l', "columns are values or hierarchies");
                J out = v;
                if (isval && isval->s == "false") {
                    CHECK(v.t == 'n', "node id");
                    std::string path;
                    const J*    id = &v;
                    for (int k = 0; id && k < 10; ++k) {
                        size_t x = (size_t) strtoull(id->s.c_str(), nullptr, 10);
                        CHECK(x < n->a.size(), "node exists");
                        if (x >= n->a.size())
                            break;
                        const J *label = n->a[x].get("label"), *col = n->a[x].get("column");
                        CHECK(label && label->t == 's' && col && col->s == c->a[i].s, "nodes have a label and belong to the column");
                        path = path.empty() ? label->s : label->s + "/" + path;
                        id   = n->a[x].get("parent");
                    }
                    out   = J();
                    out.t = 's';
                    out.s = path;
                }
                rec.o.emplace_back(c->a[i].s, out);
            }
            r.push_back(rec);
        }
    }
    return r;
}

static void check_text(const J& rec, const std::string& key, const std::string& want, bool number = false)
{
    int      n = 0;
    const J* v = rec.get(key, &n);
    CHECK(n == 1, "each selected attribute of a record is written once");
    if (!v)
        return;
    CHECK(number ? (v->t == 'n' || v->t == 'l') : v->t == 's', "strings are quoted");
    CHECK(v->s == want, "the value is written");
}

static void plain(SymStr& s) // control characters are left out by design
{
    for (size_t i = 0; i < s.n; ++i)
        symx_assume((unsigned char) s.p[i] >= 0x20 || s.p[i] == '\n');
}

// names and text of any kind
ENTRY(c18_text)
{
    CaliperMetadataDB db;
    int       layout = (int) symx_choose(LAYOUTS, "layout");
    int       what   = (int) symx_choose(5, "what"); // symbolic name, value, value in a path, alias, name of a reference
    SymStr    s(1, symx_param("len", 2), "text");
    plain(s);
    std::string t = s.str();
    std::string name = what == 0 ? t : "n";
    Attribute a = db.create_attribute(name, CALI_TYPE_STRING, CALI_ATTR_ASVALUE);
    Attribute b = db.create_attribute("region", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    std::string tree = what == 4 ? "t" + t : "tree";
    Attribute c = db.create_attribute(tree, CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    std::string va = what == 1 ? t : "v", vb = what == 2 ? t : "w";
    Variant   vs[3] = { Variant("main"), Variant(CALI_TYPE_STRING, vb.data(), vb.size()), Variant(CALI_TYPE_STRING, vb.data(), vb.size()) };
    Attribute as[3] = { b, b, c };
    Rec       rec { Entry(db.make_tree_entry(3, as, vs)), Entry(a, Variant(CALI_TYPE_STRING, va.data(), va.size())) };
    std::string q = "SELECT *";
    std::string key = name;
    if (what == 3) {
        for (size_t i = 0; i < s.n; ++i)
            symx_assume(s.p[i] != '"' && s.p[i] != '\\');
        q += ",n AS \"" + t + "\"";
        key = t;
    }
    CHECK(name != "region" && name != tree && tree != "region", "different names");
    std::vector<J> r = records(layout, format(db, q + " " + fmt(layout, symx_choose(2, "pretty")), { rec }));
    CHECK(r.size() == 1, "each record is written");
    if (r.size() == 1) {
        check_text(r[0], key, va);
        check_text(r[0], "path", "main/" + vb);
        check_text(r[0], tree, vb);
    }
    symx_reach("text");
}

// values of every type
ENTRY(c18_values)
{
    CaliperMetadataDB db;
    int      layout = (int) symx_choose(LAYOUTS, "layout");
    bool     quote  = layout != HATCHET && symx_choose(2, "quote");
    int      what   = (int) symx_choose(9, "type");
    bool     tree   = symx_choose(2, "tree");
    Variant  v;
    bool     number = true;
    switch (what) {
    case 0: {
        static const int64_t ext[] = { INT64_MIN, INT64_MAX, -1, -1000000007 };
        int k = (int) symx_choose(5, "int");
        v = Variant(cali_make_variant_from_int64(k < 4 ? ext[k] : (int64_t) (symx_u8("i") % 100) - 50));
        break;
    }
    case 1: {
        int k = (int) symx_choose(2, "uint");
        v = Variant(cali_make_variant_from_uint(k ? UINT64_MAX : (uint64_t) (symx_u8("u") % 100)));
        break;
    }
    case 2: {
        static const double ds[] = { 0.0, -0.5, 1.5, 1e300, -2.5e-7, 1000000.0, 123456789.0 };
        v = Variant(ds[symx_choose(7, "double")]);
        break;
    }
    case 3: {
        static const double ds[] = { __builtin_inf(), -__builtin_inf(), __builtin_nan("") };
        v      = Variant(ds[symx_choose(3, "double")]);
        number = false;
        break;
    }
    case 4: v = Variant((bool) symx_choose(2, "bool")); number = layout != HATCHET; break;
    case 5: v = Variant((cali_attr_type) symx_choose(CALI_MAXTYPE + 1, "type")); number = false; break;
    case 6: {
        uint64_t x = symx_choose(2, "addr") ? 0xdeadbeefcafe0001ull : symx_u8("a");
        v = Variant(CALI_TYPE_ADDR, &x, sizeof(x));
        number = false;
        break;
    }
    case 7: v = Variant(CALI_TYPE_USR, "ab\x01\xff", 4); number = false; break;
    case 8: v = Variant(CALI_TYPE_STRING, "17", 2); number = false; break;
    }
    number = number && !quote && !tree;
    std::string want = v.to_string();
    if (what == 7) // control characters are left out
        symx_assume(!tree || true);
    Attribute a = db.create_attribute("a", v.type(), tree ? CALI_ATTR_DEFAULT : CALI_ATTR_ASVALUE);
    Attribute b = db.create_attribute("b", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    Rec       rec;
    rec.push_back(tree ? Entry(db.make_tree_entry(1, &a, &v)) : Entry(a, v));
    rec.push_back(Entry(b, Variant(1)));
    std::vector<J> r = records(layout, format(db, "SELECT a,b " + fmt(layout, false, quote ? ",quote-all" : ""), { rec }));
    CHECK(r.size() == 1, "each record is written");
    if (r.size() == 1) {
        CHECK(r[0].o.size() == 2, "nothing else is written");
        check_text(r[0], "b", "1", !quote);
        if (what != 7)
            check_text(r[0], "a", want, number);
    }
    symx_reach("values");
}

// record sets and selections
ENTRY(c18_records)
{
    CaliperMetadataDB db;
    int       layout = (int) symx_choose(LAYOUTS, "layout");
    Attribute region = db.create_attribute("region", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    Attribute loop   = db.create_attribute("loop", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    Attribute tag    = db.create_attribute("tag", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    Attribute x      = db.create_attribute("x", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    Attribute h      = db.create_attribute("hid", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_HIDDEN);
    static const char* selects[] = { "", "SELECT *", "SELECT x", "SELECT path", "SELECT x,path", "SELECT tag,x AS y", "SELECT region", "SELECT missing,tag", "SELECT hid,x" };
    int  sel   = (int) symx_choose(9, "select");
    bool sep   = (layout == RECORDS || layout == OBJECT) && symx_choose(2, "separate");
    int  n     = (int) symx_choose(symx_param("recs", 2) + 1, "n");
    std::vector<Rec> recs;
    std::vector<J>   want;
    for (int i = 0; i < n; ++i) {
        int  form = (int) symx_choose(5, nm("form", i));
        bool hasx = symx_choose(2, nm("hasx", i));
        Rec  rec;
        J    w;
        w.t = 'o';
        auto put = [&](const char* k, const std::string& v) { J j; j.t = 's'; j.s = v; w.o.emplace_back(k, j); };
        Attribute   as[5];
        Variant     vs[5];
        int         m = 0;
        std::string path, reg, lp, tg;
        auto add = [&](const Attribute& a, const char* v, std::string& s) {
            as[m] = a;
            vs[m++] = Variant(v);
            s += (s.empty() ? "" : "/") + std::string(v);
        };
        switch (form) {
        case 1: add(region, "a", reg); path = "a"; break;
        case 2: add(region, "a", reg); add(tag, "a", tg); add(loop, "l", lp); path = "a/l"; break;
        case 3: add(tag, "t", tg); add(tag, "u", tg); break;
        case 4: add(region, "a", reg); add(region, "b", reg); add(tag, "a", tg); add(region, "a", reg); add(region, "a", reg); path = "a/b/a/a"; break;
        }
        if (m)
            rec.push_back(Entry(db.make_tree_entry(m, as, vs)));
        std::string val = i ? "-5" : "7";
        if (hasx)
            rec.push_back(Entry(x, Variant(i ? -5 : 7)));
        rec.push_back(Entry(h, Variant(3)));
        bool all = sel < 2, selpath = all || sel == 3 || sel == 4;
        if (sep) {
            if (!reg.empty() && (selpath || sel == 6))
                put("region", reg);
            if (!lp.empty() && selpath)
                put("loop", lp);
        } else if (!path.empty() && selpath)
            put("path", path);
        else if (!reg.empty() && sel == 6)
            put("path", reg);
        if (!tg.empty() && (all || sel == 5 || sel == 7))
            put("tag", tg);
        if (hasx && (all || sel == 2 || sel == 4 || sel == 5 || sel == 8))
            put(sel == 5 ? "y" : "x", val);
        if (sel == 8)
            put("hid", "3");
        recs.push_back(rec);
        if (layout == HATCHET || !w.o.empty()) // records without selected entries are left out
            want.push_back(w);
    }
    std::vector<J> r = records(layout, format(db, std::string(selects[sel]) + " " + fmt(layout, symx_choose(2, "pretty"), sep ? ",separate-nested" : ""), recs));
    CHECK(r.size() == want.size(), "each record is written");
    for (size_t i = 0; i < r.size() && i < want.size(); ++i) {
        for (const auto& p : want[i].o)
            check_text(r[i], p.first, p.second.s, p.first == "x" || p.first == "y" || p.first == "hid");
        CHECK(r[i].o.size() == want[i].o.size(), "nothing else is written");
    }
    symx_reach("records");
}

// globals and attribute information
ENTRY(c18_globals)
{
    CaliperMetadataDB db;
    int    layout = symx_choose(2, "layout") ? OBJECT : HATCHET;
    SymStr name(1, symx_param("len", 1), "name"), val(0, symx_param("len", 1), "val");
    plain(name);
    plain(val);
    Attribute g = db.create_attribute("g" + name.str(), CALI_TYPE_STRING, CALI_ATTR_GLOBAL | (symx_choose(2, "tree") ? CALI_ATTR_DEFAULT : CALI_ATTR_ASVALUE));
    Attribute meta = db.create_attribute("m" + name.str(), CALI_TYPE_STRING, CALI_ATTR_DEFAULT | CALI_ATTR_SKIP_EVENTS);
    Variant   mv(CALI_TYPE_STRING, val.p, val.n);
    Attribute x = db.create_attribute("x" + name.str(), CALI_TYPE_INT, CALI_ATTR_ASVALUE, 1, &meta, &mv);
    db.set_global(g, Variant(CALI_TYPE_STRING, val.p, val.n));
    Rec rec { Entry(x, Variant(4)) };
    std::vector<Rec> recs;
    bool some = symx_choose(2, "some");
    if (some)
        recs.push_back(rec);
    J doc;
    std::vector<J> r = records(layout, format(db, fmt(layout, symx_choose(2, "pretty")), recs), &doc);
    CHECK(r.size() == recs.size(), "each record is written");
    if (r.size() == 1)
        check_text(r[0], "x" + name.str(), "4", true);
    if (layout == OBJECT) {
        const J *gs = doc.get("globals"), *as = doc.get("attributes");
        check_text(*gs, "g" + name.str(), val.str());
        CHECK(gs->o.size() == 1, "all globals, and nothing else");
        int      n = 0;
        const J* a = as->get("x" + name.str(), &n);
        CHECK(n == 1 && a && a->t == 'o', "each attribute is described");
        if (a) {
            check_text(*a, "m" + name.str(), val.str());
            check_text(*a, "cali.attribute.type", "int");
            check_text(*a, "is_global", "false", true);
        }
        a = as->get("g" + name.str(), &n);
        CHECK(n == 1 && a && a->t == 'o', "each attribute is described");
        if (a)
            check_text(*a, "is_global", "true", true);
    } else {
        check_text(doc, "g" + name.str(), val.str());
        const J *c = doc.get("columns"), *m = doc.get("column_metadata");
        for (size_t i = 0; i < c->a.size() && i < m->a.size(); ++i)
            if (c->a[i].s == "x" + name.str())
                check_text(m->a[i], "m" + name.str(), val.str());
    }
    symx_reach("globals");
}
