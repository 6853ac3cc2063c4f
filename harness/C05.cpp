// C05: what is written to a .cali stream is what is read back
#include "rec.h"

static std::string write_all(CaliperMetadataAccessInterface& db, const std::vector<std::vector<Entry>>& recs, const std::vector<Entry>* globals = nullptr)
{
    std::ostringstream os;
    OutputStream       out;
    out.set_stream(&os);
    CaliWriter w(out);
    for (auto& r : recs)
        w.write_snapshot(db, r);
    if (globals)
        w.write_globals(db, *globals);
    return os.str();
}

static void roundtrip(CaliperMetadataDB& db, const std::vector<std::vector<Entry>>& recs)
{
    std::string       text = write_all(db, recs);
    CaliperMetadataDB rd;
    Collected         c;
    read_text(text, rd, c);
    CHECK(!c.error, ".cali: own output is readable");
    CHECK(c.recs.size() == recs.size(), ".cali: number of records");
    for (size_t i = 0; i < recs.size() && i < c.recs.size(); ++i)
        check_same(flatten(db, recs[i]), c.recs[i], ".cali: record content survives");
}

// text values in a region path
ENTRY(c05_path)
{
    SymStr a(0, symx_param("len", 2), "a"), b(0, symx_param("lenb", 1), "b");
    printable(a);
    printable(b);
    CaliperMetadataDB db;
    Attribute at = db.create_attribute("region", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    Attribute bt = db.create_attribute("phase", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS | CALI_ATTR_LEVEL_4);
    Attribute as[3] = { at, at, bt };
    Variant   vs[3] = { Variant(CALI_TYPE_STRING, a.p, a.n), Variant("x"), Variant(CALI_TYPE_STRING, b.p, b.n) };
    Node*     n3    = db.make_tree_entry(3, as, vs);
    Node*     n1    = db.make_tree_entry(1, as, vs);
    roundtrip(db, { { Entry(n3) }, { Entry(n1) } });
    symx_reach("path");
}

ENTRY(c05_imm_text)
{
    SymStr a(0, symx_param("len", 2), "a"), b(0, symx_param("len", 2), "b");
    printable(a);
    printable(b);
    CaliperMetadataDB db;
    Attribute at = db.create_attribute("a", CALI_TYPE_STRING, CALI_ATTR_ASVALUE);
    Attribute bt = db.create_attribute("b", CALI_TYPE_STRING, CALI_ATTR_ASVALUE);
    roundtrip(db, { { Entry(at, Variant(CALI_TYPE_STRING, a.p, a.n)), Entry(bt, Variant(CALI_TYPE_STRING, b.p, b.n)) } });
    symx_reach("imm");
}

// arbitrary attribute names
ENTRY(c05_name)
{
    SymStr a(1, symx_param("len", 3), "a");
    printable(a);
    CaliperMetadataDB db;
    Attribute at = db.create_attribute(a.str(), CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
    Attribute bt = db.create_attribute("other", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    Variant   v("v");
    symx_assume(a.str() != "other");
    Node* n = db.make_tree_entry(1, &bt, &v);
    roundtrip(db, { { Entry(n), Entry(at, Variant(cali_make_variant_from_int64(-7))) } });
    symx_reach("name");
}

static const uint64_t bases[] = { 0, 995, 9223372036854775800ull, 18446744073709551600ull };

ENTRY(c05_numbers)
{
    CaliperMetadataDB db;
    uint64_t u  = bases[symx_choose(4, "base")] + symx_range(0, symx_param("delta", 7), "d");
    int      as = symx_choose(2, "asvalue") ? CALI_ATTR_ASVALUE : CALI_ATTR_DEFAULT;
    int      k  = (int) symx_choose(5, "kind");
    cali_attr_type t = k == 0 ? CALI_TYPE_INT : k == 1 ? CALI_TYPE_UINT : k == 2 ? CALI_TYPE_BOOL : k == 3 ? CALI_TYPE_ADDR : CALI_TYPE_TYPE;
    cali_attr_type tv = (cali_attr_type) (1 + u % CALI_MAXTYPE);
    bool    bv = u & 1;
    Variant v  = k == 0 ? Variant(cali_make_variant_from_int64((int64_t) u)) : k == 1 ? Variant(cali_make_variant_from_uint(u)) : k == 2 ? Variant(bv) : k == 3 ? Variant(CALI_TYPE_ADDR, &u, 8) : Variant(tv);
    Attribute at = db.create_attribute("n", t, as);
    if (as)
        roundtrip(db, { { Entry(at, v) } });
    else
        roundtrip(db, { { Entry(db.make_tree_entry(1, &at, &v)) } });
    symx_reach("numbers");
}

// attribute meta-data: type, properties, meta-attributes
ENTRY(c05_attribute)
{
    CaliperMetadataDB db;
    SymStr m(0, symx_param("len", 2), "m");
    printable(m);
    static const int props[] = { CALI_ATTR_DEFAULT, CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_PROCESS, CALI_ATTR_NESTED | CALI_ATTR_LEVEL_7, CALI_ATTR_GLOBAL | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_UNALIGNED };
    int        prop = props[symx_choose(4, "prop")];
    Attribute  meta = db.create_attribute("my.meta", CALI_TYPE_STRING, CALI_ATTR_SKIP_EVENTS);
    Variant    mv(CALI_TYPE_STRING, m.p, m.n);
    Attribute  at = db.create_attribute("attr", CALI_TYPE_INT, prop, 1, &meta, &mv);
    CHECK(at.get(meta) == mv && at.name() == "attr" && at.type() == CALI_TYPE_INT && at.properties() == prop, "attribute: created with its meta-data");
    Variant    v(5);
    std::vector<std::vector<Entry>> recs;
    if (at.store_as_value())
        recs.push_back({ Entry(at, v) });
    else
        recs.push_back({ Entry(db.make_tree_entry(1, &at, &v)) });
    std::string       text = write_all(db, recs);
    CaliperMetadataDB rd;
    Collected         c;
    read_text(text, rd, c);
    CHECK(!c.error, ".cali: own output is readable");
    Attribute rat = rd.get_attribute("attr"), rmeta = rd.get_attribute("my.meta");
    CHECK(rat && rmeta, ".cali: attributes are read");
    if (rat && rmeta) {
        CHECK(rat.type() == CALI_TYPE_INT && rat.properties() == prop, ".cali: attribute type and properties survive");
        CHECK(rat.get(rmeta) == mv, ".cali: attribute meta-data survives");
    }
    symx_reach("attr");
}

// globals, including an empty list and an empty record
ENTRY(c05_globals)
{
    SymStr a(0, symx_param("len", 2), "a");
    printable(a);
    CaliperMetadataDB db;
    Attribute g1 = db.create_attribute("g.one", CALI_TYPE_STRING, CALI_ATTR_GLOBAL | CALI_ATTR_SKIP_EVENTS);
    Attribute g2 = db.create_attribute("g.two", CALI_TYPE_UINT, CALI_ATTR_GLOBAL | CALI_ATTR_ASVALUE);
    size_t    n  = symx_choose(3, "n");
    if (n > 0)
        db.set_global(g1, Variant(CALI_TYPE_STRING, a.p, a.n));
    if (n > 1)
        db.set_global(g2, Variant(cali_make_variant_from_uint(4711)));
    std::vector<Entry> gl = db.get_globals();
    CHECK(gl.size() == n, "globals: stored");
    bool empty_rec = symx_choose(2, "emptyrec") != 0;
    std::string text = write_all(db, empty_rec ? std::vector<std::vector<Entry>> { {} } : std::vector<std::vector<Entry>> {}, &gl);
    CaliperMetadataDB rd;
    Collected         c;
    read_text(text, rd, c);
    CHECK(!c.error, ".cali: own output is readable");
    std::vector<Entry> rg = rd.get_globals();
    check_same(flatten(db, gl), flatten(rd, rg), ".cali: globals survive");
    symx_reach("globals");
}

// two streams read into one store: paths and values stay what they were in each stream
ENTRY(c05_two_streams)
{
    uint8_t x = symx_u8("x"), y = symx_u8("y");
    symx_assume(x >= 0x20 && y >= 0x20);
    char sx[2] = { (char) x, 0 }, sy[2] = { (char) y, 0 };
    CaliperMetadataDB a, b;
    // different creation order gives different ids for the same names
    Attribute a1 = a.create_attribute("p", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    Attribute a2 = a.create_attribute("q", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    Attribute b2 = b.create_attribute("q", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    Attribute b0 = b.create_attribute("r", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    Attribute b1 = b.create_attribute("p", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    Variant   va[2] = { Variant(sx), Variant("in") };
    Variant   vb[2] = { Variant(sy), Variant("in") };
    Attribute aa[2] = { a1, a1 }, bb[2] = { b1, b1 };
    std::vector<Entry> ra { Entry(a.make_tree_entry(2, aa, va)), Entry(a2, Variant(1)) };
    Node* nb0 = b.make_tree_entry(1, &b0, vb);
    std::vector<Entry> rb { Entry(b.make_tree_entry(2, bb, vb, symx_choose(2, "nest") ? nb0 : nullptr)), Entry(b2, Variant(2)) };
    std::string ta = write_all(a, { ra }), tb = write_all(b, { rb });
    CaliperMetadataDB rd;
    Collected         ca, cb;
    CaliReader        reader, *rp = symx_choose(2, "reader") ? &reader : nullptr; // one reader may read both
    read_text(ta, rd, ca, rp);
    read_text(tb, rd, cb, rp);
    CHECK(!ca.error && !cb.error && ca.recs.size() == 1 && cb.recs.size() == 1, ".cali: both streams are readable");
    check_same(flatten(a, ra), ca.recs[0], ".cali: first stream's record");
    check_same(flatten(b, rb), cb.recs[0], ".cali: second stream's record");
    // still the same after the second stream has been merged
    check_same(flatten(a, ra), flatten(rd, ca.raw[0]), ".cali: first stream's record after reading the second");
    symx_reach("two");
}

// two threads write records with shared nodes to one writer
ENTRY(c05_nodes_first)
{
    CaliperMetadataDB db;
    Attribute at = db.create_attribute("p", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    Variant   v[3] = { Variant("x"), Variant("y"), Variant("z") };
    Attribute as[3] = { at, at, at };
    Node*     n[3]  = { db.make_tree_entry(1, as, v), db.make_tree_entry(2, as, v), db.make_tree_entry(3, as, v) };
    std::vector<std::vector<Entry>> recs;
    for (int i = 0; i < 3; ++i)
        recs.push_back({ Entry(n[symx_choose(3, "which")]) });
    std::string text = write_all(db, recs);
    // each node is described exactly once and before its first use
    CaliperMetadataDB rd;
    Collected         c;
    read_text(text, rd, c);
    CHECK(!c.error && c.recs.size() == 3, ".cali: records are readable");
    for (int i = 0; i < 3; ++i)
        check_same(flatten(db, recs[i]), c.recs[i], ".cali: record content survives");
    size_t maxd = 0;
    for (auto& r : recs)
        maxd = std::max(maxd, flatten(db, r).size());
    // attribute "p" takes two nodes (properties and name)
    CHECK(c.nodes == (int) maxd + 2, ".cali: each node is written once");
    symx_reach("order");
}
