// C07: the metadata store
#include "rec.h"
#include <set>

namespace
{

struct PN {
    cali_id_t attr;
    Variant   val;
    std::string str;
};

bool same(const std::vector<PN>& a, const std::vector<PN>& b)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i].attr != b[i].attr || !(a[i].val == b[i].val))
            return false;
    return true;
}

std::vector<PN> path_of(const Node* n, const Node* top = nullptr)
{
    std::vector<PN> r;
    for (; n && n != top && n->id() != CALI_INV_ID; n = n->parent())
        r.insert(r.begin(), PN { n->attribute(), n->data(), "" });
    return r;
}

void registered(const CaliperMetadataDB& db, const Node* n)
{
    for (; n && n->id() != CALI_INV_ID; n = n->parent())
        CHECK(db.node(n->id()) == n, "metadata: a node is found by its id");
}

void text_is(const Node* n, const std::string& s, const char* msg)
{
    CHECK(n->data().size() == s.size() && memcmp(n->data().data(), s.data(), s.size()) == 0, msg);
}

} // namespace

// two paths of the given attributes
ENTRY(c07_paths)
{
    CaliperMetadataDB db;
    Attribute at[3] = { db.create_attribute("s", CALI_TYPE_STRING, CALI_ATTR_NESTED), db.create_attribute("i", CALI_TYPE_INT, CALI_ATTR_DEFAULT), db.create_attribute("u", CALI_TYPE_UINT, CALI_ATTR_DEFAULT) };
    Attribute skip = db.create_attribute("v", CALI_TYPE_UINT, CALI_ATTR_ASVALUE);
    size_t    len = symx_param("len", 2);
    std::vector<PN> p[2];
    Node*           n[2];
    for (int k = 0; k < 2; ++k) {
        int     depth = (int) symx_range(1, symx_param(k ? "depth2" : "depth", 2), "depth");
        std::vector<Attribute> aa;
        std::vector<Variant>   vv;
        std::vector<std::unique_ptr<SymStr>> tmp;
        for (int i = 0; i < depth; ++i) {
            int a = (int) symx_choose(symx_param("attrs", 2), "attr");
            if (a == 0) {
                tmp.emplace_back(new SymStr(0, len, nm(k ? "t" : "s", i)));
                vv.push_back(Variant(CALI_TYPE_STRING, tmp.back()->p, tmp.back()->n));
            } else
                vv.push_back(a == 1 ? Variant(cali_make_variant_from_int64((int64_t) symx_u64("i"))) : Variant(cali_make_variant_from_uint(symx_u64("u"))));
            aa.push_back(at[a]);
            p[k].push_back(PN { at[a].id(), vv.back(), a == 0 ? tmp.back()->str() : "" });
            if (i == 0 && depth == 1 && k == 0 && symx_choose(2, "skipped")) { // value attributes are not part of paths
                aa.push_back(skip);
                vv.push_back(Variant(cali_make_variant_from_uint(7)));
            }
        }
        n[k] = db.make_tree_entry(aa.size(), aa.data(), vv.data());
        CHECK(n[k] != nullptr, "metadata: a path is created");
        std::vector<PN> q = path_of(n[k]);
        CHECK(same(q, p[k]), "metadata: a path has the given attributes and values");
        registered(db, n[k]);
        // the store keeps its own copy
        for (auto& s : tmp) {
            for (size_t i = 0; i < s->n; ++i)
                s->p[i] = '#';
        }
        p[k] = q;
    }
    CHECK((n[0] == n[1]) == same(p[0], p[1]), "metadata: equal paths have the same node, different paths don't");
    CHECK((n[0]->id() == n[1]->id()) == (n[0] == n[1]), "metadata: node ids are unique");
    symx_reach(n[0] == n[1] ? "equal" : "different");
}

// paths under a parent, from node lists
ENTRY(c07_lists)
{
    CaliperMetadataDB db;
    Attribute A = db.create_attribute("A", CALI_TYPE_INT, CALI_ATTR_DEFAULT), B = db.create_attribute("B", CALI_TYPE_INT, CALI_ATTR_DEFAULT);
    auto val = [](const char* s) { return Variant(cali_make_variant_from_int((int) symx_range(0, 2, s))); };
    Node* parent = nullptr;
    std::vector<PN> top;
    if (symx_choose(2, "parent")) {
        Variant v = val("p");
        parent    = db.make_tree_entry(1, &A, &v);
        top.push_back(PN { A.id(), v, "" });
    }
    Node* n[2];
    std::vector<PN> want[2];
    for (int k = 0; k < 2; ++k) {
        std::vector<Attribute>   aa;
        std::vector<Variant>     vv;
        std::vector<const Node*> nl;
        want[k] = top;
        int     depth = (int) symx_range(1, symx_param("depth", 2), "depth");
        bool    list  = symx_choose(2, "list");
        Node*   other = nullptr;
        for (int i = 0; i < depth; ++i) {
            Attribute a = symx_choose(2, "attr") ? A : B;
            Variant   v = val(nm("v", i));
            if (list) {
                other = db.make_tree_entry(1, &a, &v, symx_choose(2, "deep") ? other : nullptr);
                nl.push_back(other);
            } else {
                aa.push_back(a);
                vv.push_back(v);
            }
            want[k].push_back(PN { a.id(), v, "" });
        }
        n[k] = list ? db.make_tree_entry(nl.size(), nl.data(), parent) : db.make_tree_entry(aa.size(), aa.data(), vv.data(), parent);
        CHECK(n[k] && same(path_of(n[k]), want[k]), "metadata: a path under a parent has its attributes and values");
        registered(db, n[k]);
    }
    CHECK((n[0] == n[1]) == same(want[0], want[1]), "metadata: equal paths have the same node, different paths don't");
    symx_reach("lists");
}

// strings are interned
ENTRY(c07_strings)
{
    CaliperMetadataDB db;
    Attribute         A = db.create_attribute("A", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    const int         N = (int) symx_param("n", 3);
    std::vector<std::string> s;
    std::vector<Node*>       n;
    for (int i = 0; i < N; ++i) {
        SymStr  t(0, symx_param("len", 2), nm("s", i));
        Variant v(CALI_TYPE_STRING, t.p, t.n);
        s.push_back(t.str());
        n.push_back(db.make_tree_entry(1, &A, &v));
    }
    for (int i = 0; i < N; ++i) {
        text_is(n[i], s[i], "metadata: a string has the given text");
        CHECK(((const char*) n[i]->data().data())[s[i].size()] == 0, "metadata: a string is terminated");
        for (int k = 0; k < i; ++k)
            CHECK((n[i] == n[k]) == (s[i] == s[k]), "metadata: equal strings have the same node, different strings don't");
    }
    symx_reach("strings");
}

namespace
{

struct AttrDef {
    std::string    name;
    cali_attr_type type;
    int            prop;
    bool           meta[2];
    Variant        mv[2];
};

void check_attr(CaliperMetadataDB& db, const Attribute& a, const AttrDef& d, const Attribute m[2], const char* unit, const char* alias)
{
    CHECK((bool) a && a.name() == d.name && a.type() == d.type && a.properties() == d.prop, "metadata: an attribute has its name, type and properties");
    for (int i = 0; i < 2; ++i)
        CHECK(d.meta[i] ? a.get(m[i]) == d.mv[i] : a.get(m[i]).empty(), "metadata: an attribute has its metadata");
    CHECK(db.get_attribute(a.id()) == a && db.get_attribute(d.name) == a, "metadata: an attribute is found by its id and name");
    Variant u = a.get(db.get_attribute("attribute.unit")), l = a.get(db.get_attribute("attribute.alias"));
    CHECK(unit ? u.to_string() == unit : u.empty(), "metadata: an attribute has its unit");
    CHECK(alias ? l.to_string() == alias : l.empty(), "metadata: an attribute has its alias");
    int n = 0;
    for (const Attribute& b : db.get_all_attributes())
        n += b.name() == d.name;
    CHECK(n == 1, "metadata: an attribute is listed once");
}

} // namespace

// an attribute name identifies one attribute
ENTRY(c07_attributes)
{
    CaliperMetadataDB db;
    Attribute m[2] = { db.create_attribute("m.int", CALI_TYPE_INT, symx_choose(2, "meta as value") ? CALI_ATTR_ASVALUE : CALI_ATTR_DEFAULT), db.create_attribute("m.bool", CALI_TYPE_BOOL, CALI_ATTR_SKIP_EVENTS) };
    static const int props[] = { CALI_ATTR_DEFAULT, CALI_ATTR_NESTED, CALI_ATTR_ASVALUE | CALI_ATTR_SCOPE_PROCESS, CALI_ATTR_GLOBAL | CALI_ATTR_SKIP_EVENTS };
    int  ua = 2 * (int) symx_choose(2, "unit and alias");
    bool unit = ua > 0, alias = ua > 1;
    if (unit)
        db.add_attribute_units({ { "x", "sec" } });
    if (alias)
        db.add_attribute_aliases({ { "x", "The x" }, { "z", "y" } });
    AttrDef   d[2];
    Attribute a[2];
    for (int k = 0; k < 2; ++k) {
        static const char* const names[2][3] = { { "x", "z", "" }, { "x", "name2", "q" } };
        int pick = (int) symx_choose(3, "name");
        if (k == 0 && pick == 2)
            d[k].name = SymStr(1, symx_param("len", 1), "name").str();
        else
            d[k].name = names[k][pick];
        d[k].type = k == 0 ? (cali_attr_type) symx_range(CALI_TYPE_USR, CALI_MAXTYPE, "type") : CALI_TYPE_STRING;
        d[k].prop = props[k == 0 ? ((int) d[k].type + symx_choose(symx_param("props", 1), "prop")) % 4 : 1];
        std::vector<Attribute> ma;
        std::vector<Variant>   mv;
        d[k].mv[0] = Variant(cali_make_variant_from_int((int) symx_range(0, 3, "meta")));
        d[k].mv[1] = Variant(true);
        int w = k == 0 ? (int) symx_choose(4, "has meta") : 2 * (int) symx_choose(2, "has meta");
        for (int i = 0; i < 2; ++i) {
            d[k].meta[i] = (w >> i) & 1;
            if (d[k].meta[i]) {
                ma.push_back(m[i]);
                mv.push_back(d[k].mv[i]);
            }
        }
        a[k] = db.create_attribute(d[k].name, d[k].type, d[k].prop, (int) ma.size(), ma.data(), mv.data());
        if (k == 1 && d[0].name == d[1].name) {
            CHECK(a[0] == a[1], "metadata: a name identifies one attribute");
            d[1] = d[0];
            symx_reach("same name");
        } else if (k == 1) {
            CHECK(!(a[0] == a[1]) && a[0].id() != a[1].id(), "metadata: attributes of different names are different");
            symx_reach("different name");
        }
    }
    for (int k = 0; k < 2; ++k) {
        bool x = d[k].name == "x";
        check_attr(db, a[k], d[k], m, x && unit ? "sec" : nullptr, alias ? (x ? "The x" : d[k].name == "z" ? "y" : nullptr) : nullptr);
    }
    CHECK(!db.get_attribute("none") && !db.get_attribute((cali_id_t) 7) && !db.get_attribute(CALI_INV_ID), "metadata: other attributes are not found");
}

// any id finds a node with that id or nothing
ENTRY(c07_ids)
{
    CaliperMetadataDB db;
    Attribute         A = db.create_attribute("A", CALI_TYPE_INT, CALI_ATTR_DEFAULT);
    for (int i = 0; i < 4; ++i) {
        Variant v(i);
        db.make_tree_entry(1, &A, &v);
    }
    cali_id_t id = symx_u64("id");
    Node*     n  = db.node(id);
    if (n)
        CHECK(n->id() == id, "metadata: a node is found by its id");
    else
        CHECK(id > 12, "metadata: the base nodes exist");
    Attribute a = db.get_attribute(id);
    CHECK(!a || (n && n->attribute() == Attribute::NAME_ATTR_ID && a.id() == id), "metadata: an attribute is found by its id");
    symx_reach(n ? "found" : "not found");
}

namespace
{

struct Source {
    std::unique_ptr<CaliperMetadataDB> db { new CaliperMetadataDB };
    Attribute m, s, i, b, vs, vi, g, gv;

    void create(int order)
    {
        m = db->create_attribute("meta", CALI_TYPE_INT, CALI_ATTR_DEFAULT);
        Variant mv(42);
        if (order & 1)
            i = db->create_attribute("i", CALI_TYPE_INT, CALI_ATTR_DEFAULT, 1, &m, &mv);
        s  = db->create_attribute("s", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        i  = db->create_attribute("i", CALI_TYPE_INT, CALI_ATTR_DEFAULT, 1, &m, &mv);
        b  = db->create_attribute("b", CALI_TYPE_USR, CALI_ATTR_DEFAULT);
        vs = db->create_attribute("vs", CALI_TYPE_STRING, CALI_ATTR_ASVALUE);
        vi = db->create_attribute("vi", CALI_TYPE_UINT, CALI_ATTR_ASVALUE);
        g  = db->create_attribute("g", CALI_TYPE_STRING, CALI_ATTR_GLOBAL);
        gv = db->create_attribute("gv", CALI_TYPE_INT, CALI_ATTR_GLOBAL | CALI_ATTR_ASVALUE);
    }
};

// content that does not refer to the store anymore
struct Own {
    std::string    name;
    cali_attr_type type;
    int            prop;
    bool           imm;
    std::string    bytes; // text or blob
    uint64_t       bits;
    int64_t        meta;
};

std::vector<Own> own(CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec)
{
    std::vector<Own> out;
    Attribute        m = db.get_attribute("meta");
    auto add = [&](Attribute a, const Variant& v, bool imm, size_t at) {
        Own o { a.name(), a.type(), a.properties(), imm, "", 0, 0 };
        if (v.type() == CALI_TYPE_STRING || v.type() == CALI_TYPE_USR)
            o.bytes = std::string((const char*) v.data(), v.size());
        else
            o.bits = bits(v);
        CHECK(v.type() == a.type(), "metadata: a value has the type of its attribute");
        Variant mv = a.get(m);
        o.meta = mv.empty() ? -1 : mv.to_int();
        out.insert(out.begin() + at, o);
    };
    for (const Entry& e : rec) {
        if (e.is_immediate())
            add(db.get_attribute(e.attribute()), e.value(), true, out.size());
        else {
            size_t at = out.size();
            for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent()) {
                add(db.get_attribute(n->attribute()), n->data(), false, at);
                CHECK(db.node(n->id()) == n, "metadata: an imported node belongs to the store");
            }
        }
    }
    return out;
}

void same_own(const std::vector<Own>& a, const std::vector<Own>& b, const char* msg)
{
    CHECK(a.size() == b.size(), msg);
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
        CHECK(a[i].name == b[i].name && a[i].type == b[i].type && a[i].prop == b[i].prop && a[i].imm == b[i].imm && a[i].bytes == b[i].bytes && a[i].bits == b[i].bits && a[i].meta == b[i].meta, msg);
}

} // namespace

// records imported from a store that goes away
ENTRY(c07_import)
{
    Source   src;
    src.create((int) symx_choose(2, "order"));
    CaliperMetadataDB dst;
    int before = (int) symx_choose(3, "destination has");
    if (before == 1)
        dst.create_attribute("other", CALI_TYPE_DOUBLE, CALI_ATTR_ASVALUE);
    if (before == 2) { // the same attributes and a node under different ids
        Attribute i = dst.create_attribute("zero", CALI_TYPE_INT, CALI_ATTR_DEFAULT);
        Variant v(0);
        dst.make_tree_entry(1, &i, &v);
        Attribute s = dst.create_attribute("s", CALI_TYPE_STRING, CALI_ATTR_NESTED);
        Variant t("x");
        dst.make_tree_entry(1, &s, &t);
    }
    std::vector<Entry> rec;
    SymStr  str(0, symx_param("len", 2), "str"), blob(1, symx_param("len", 2), "blob", false);
    uint64_t u = symx_u64("u");
    int      w = (int) symx_range(1, 15, "parts");
    if (w & 1) {
        Attribute aa[3] = { src.s, src.i, src.s };
        Variant   vv[3] = { Variant(CALI_TYPE_STRING, str.p, str.n), Variant(cali_make_variant_from_int64((int64_t) u)), Variant("leaf") };
        rec.push_back(Entry(src.db->make_tree_entry((size_t) symx_range(1, 3, "depth"), aa, vv)));
    }
    if (w & 2) {
        Variant v(CALI_TYPE_USR, blob.p, blob.n);
        rec.push_back(Entry(src.db->make_tree_entry(1, &src.b, &v)));
    }
    if (w & 4)
        rec.push_back(Entry(src.vi, Variant(cali_make_variant_from_uint(u))));
    if (w & 8)
        rec.push_back(Entry(src.vs, Variant(CALI_TYPE_STRING, str.p, str.n)));
    std::vector<Own> a = own(*src.db, rec);
    EntryList one = dst.merge_snapshot(*src.db, rec), two = dst.merge_snapshot(*src.db, rec);
    CaliperMetadataDB third;
    EntryList three = third.merge_snapshot(dst, one);
    src.db.reset();
    for (size_t i = 0; i < str.n; ++i)
        str.p[i] = '#';
    for (size_t i = 0; i < blob.n; ++i)
        blob.p[i] = '#';
    same_own(a, own(dst, one), "metadata: an imported record has the same content");
    same_own(a, own(third, three), "metadata: a record imported twice has the same content");
    CHECK(one.size() == two.size(), "metadata: importing a record again gives the same record");
    for (size_t i = 0; i < one.size(); ++i)
        CHECK(one[i].node() == two[i].node() && one[i].attribute() == two[i].attribute(), "metadata: importing a record again gives the same nodes");
    symx_reach("import");
}

// globals
ENTRY(c07_globals)
{
    Source src;
    src.create(0);
    Attribute g2 = src.db->create_attribute("g2", CALI_TYPE_INT, CALI_ATTR_GLOBAL);
    Attribute gs = src.db->create_attribute("gs", CALI_TYPE_STRING, CALI_ATTR_GLOBAL | CALI_ATTR_ASVALUE);
    std::vector<std::pair<std::string, std::string>> text; // g, in order
    std::vector<int> num;
    bool has_v = false, has_s = false;
    int  v = 0;
    std::string s;
    for (int k = 0; k < (int) symx_param("sets", 3); ++k) {
        switch (symx_choose(5, "op")) {
        case 0: {
            std::string t(1, (char) ('a' + symx_choose(2, "text")));
            src.db->set_global(src.g, Variant(t.c_str()));
            bool have = false;
            for (auto& p : text)
                have = have || p.second == t;
            if (!have)
                text.push_back(std::make_pair("g", t));
            break;
        }
        case 1: {
            int t = (int) symx_choose(2, "num");
            src.db->set_global(g2, Variant(t));
            bool have = false;
            for (int x : num)
                have = have || x == t;
            if (!have)
                num.push_back(t);
            break;
        }
        case 2:
            v = (int) symx_range(0, 100, nm("v", k));
            src.db->set_global(src.gv, Variant(cali_make_variant_from_int(v)));
            has_v = true;
            break;
        case 3: // not a global
            src.db->set_global(src.s, Variant("no"));
            break;
        case 4: {
            SymStr t(0, 1, nm("t", k));
            src.db->set_global(gs, Variant(CALI_TYPE_STRING, t.p, t.n));
            s     = t.str();
            has_s = true;
            break;
        }
        }
    }
    CaliperMetadataDB dst;
    if (symx_choose(2, "shift")) {
        Attribute o = dst.create_attribute("o", CALI_TYPE_INT, CALI_ATTR_GLOBAL | CALI_ATTR_ASVALUE);
        dst.set_global(o, Variant(1)); // replaced by the import
    }
    auto check = [&](CaliperMetadataDB& db) {
        std::vector<Own> o = own(db, db.get_globals());
        size_t nt = 0, nn = 0, nv = 0, ns = 0;
        for (const Own& x : o) {
            if (x.name == "g")
                CHECK(nt < text.size() && x.bytes == text[nt++].second, "metadata: globals have the values that were set");
            else if (x.name == "g2")
                CHECK(nn < num.size() && (int) x.bits == num[nn++], "metadata: globals have the values that were set");
            else if (x.name == "gv")
                CHECK(has_v && !nv++ && (int) x.bits == v, "metadata: a global value is the one set last");
            else if (x.name == "gs")
                CHECK(has_s && !ns++ && x.bytes == s, "metadata: a global value is the one set last");
            else
                CHECK(false, "metadata: there are no other globals");
        }
        CHECK(nt == text.size() && nn == num.size() && nv == has_v && ns == has_s, "metadata: no global is lost");
    };
    check(*src.db);
    dst.import_globals(*src.db);
    src.db.reset();
    check(dst);
    // setting the same values again changes nothing
    for (auto& t : text)
        dst.set_global(dst.get_attribute("g"), Variant(t.second.c_str()));
    for (int n : num)
        dst.set_global(dst.get_attribute("g2"), Variant(n));
    check(dst);
    symx_reach("globals");
}

// nodes of two streams with their own ids
ENTRY(c07_streams)
{
    CaliperMetadataDB db;
    Attribute A = db.create_attribute("A", CALI_TYPE_INT, CALI_ATTR_DEFAULT);
    std::map<cali_id_t, std::vector<PN>> model[2];
    IdMap idmap[2];
    std::vector<cali_id_t> ids[2];
    bool text = symx_choose(2, "text");
    for (int k = 0; k < (int) symx_param("nodes", 4); ++k) {
        int       st = (int) symx_choose(2, "stream");
        cali_id_t id = 20 + symx_range(0, 2, nm("id", k));
        id = symx_concretize(id);
        if (model[st].count(id))
            return; // an id is defined once
        cali_id_t parent = CALI_INV_ID;
        std::vector<PN> p;
        if (!ids[st].empty()) {
            size_t w = symx_choose(ids[st].size() + 1, "parent");
            if (w) {
                parent = ids[st][w - 1];
                p      = model[st][parent];
            }
        }
        Variant v(cali_make_variant_from_int((int) symx_choose(2, "val")));
        p.push_back(PN { A.id(), v, "" });
        Node* n = text == (st == 0) ? db.merge_node(id, A.id(), parent, v.to_string(), idmap[st]) : db.merge_node(id, A.id(), parent, v, idmap[st]);
        CHECK(n && same(path_of(n), p), "metadata: a merged node has its path");
        registered(db, n);
        model[st][id] = p;
        ids[st].push_back(id);
    }
    for (int st = 0; st < 2; ++st)
        for (cali_id_t id : ids[st]) {
            Entry e = db.merge_entry(id, idmap[st]);
            CHECK(e.is_reference() && same(path_of(e.node()), model[st][id]), "metadata: a stream's id refers to its own node");
            EntryList l = db.merge_snapshot(1, &id, 0, nullptr, nullptr, idmap[st]);
            CHECK(l.size() == 1 && l[0].node() == e.node(), "metadata: a stream's id refers to its own node");
            for (int so = 0; so < 2; ++so)
                for (cali_id_t io : ids[so])
                    CHECK((db.merge_entry(io, idmap[so]).node() == e.node()) == same(model[so][io], model[st][id]), "metadata: equal paths of two streams have the same node");
        }
    symx_reach("streams");
}
