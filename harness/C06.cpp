// C06: no input makes the .cali reader misbehave
#include "rec.h"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/QueryProcessor.h"
#include "caliper/reader/QuerySpec.h"

// a small well-formed stream that the damaged line follows: attribute 14 "a" (string, nested), 15 "n" (int, as value), node 16
static const char* preamble =
    "__rec=node,id=12,attr=10,data=276,parent=3\n"
    "__rec=node,id=13,attr=8,data=a,parent=12\n"
    "__rec=node,id=14,attr=10,data=1,parent=1\n"
    "__rec=node,id=15,attr=8,data=n,parent=14\n"
    "__rec=node,id=16,attr=13,data=x\n";

// what a client does with the records it gets
static void use(CaliperMetadataAccessInterface& db, const EntryList& rec)
{
    for (const Entry& e : rec) {
        CHECK(!e.empty(), "reader: no empty entries in a record");
        if (e.empty())
            continue;
        Attribute a = db.get_attribute(e.attribute());
        CHECK(a, "reader: the attribute of an entry exists");
        a.name();
        a.type();
        a.properties();
        e.value().to_string();
        int n = 0;
        for (const Node* p = e.node(); p && p->id() != CALI_INV_ID; p = p->parent()) {
            CHECK(db.node(p->id()) == p, "reader: entries refer to nodes of the store");
            p->data().to_string();
            CHECK(++n < 64, "reader: node paths are finite");
        }
    }
}

static const char* queries[] = { "", "select * aggregate sum(n),count() group by a", "select * format expand", "select * format json" };

struct Sinks {
    std::ostringstream os;
    OutputStream out;
    std::unique_ptr<QueryProcessor> q;
    explicit Sinks(int which)
    {
        if (which) {
            out.set_stream(&os);
            CalQLParser p(queries[which]);
            q.reset(new QueryProcessor(p.spec(), out));
        }
    }
    void operator() (CaliperMetadataAccessInterface& db, const EntryList& rec)
    {
        use(db, rec);
        if (q)
            q->process_record(db, rec);
    }
    void finish(CaliperMetadataDB& db)
    {
        if (q)
            q->flush(db);
    }
};

static void run(const std::string& text, int which)
{
    CaliperMetadataDB db;
    Sinks             s(which);
    std::istringstream is(text);
    CaliReader r;
    int n = 0;
    r.read(is, db, [&](CaliperMetadataAccessInterface& d, const Node* node) {
        CHECK(node != nullptr, "reader: node callback gets a node");
        d.get_attribute(node->attribute()).name();
    }, [&](CaliperMetadataAccessInterface& d, const EntryList& l) { ++n; s(d, l); });
    r.error_msg();
    use(db, db.get_globals());
    for (const Attribute& a : db.get_all_attributes()) {
        a.name();
        a.type();
        a.properties();
    }
    s.finish(db);
}

// any bytes behind a record kind
static void tail(const char* kind, const char* ext, const char* label)
{
    size_t n = symx_param("len", 4);
    SymStr s(0, n, "tail", false);
    for (size_t i = 0; i < s.n; ++i)
        symx_assume(s.p[i] != '\n');
    run(std::string(preamble) + kind + s.str() + ext + "\n__rec=ctx,ref=16,attr=15,data=7\n", 0);
    symx_reach(label);
}

ENTRY(c06_any_line) { tail("", "", "line"); }
ENTRY(c06_any_kind) { tail("__rec=", "", "kind"); }
ENTRY(c06_node_tail) { tail("__rec=node,", "", "node"); }
ENTRY(c06_node_data_tail) { tail("__rec=node,id=17,attr=13,data=", "", "data"); }
ENTRY(c06_ctx_data_tail) { tail("__rec=ctx,ref=16,attr=15,data=", "", "data"); }

// records made of any fields with any values
static void fields(const char* kind, const char* const* keys, int nk, const char* label)
{
    size_t n = symx_param("len", 2);
    std::string t = std::string(preamble) + kind;
    for (int i = 0; i < 2; ++i) {
        t += std::string(",") + keys[symx_choose(nk, "key")];
        SymStr s(0, n, "v", false);
        for (size_t i = 0; i < s.n; ++i)
            symx_assume(s.p[i] != '\n');
        t += s.str();
    }
    run(t + "\n__rec=ctx,ref=16,attr=15,data=7\n", 0);
    symx_reach(label);
}

static const char* const node_keys[] = { "id=", "attr=", "data=", "parent=" };
static const char* const rec_keys[] = { "ref=", "attr=", "data=" };

ENTRY(c06_node_fields) { fields("__rec=node,id=17", node_keys + 1, 3, "fields"); }
static const char* const id_keys[] = { "id=", "parent=" };
ENTRY(c06_node_id) { fields("__rec=node,attr=13,data=x", id_keys, 2, "fields"); }
ENTRY(c06_ctx_fields) { fields("__rec=ctx", rec_keys, 3, "fields"); }
ENTRY(c06_globals_fields) { fields("__rec=globals", rec_keys, 3, "fields"); }

// an id from 0 to 19: built-in nodes, nodes of the stream, the node at hand, unknown nodes
static std::string id20(const char* name)
{
    std::string s;
    if (symx_choose(2, "hi"))
        s.push_back('1');
    s.push_back((char) ('0' + symx_range(0, 9, name)));
    return s;
}

static const char* datas[] = { "1", "x", "", "string", "18446744073709551616", "1.5e400" };

static int sink()
{
    return (int) symx_choose(symx_param("sinks", 2), "sink");
}
static const char* data(const char* name)
{
    return datas[symx_choose(symx_param("datas", 2), name)];
}

// node records with arbitrary ids: dangling, built-in, self-referring, of the wrong kind
ENTRY(c06_node_ids)
{
    std::string t = preamble;
    int k = (int) symx_choose(4, "parent");
    t += "__rec=node,id=17,attr=" + id20("attr") + ",data=" + data("data");
    if (k == 1)
        t += ",parent=" + id20("parent");
    else if (k == 2)
        t += ",parent=17";
    else if (k == 3)
        t += ",parent=18446744073709551615";
    t += "\n__rec=ctx,ref=17\n__rec=node,id=18,attr=13,data=y,parent=17\n__rec=ctx,ref=18,attr=15,data=3\n__rec=globals,ref=17\n";
    run(t, sink());
    symx_reach("ids");
}

// a node record that reuses any id
ENTRY(c06_node_reuse)
{
    std::string t = preamble;
    std::string id = id20("id");
    t += "__rec=node,id=" + id + ",attr=" + (symx_choose(2, "attr") ? "13" : "15") + ",data=1";
    if (symx_choose(2, "haveparent"))
        t += ",parent=" + id20("parent");
    t += "\n__rec=node,id=18,attr=13,data=y,parent=" + id + "\n__rec=ctx,ref=18,attr=15,data=3\n__rec=globals,ref=" + id + "\n";
    run(t, sink());
    symx_reach("reuse");
}

// a node record with arbitrary ids that is then used as an attribute
ENTRY(c06_attr_ids)
{
    std::string t = preamble;
    t += "__rec=node,id=17,attr=" + id20("attr") + ",data=" + data("data");
    if (symx_choose(2, "haveparent"))
        t += ",parent=" + id20("parent");
    t += "\n__rec=node,id=18,attr=17,data=" + std::string(data("data2")) + "\n__rec=ctx,ref=18,attr=17,data=1\n__rec=globals,ref=18,attr=17,data=2\n";
    run(t, sink());
    symx_reach("attr");
}

// snapshot records with arbitrary references
ENTRY(c06_ctx_ids)
{
    std::string t = preamble;
    t += symx_choose(2, "glob") ? "__rec=ctx" : "__rec=globals";
    int nr = (int) symx_choose(3, "nr"), na = (int) symx_choose(2, "na"), nd = (int) symx_choose(3, "nd");
    for (int i = 0; i < nr; ++i)
        t += std::string(i ? "=" : ",ref=") + (i ? std::string("16") : id20("ref"));
    for (int i = 0; i < na; ++i)
        t += ",attr=" + id20("attr");
    for (int i = 0; i < nd; ++i)
        t += std::string(i ? "=" : ",data=") + (i ? "1" : data("data"));
    t += "\n__rec=ctx,ref=16,attr=15,data=7\n";
    run(t, sink());
    symx_reach("ctx");
}

// truncation at any byte
ENTRY(c06_truncated)
{
    static const char* lines[] = { "__rec=node,id=17,attr=13,data=y\\\\z,parent=16\n", "__rec=ctx,ref=16=16,attr=15=15,data=1=2\n", "__rec=globals,ref=16,attr=15,data=1\\n\n" };
    std::string l = lines[symx_choose(3, "line")];
    size_t      n = symx_choose(l.size(), "cut");
    if (n < 6)
        n = l.size() - 1 - n;
    int         c = (int) symx_choose(3, "what");
    std::string t = std::string(preamble);
    if (c == 0)
        t += l.substr(0, n);
    else if (c == 1) {
        // one byte replaced by any other
        uint8_t b = symx_u8("byte");
        l[n] = (char) b;
        t += l;
    } else
        t += l.substr(0, n) + l.substr(n + 1);
    run(t, 0);
    symx_reach("cut");
}
