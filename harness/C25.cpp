// C25: aggregation across processes equals aggregation of all data
#include "C14.cpp"
#include "mpi.h"
#include <set>
#include "caliper/cali-mpi.h"

#include "mpimodel.h"

// ---- the processes

struct Job {
    std::vector<R>   rs;
    std::vector<int> rank; // of each record
    int              t;    // type of the metrics
    G                g;
    Ks               ks;
    bool             bare; // processes without records don't know the attributes
};

static cali_attr_type xtype(int t) { return t == 0 ? CALI_TYPE_INT : t == 3 ? CALI_TYPE_DOUBLE : CALI_TYPE_UINT; }

static void process(const Job& j, int r)
{
    CalQLParser p(query(j.ks, j.g).c_str());
    CHECK(!p.error(), "query is accepted");
    bool has = !j.bare;
    for (int k : j.rank)
        has |= k == r;
    Aggregator                a(p.spec());
    std::unique_ptr<Db>       d;
    CaliperMetadataDB         none;
    CaliperMetadataDB*        db = &none;
    if (has) {
        d.reset(new Db((r * 2 + 1) % 4));
        d->metrics(xtype(j.t), j.t == 3 ? CALI_TYPE_DOUBLE : CALI_TYPE_UINT);
        db = &d->db;
        for (size_t i = 0; i < j.rs.size(); ++i)
            if (j.rank[i] == r)
                a.add(*db, make_rec(*d, j.rs[i].form, j.rs[i].x, j.rs[i].y, j.rs[i].it).rec);
    }
    aggregate_over_mpi(*db, a, MPI_COMM_WORLD);
    if (r != 0)
        return;
    Out out;
    a.flush(*db, [&](CaliperMetadataAccessInterface&, const EntryList& l) { out.push_back(l); });
    if (has) {
        check_all(*d, out, j.rs, j.g, j.ks);
        return;
    }
    // the attributes came from the other processes
    Db v;
    v.metrics(xtype(j.t), j.t == 3 ? CALI_TYPE_DOUBLE : CALI_TYPE_UINT);
    for (auto& o : out)
        for (const Entry& e : o) {
            for (const Node* n = e.is_reference() ? e.node() : nullptr; n && n->attribute() != CALI_INV_ID; n = n->parent()) {
                Attribute x = none.get_attribute(n->attribute());
                Attribute w = v.db.get_attribute(x.name());
                CHECK(w && w.type() == x.type() && w.properties() == x.properties(), "attributes keep their name, type and properties");
            }
            if (e.is_immediate()) {
                Attribute x = none.get_attribute(e.attribute());
                CHECK(!!x, "attributes of results exist");
                Attribute w = v.db.get_attribute(x.name());
                CHECK(!w || (w.type() == x.type() && w.properties() == x.properties()), "attributes keep their name, type and properties");
            }
        }
    Out moved;
    for (auto& o : out)
        moved.push_back(v.db.merge_snapshot(none, o));
    check_all(v, moved, j.rs, j.g, j.ks);
}

static void run_all(const Job& j, int size)
{
    run_processes(size, [&](int r) { process(j, r); });
}

static Job job(Db& d, int size, int n, int forms, const G& g, int t, bool full)
{
    Job j { {}, {}, t, g, {}, false };
    d.metrics(xtype(t), t == 3 ? CALI_TYPE_DOUBLE : CALI_TYPE_UINT);
    j.rs = sym_recs(d, n, forms, t, g, full);
    for (int i = 0; i < n; ++i)
        j.rank.push_back((int) symx_choose(size, nm("rank", i)));
    return j;
}

// any distribution of records over any number of processes
ENTRY(c25_ranks)
{
    Db  d;
    int size = 1 + (int) symx_choose((uint64_t) symx_param("size", 5), "size");
    int t    = (int) symx_choose((uint64_t) symx_param("types", 1), "type");
    Job j    = job(d, size, (int) symx_param("recs", 2), (int) symx_param("forms", 3), groups[1], t, false);
    j.ks     = symx_choose(2, "part") ? Ks { 0, 1 } : Ks { 2, 11 };
    j.bare   = symx_choose(2, "bare");
    run_all(j, size);
    symx_reach("ranks");
}

// operators and groupings
ENTRY(c25_ops)
{
    static const int gs[] = { 0, 1, 3, 4, 6 };
    Db               d;
    int              size = 2;
    Job              j    = job(d, size, 2, (int) symx_param("forms", 4), groups[gs[symx_choose((uint64_t) symx_param("groups", 5), "group")]], symx_param("wide", 0) ? 1 : 2, true);
    static const Ks  parts[] = { { 0, 1 }, { 2, 3 }, { 4 }, { 5, 11 }, { 13, 14 } };
    j.ks = parts[symx_choose(5, "part")];
    run_all(j, size);
    symx_reach("ops");
}

ENTRY(c25_fp)
{
    static const int gs[] = { 1, 3 };
    Db               d;
    Job              j { {}, {}, 1, groups[gs[symx_choose(2, "group")]], { 12, 15, 16 }, false };
    d.metrics(CALI_TYPE_UINT, CALI_TYPE_UINT);
    int sym = (int) symx_choose(2, "sym"), h = (int) symx_choose(3, "has");
    for (int i = 0; i < 2; ++i) {
        uint64_t x = i == sym ? symx_choose((uint64_t) symx_param("vals", 3), "x") * 3 : 5, y = i == sym ? 3 : 4;
        j.rs.push_back(make_rec(d, (int) symx_choose((uint64_t) symx_param("forms", 2), nm("form", i)), h == i + 1 ? Variant() : Variant(cali_make_variant_from_uint(x)), Variant(cali_make_variant_from_uint(y)), Variant()));
        j.rank.push_back((int) symx_choose(2, nm("rank", i)));
    }
    if (symx_choose(2, "part"))
        j.ks = { 6, 7, 8, 9 };
    run_all(j, 2);
    symx_reach("fp");
}

// statistics of real numbers
ENTRY(c25_stat)
{
    static const double vs[] = { 0.0, 1.0, -2.5, 1024.0 };
    Db                  d;
    int                 size = 2 + (int) symx_choose(2, "size");
    Job                 j    { {}, {}, 3, groups[2], { 10 }, (bool) symx_choose(2, "bare") };
    d.metrics(CALI_TYPE_DOUBLE, CALI_TYPE_DOUBLE);
    if (symx_choose(2, "kernels"))
        j.ks = { 1, 2, 3, 4 };
    for (int i = 0; i < 3; ++i) {
        j.rs.push_back(make_rec(d, 1 + i % 2, Variant(vs[i == 1 ? symx_choose(4, "x") : (uint64_t) i]), Variant(2.0), Variant()));
        j.rank.push_back((int) symx_choose(size, nm("rank", i)));
    }
    run_all(j, size);
    symx_reach("stat");
}

// many processes with one record each
ENTRY(c25_many)
{
    int            size = (int) symx_param("lo", 6) + (int) symx_choose((uint64_t) symx_param("n", 4), "size");
    Db             d;
    Job            j { {}, {}, 1, groups[2], { 0, 1, 3, 11 }, false };
    d.metrics(CALI_TYPE_UINT, CALI_TYPE_UINT);
    int            sym = symx_param("all", 0) ? (int) symx_choose(size, "sym") : (size * 2 / 3);
    for (int i = 0; i < size; ++i) {
        Variant x = i == sym ? sym_metric(1, "x") : Variant(cali_make_variant_from_uint(1ull << i));
        j.rs.push_back(make_rec(d, 1 + i % 2, x, Variant(), Variant()));
        j.rank.push_back(i);
    }
    run_all(j, size);
    symx_reach("many");
}

// records with many metrics and many reference entries
ENTRY(c25_wide)
{
    static const int ms[] = { 1, 10, 40, 60, 100, 127 }, gs[] = { 1, 9, 40, 100 };
    int      nmet = ms[symx_choose((uint64_t) symx_param("metrics", 6), "metrics")], ng = gs[symx_choose((uint64_t) symx_param("keys", 4), "keys")];
    uint64_t big = symx_choose(2, "big") ? (1ull << 62) - 1 : 3;
    int      from = (int) symx_choose(2, "from"); // both processes, or only the second one
    std::string q = "AGGREGATE ";
    for (int i = 0; i < nmet; ++i)
        q += (i ? ",sum(m" : "sum(m") + std::to_string(i) + ")";
    q += " GROUP BY ";
    for (int i = 0; i < ng; ++i)
        q += (i ? ",k" : "k") + std::to_string(i);
    s_size = 2;
    s_msgs.clear();
    for (int r = 1; r >= 0; --r) {
        s_rank = r;
        s_sent = 0;
        CalQLParser p(q.c_str());
        CHECK(!p.error(), "query is accepted");
        Aggregator         a(p.spec());
        CaliperMetadataDB  db;
        if (r >= from) {
            std::vector<Entry> rec;
            for (int i = 0; i < ng; ++i) {
                Attribute k = db.create_attribute("k" + std::to_string(i), CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
                Variant   v("v");
                rec.push_back(Entry(db.make_tree_entry(1, &k, &v)));
            }
            for (int i = 0; i < nmet; ++i)
                rec.push_back(Entry(db.create_attribute("m" + std::to_string(i), CALI_TYPE_UINT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE), Variant(cali_make_variant_from_uint(big + i))));
            a.add(db, rec);
        }
        aggregate_over_mpi(db, a, MPI_COMM_WORLD);
        if (r > 0)
            continue;
        int n = 0;
        a.flush(db, [&](CaliperMetadataAccessInterface& d, const EntryList& l) {
            ++n;
            std::map<std::string, uint64_t> got;
            std::set<std::string>           keys;
            for (const Entry& e : l) {
                if (e.is_immediate())
                    got[d.get_attribute(e.attribute()).name()] = e.value().to_uint();
                for (const Node* x = e.is_reference() ? e.node() : nullptr; x && x->attribute() != CALI_INV_ID; x = x->parent())
                    keys.insert(d.get_attribute(x->attribute()).name());
            }
            CHECK((int) keys.size() == ng, "the result of a record with many keys has all of them");
            for (int i = 0; i < nmet; ++i)
                CHECK(got["sum#m" + std::to_string(i)] == (big + i) * (2 - from), "the result of a record with many metrics has all of them");
        });
        CHECK(n == 1, "equal keys are one result");
    }
    symx_reach("wide");
}

// what a process sends contains the content of text of any bytes
ENTRY(c25_text)
{
    SymStr s(0, (size_t) symx_param("len", 2), "s");
    Db     d;
    int    size = 2 + (int) symx_choose(2, "size"), from = (int) symx_choose(size, "from");
    std::string got;
    int         n = 0;
    s_size = size;
    s_msgs.clear();
    for (int r = size - 1; r >= 0; --r) {
        s_rank = r;
        s_sent = 0;
        CalQLParser       p("AGGREGATE count(),sum(x) GROUP BY label,blob");
        Aggregator        a(p.spec());
        CaliperMetadataDB db;
        if (r == from) {
            Attribute l = db.create_attribute("label", CALI_TYPE_STRING, CALI_ATTR_NESTED);
            Attribute x = db.create_attribute("x", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
            Variant   v(CALI_TYPE_STRING, s.p, s.n);
            std::vector<Entry> rec { Entry(db.make_tree_entry(1, &l, &v)), Entry(x, Variant(cali_make_variant_from_int64(-5))) };
            a.add(db, rec);
        }
        aggregate_over_mpi(db, a, MPI_COMM_WORLD);
        if (r == 0)
            a.flush(db, [&](CaliperMetadataAccessInterface& db, const EntryList& l) {
                ++n;
                Attribute at = db.get_attribute("label");
                CHECK(at && at.type() == CALI_TYPE_STRING && at.is_nested(), "attributes keep their name, type and properties");
                for (const Entry& e : l)
                    if (e.is_reference() && e.node()->attribute() == at.id())
                        got = e.node()->data().to_string();
                    else if (e.is_immediate() && db.get_attribute(e.attribute()).name() == "sum#x")
                        CHECK(e.value().to_int64() == -5, "values arrive");
            });
    }
    CHECK(n == 1, "one result");
    CHECK(got.size() == s.n && memcmp(got.data(), s.p, s.n) == 0, "text arrives unchanged");
    symx_reach("text");
}
