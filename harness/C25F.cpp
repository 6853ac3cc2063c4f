// C25: output across processes: local query, cross-process query, formatting on the first process
#include "cal.h"
#include "mpimodel.h"
#include "caliper/cali-mpi.h"
#include "caliper/ChannelController.h"
#include "caliper/CollectiveOutputChannel.h"
#include "caliper/common/OutputStream.h"
#include "caliper/reader/Aggregator.h"
#include "caliper/reader/CalQLParser.h"
#include "../src/caliper/OutputCommMpi.h"
#include <sstream>

namespace cali
{
extern CaliperService trace_service;
extern CaliperService mpireport_service;
}
SERVICES(trace_service)

namespace
{
const char* REG[] = { "a", "b" };
const char* SUB[] = { "x", "y" };

struct Data {
    int rank, reg, sub, val;
};

const char* LOCAL = "LET d=scale(v,2) AGGREGATE sum(d) WHERE not skip GROUP BY reg,sub";
const char* CROSS = "LET w=scale(sum#d,3) SELECT reg,sum(w) as W,count() as N WHERE w>14 GROUP BY reg FORMAT expand";

struct Out {
    int    n = 0;
    double w = 0;
};

// what the queries say
std::map<std::string, Out> expect(const std::vector<Data>& ds, const std::vector<bool>& skip, int size)
{
    std::map<std::string, Out> ret;
    for (int r = 0; r < size; ++r)
        for (int g = 0; g < 2; ++g)
            for (int s = 0; s < 2; ++s) {
                double d   = 0;
                bool   any = false;
                for (size_t i = 0; i < ds.size(); ++i)
                    if (ds[i].rank == r && ds[i].reg == g && ds[i].sub == s && !skip[i]) {
                        d += 2.0 * ds[i].val;
                        any = true;
                    }
                if (any && 3 * d > 14) {
                    ret[REG[g]].w += 3 * d;
                    ret[REG[g]].n += 1;
                }
            }
    return ret;
}

std::map<std::string, Out> parse(const std::string& text)
{
    std::map<std::string, Out> ret;
    std::istringstream         is(text);
    std::string                line;
    while (std::getline(is, line)) {
        std::istringstream ls(line);
        std::string        kv, reg;
        Out                o;
        while (std::getline(ls, kv, ',')) {
            size_t p = kv.find('=');
            CHECK(p != std::string::npos, "output has the requested format");
            std::string k = kv.substr(0, p), v = kv.substr(p + 1);
            if (k == "reg")
                reg = v;
            else if (k == "W" || k == "sum#w")
                o.w = atof(v.c_str());
            else if (k == "N" || k == "count")
                o.n = atoi(v.c_str());
            else
                CHECK(false, "only the selected attributes are in the output");
        }
        CHECK(ret.count(reg) == 0, "equal keys are one result");
        ret[reg] = o;
    }
    return ret;
}

} // namespace

// the result of collective output is the cross-process query over the results of the local queries
ENTRY(c25_flush)
{
    quiet();
    Caliper   c;
    Attribute reg = c.create_attribute("reg", CALI_TYPE_STRING, CALI_ATTR_DEFAULT), sub = c.create_attribute("sub", CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    Attribute val = c.create_attribute("v", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE), skp = c.create_attribute("skip", CALI_TYPE_INT, CALI_ATTR_ASVALUE);
    int       size = 1 + (int) symx_choose(symx_param("size", 3), "size"), N = symx_param("recs", 3);
    int       how  = symx_choose(3, "how"); // collective_flush(), a collective output channel, the same without MPI
    if (how == 2)
        size = 1;
    std::vector<Data> ds;
    std::vector<bool> skip;
    std::vector<Channel>                                  chs;
    std::vector<std::shared_ptr<CollectiveOutputChannel>> outs;
    for (int i = 0; i < N; ++i) {
        ds.push_back(Data { (int) symx_choose(size, nm("rank", i)), i ? (int) symx_choose(2, nm("reg", i)) : 0, i ? (int) symx_choose(2, nm("sub", i)) : 0, symx_choose(2, nm("val", i)) ? 5 : 1 });
        skip.push_back(i == 0 && symx_choose(2, "skip"));
    }
    for (int r = 0; r < size; ++r) {
        // every process has its own channel with its own records
        if (how == 0)
            chs.push_back(make_channel(c, ("r" + std::to_string(r)).c_str(), { { "CALI_SERVICES_ENABLE", "trace" } }));
        else {
            config_map_t cfg { { "CALI_SERVICES_ENABLE", "mpireport,trace,mpireport" }, { "CALI_CHANNEL_CONFIG_CHECK", "false" }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" }, { "CALI_MPIREPORT_CONFIG", CROSS }, { "CALI_MPIREPORT_LOCAL_CONFIG", LOCAL } };
            auto ctl = std::make_shared<ChannelController>(("r" + std::to_string(r)).c_str(), 0, cfg);
            auto o   = CollectiveOutputChannel::from(ctl);
            CHECK(o != nullptr, "a channel with an mpireport query can be a collective output channel");
            CHECK(!ctl->is_active() && !ctl->is_instantiated(), "the original channel is left alone");
            o->start();
            outs.push_back(o);
            chs.push_back(c.get_channel(c.get_all_channels().size() > 0 ? c.get_all_channels().back().id() : 0));
        }
        c.activate_channel(chs[r]);
        for (size_t i = 0; i < ds.size(); ++i)
            if (ds[i].rank == r) {
                c.begin(reg, Variant(REG[ds[i].reg]));
                c.begin(sub, Variant(SUB[ds[i].sub]));
                Entry e[2] = { Entry(val, Variant(ds[i].val)), Entry(skp, Variant(1)) };
                c.push_snapshot(chs[r].body(), SnapshotView(skip[i] ? 2 : 1, e));
                c.end(sub);
                c.end(reg);
            }
        c.deactivate_channel(chs[r]);
    }
    std::vector<std::string> text(size);
    CalQLParser              lp(LOCAL), cp(CROSS);
    CHECK(!lp.error(), "local query is accepted");
    CHECK(!cp.error(), "query is accepted");
    if (cp.error()) puts(cp.error_msg().c_str());
    run_processes(size, [&](int r) {
        std::ostringstream os;
        MPI_Comm           comm = how == 2 ? MPI_COMM_NULL : MPI_COMM_WORLD;
        if (how == 0) {
            OutputStream stream;
            stream.set_stream(&os);
            collective_flush(stream, c, chs[r].body(), SnapshotView(), lp.spec(), cp.spec(), comm);
        } else
            outs[r]->collective_flush(os, comm);
        text[r] = os.str();
    });
    for (int r = 1; r < size; ++r)
        CHECK(text[r].empty(), "only the first process writes output");
    auto want = expect(ds, skip, size), got = parse(text[0]);
    CHECK(got.size() == want.size(), "there is a result for each key");
    for (auto& p : want) {
        CHECK(got.count(p.first) == 1, "there is a result for each key");
        CHECK(got[p.first].n == p.second.n, "the results of all processes are counted");
        CHECK(got[p.first].w == p.second.w, "the results of all processes are summed up");
    }
    symx_reach("flush");
}

// values and texts are distributed from the first process to all others
ENTRY(c25_comm)
{
    quiet();
    int state     = symx_choose(4, "MPI"); // running, not initialized, finalized, no communicator
    s_initialized = state != 1;
    s_finalized   = state == 2;
    int size = state == 0 ? 1 + symx_choose(symx_param("size", 3), "size") : 1;
    std::vector<std::string> strs;
    std::vector<int>         ints;
    for (int r = 0; r < size; ++r) {
        SymStr s(0, (size_t) symx_param("len", 2), nm("s", r));
        strs.push_back(std::string(s.p, s.n));
        ints.push_back((int) symx_u32(nm("i", r)));
    }
    run_processes(size, [&](int r) {
        int before = s_dups;
        {
            std::unique_ptr<OutputCommMpi> comm(state < 3 ? new OutputCommMpi : new OutputCommMpi(MPI_COMM_NULL));
            OutputCommMpi                  copy(*comm);
            comm.reset();
            CHECK(copy.rank() == r, "the rank is that of the process");
            CHECK(copy.bcast_int(ints[r]) == ints[0], "all processes get the number of the first one");
            CHECK(copy.bcast_str(strs[r]) == strs[0], "all processes get the text of the first one");
            CalQLParser       p("AGGREGATE sum(v) GROUP BY k");
            Aggregator        a(p.spec());
            CaliperMetadataDB db;
            Attribute         v = db.create_attribute("v", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_AGGREGATABLE);
            a.add(db, { Entry(v, Variant(r + 1)) });
            copy.cross_aggregate(db, a);
            int sum = 0, n = 0;
            a.flush(db, [&](CaliperMetadataAccessInterface& d, const EntryList& l) {
                ++n;
                for (const Entry& e : l)
                    sum += e.value().to_int();
            });
            if (r == 0)
                CHECK(n == 1 && sum == size * (size + 1) / 2, "the first process gets the results of all");
        }
        CHECK(s_dups == before, "communicators are freed");
    });
    symx_reach("comm");
}
