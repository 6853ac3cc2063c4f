// C32: MPI message records and message statistics account for exactly the messages of the program
#include "cal.h"
#include "mpi.h"
#include "services/mpiwrap/MpiTracing.h"
#include "ext/gotcha/include/gotcha/gotcha_types.h"

namespace cali
{
extern CaliperService mpi_service;
extern Attribute      comm_region_attr;
}
SERVICES(mpi_service)

namespace
{

// ---- a world of three processes; the outcome of every MPI call is a free choice

enum { SUB = 3, DUP = 4 };
int g_rank = 0;

const std::vector<int>& members(int comm)
{
    static std::vector<int> m[5];
    m[MPI_COMM_WORLD] = m[DUP] = { 0, 1, 2 };
    m[MPI_COMM_SELF]  = { g_rank };
    m[SUB]            = { 2, 0 };
    CHECK(comm >= 1 && comm <= 4, "an MPI function is called with a wrong communicator");
    return m[comm];
}

struct Req {
    bool used, recv, persistent, active;
    int  peer, tag, count, type, comm;
};
Req g_req[8]; // handle: index + 1

struct Event {
    int         kind; // 0 send, 1 receive, 2 collective
    int         peer, tag, size, comm, coll;
    const char* fn;
};
std::vector<Event> expect_;
const char*        g_fn   = "";   // running MPI function
int                g_rv   = 0;    // its result
int                g_nth  = 0;
int                g_calls = 0;   // MPI functions that reached the library
bool               g_quiet = false;

void happened(int kind, int peer, int tag, int size, int comm, int coll = 0) { expect_.push_back(Event { kind, peer, tag, size, comm, coll, g_fn }); }

int new_req(Req r)
{
    for (int i = 0; i < 8; ++i)
        if (!g_req[i].used) {
            g_req[i]      = r;
            g_req[i].used = true;
            return i + 1;
        }
    CHECK(false, "harness: out of requests");
    return 0;
}
Req& req(MPI_Request h)
{
    CHECK(h >= 1 && h <= 8 && g_req[h - 1].used, "an MPI function is called with a wrong request");
    return g_req[h - 1];
}
bool active(MPI_Request h) { return h != MPI_REQUEST_NULL && req(h).active; }

void empty_status(MPI_Status* s)
{
    if (s) {
        s->MPI_SOURCE = MPI_ANY_SOURCE;
        s->MPI_TAG    = MPI_ANY_TAG;
        s->size       = 0;
    }
}

// a message arrives
void deliver(int peer, int tag, int count, int type, int comm, MPI_Status* s)
{
    MPI_Status ignored;
    if (!s)
        s = &ignored;
    s->MPI_SOURCE = peer == MPI_ANY_SOURCE ? (int) symx_range(0, members(comm).size() - 1, nm("source", ++g_nth)) : peer;
    s->MPI_TAG    = tag == MPI_ANY_TAG ? (int) symx_range(0, 32767, nm("tag", g_nth)) : tag;
    int n         = (int) symx_range(0, 1 << 16, nm("received", g_nth));
    symx_assume(n <= count);
    s->size       = n * type;
    happened(1, s->MPI_SOURCE, s->MPI_TAG, n * type, comm);
}

void complete(MPI_Request* h, MPI_Status* s)
{
    if (!active(*h))
        return empty_status(s);
    Req& r = req(*h);
    if (r.recv)
        deliver(r.peer, r.tag, r.count, r.type, r.comm, s);
    else if (s) { // undefined for a send operation
        s->MPI_SOURCE = 77;
        s->MPI_TAG    = 78;
        s->size       = 16;
    }
    r.active = false;
    if (!r.persistent) {
        r.used = false;
        *h     = MPI_REQUEST_NULL;
    }
}

std::string g_region; // MPI function region in which the library function runs
int         done()
{
    ++g_calls;
    g_region.clear();
    if (Caliper::is_initialized()) {
        Caliper   c;
        Attribute a = c.get_attribute("mpi.function");
        if (a)
            g_region = c.get(a).value().to_string();
    }
    return g_rv;
}

// ---- the functions of the MPI library

int s_send(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm)
{
    happened(0, dest, tag, count * t, comm);
    return done();
}
int s_isend(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm, MPI_Request* r)
{
    happened(0, dest, tag, count * t, comm);
    *r = new_req(Req { true, false, false, true, dest, tag, count, t, comm });
    return done();
}
int s_send_init(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm comm, MPI_Request* r)
{
    *r = new_req(Req { true, false, true, false, dest, tag, count, t, comm });
    return done();
}
int s_recv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Status* s)
{
    deliver(src, tag, count, t, comm, s);
    return done();
}
int s_irecv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request* r)
{
    *r = new_req(Req { true, true, false, true, src, tag, count, t, comm });
    return done();
}
int s_recv_init(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request* r)
{
    *r = new_req(Req { true, true, true, false, src, tag, count, t, comm });
    return done();
}
int s_sendrecv(const void*, int scount, MPI_Datatype st, int dest, int stag, void*, int rcount, MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status* s)
{
    happened(0, dest, stag, scount * st, comm);
    deliver(src, rtag, rcount, rt, comm, s);
    return done();
}
int s_sendrecv_replace(void*, int count, MPI_Datatype t, int dest, int stag, int src, int rtag, MPI_Comm comm, MPI_Status* s)
{
    happened(0, dest, stag, count * t, comm);
    deliver(src, rtag, count, t, comm, s);
    return done();
}
void start1(MPI_Request h)
{
    Req& r   = req(h);
    r.active = true;
    if (!r.recv)
        happened(0, r.peer, r.tag, r.count * r.type, r.comm);
}
int s_start(MPI_Request* h)
{
    start1(*h);
    return done();
}
int s_startall(int n, MPI_Request* h)
{
    for (int i = 0; i < n; ++i)
        start1(h[i]);
    return done();
}
int s_request_free(MPI_Request* h)
{
    req(*h).used = req(*h).active = false;
    *h           = MPI_REQUEST_NULL;
    return done();
}
int s_wait(MPI_Request* h, MPI_Status* s)
{
    complete(h, s);
    return done();
}
int s_waitall(int n, MPI_Request* h, MPI_Status* s)
{
    for (int i = 0; i < n; ++i)
        complete(h + i, s ? s + i : nullptr);
    return done();
}
int s_test(MPI_Request* h, int* flag, MPI_Status* s)
{
    *flag = !active(*h) || symx_choose(2, "flag");
    if (*flag)
        complete(h, s);
    return done();
}
std::vector<int> actives(int n, MPI_Request* h)
{
    std::vector<int> v;
    for (int i = 0; i < n; ++i)
        if (active(h[i]))
            v.push_back(i);
    return v;
}
int s_testall(int n, MPI_Request* h, int* flag, MPI_Status* s)
{
    *flag = actives(n, h).empty() || symx_choose(2, "flag");
    if (*flag)
        for (int i = 0; i < n; ++i)
            complete(h + i, s ? s + i : nullptr);
    return done();
}
int s_waitany(int n, MPI_Request* h, int* index, MPI_Status* s)
{
    std::vector<int> a = actives(n, h);
    if (a.empty()) {
        *index = MPI_UNDEFINED;
        empty_status(s);
        return done();
    }
    *index = a[symx_choose(a.size(), "index")];
    complete(h + *index, s);
    return done();
}
int s_testany(int n, MPI_Request* h, int* index, int* flag, MPI_Status* s)
{
    bool any = !actives(n, h).empty();
    if (any && symx_choose(2, "none")) {
        *flag  = 0;
        *index = MPI_UNDEFINED;
        return done();
    }
    *flag = 1;
    return s_waitany(n, h, index, s);
}
int some(int n, MPI_Request* h, int* outcount, int* indices, MPI_Status* s, bool one)
{
    std::vector<int> a = actives(n, h);
    if (a.empty()) {
        *outcount = MPI_UNDEFINED;
        return done();
    }
    unsigned mask = symx_choose((1u << a.size()) - one, "completed") + one;
    bool     down = a.size() > 1 && (mask & (mask - 1)) && symx_choose(2, "order");
    *outcount     = 0;
    for (size_t k = 0; k < a.size(); ++k) {
        size_t i = down ? a.size() - 1 - k : k;
        if (mask & (1u << i)) {
            indices[*outcount] = a[i];
            complete(h + a[i], s ? s + *outcount : nullptr);
            ++*outcount;
        }
    }
    return done();
}
int s_waitsome(int n, MPI_Request* h, int* outcount, int* indices, MPI_Status* s) { return some(n, h, outcount, indices, s, true); }
int s_testsome(int n, MPI_Request* h, int* outcount, int* indices, MPI_Status* s) { return some(n, h, outcount, indices, s, false); }
int s_probe(int, int, MPI_Comm, MPI_Status* s)
{
    if (s)
        s->MPI_SOURCE = 1;
    return done();
}

// collectives: what this process contributes
int my_rank(int comm)
{
    const std::vector<int>& m = members(comm);
    for (size_t i = 0; i < m.size(); ++i)
        if (m[i] == g_rank)
            return i;
    return -1;
}
typedef MpiTracing T;
int s_barrier(MPI_Comm comm)
{
    happened(2, -1, 0, 0, comm, T::Coll_Barrier);
    return done();
}
int s_bcast(void*, int count, MPI_Datatype t, int root, MPI_Comm comm)
{
    happened(2, root, 0, my_rank(comm) == root ? count * t : 0, comm, T::Coll_12N);
    return done();
}
int s_scatter(const void*, int n, MPI_Datatype t, void*, int, MPI_Datatype, int root, MPI_Comm comm)
{
    happened(2, root, 0, my_rank(comm) == root ? n * t : 0, comm, T::Coll_12N);
    return done();
}
int sum(const int* n, int comm)
{
    int s = 0;
    for (size_t i = 0; i < members(comm).size(); ++i)
        s += n[i];
    return s;
}
int s_scatterv(const void*, const int* n, const int*, MPI_Datatype t, void*, int, MPI_Datatype, int root, MPI_Comm comm)
{
    happened(2, root, 0, my_rank(comm) == root ? sum(n, comm) * t : 0, comm, T::Coll_12N);
    return done();
}
int s_gather(const void*, int n, MPI_Datatype t, void*, int, MPI_Datatype, int root, MPI_Comm comm)
{
    happened(2, root, 0, my_rank(comm) != root ? n * t : 0, comm, T::Coll_N21);
    return done();
}
int s_gatherv(const void*, int n, MPI_Datatype t, void*, const int*, const int*, MPI_Datatype, int root, MPI_Comm comm)
{
    happened(2, root, 0, my_rank(comm) != root ? n * t : 0, comm, T::Coll_N21);
    return done();
}
int s_reduce(const void*, void*, int n, MPI_Datatype t, MPI_Op, int root, MPI_Comm comm)
{
    happened(2, root, 0, my_rank(comm) != root ? n * t : 0, comm, T::Coll_N21);
    return done();
}
int s_allreduce(const void*, void*, int n, MPI_Datatype t, MPI_Op, MPI_Comm comm)
{
    happened(2, -1, 0, n * t, comm, T::Coll_NxN);
    return done();
}
int s_reduce_scatter(const void*, void*, const int* n, MPI_Datatype t, MPI_Op, MPI_Comm comm)
{
    happened(2, -1, 0, n[my_rank(comm)] * t, comm, T::Coll_NxN);
    return done();
}
int s_allgather(const void* b, int n, MPI_Datatype t, void*, int rn, MPI_Datatype rt, MPI_Comm comm)
{
    happened(2, -1, 0, b == MPI_IN_PLACE ? rn * rt : n * t, comm, T::Coll_NxN);
    return done();
}
int s_allgatherv(const void* b, int n, MPI_Datatype t, void*, const int* rn, const int*, MPI_Datatype rt, MPI_Comm comm)
{
    happened(2, -1, 0, b == MPI_IN_PLACE ? rn[my_rank(comm)] * rt : n * t, comm, T::Coll_NxN);
    return done();
}
int s_alltoall(const void* b, int n, MPI_Datatype t, void*, int rn, MPI_Datatype rt, MPI_Comm comm)
{
    happened(2, -1, 0, (int) members(comm).size() * (b == MPI_IN_PLACE ? rn * rt : n * t), comm, T::Coll_NxN);
    return done();
}
int s_alltoallv(const void* b, const int* n, const int*, MPI_Datatype t, void*, const int* rn, const int*, MPI_Datatype rt, MPI_Comm comm)
{
    happened(2, -1, 0, b == MPI_IN_PLACE ? sum(rn, comm) * rt : sum(n, comm) * t, comm, T::Coll_NxN);
    return done();
}
bool g_init = false, g_fini = false;
int  s_init(int*, char***)
{
    g_init = true;
    return done();
}
int s_finalize()
{
    g_fini = true;
    return done();
}

const struct { const char* name; void* fn; } LIB[] = {
    { "MPI_Send", (void*) s_send }, { "MPI_Bsend", (void*) s_send }, { "MPI_Rsend", (void*) s_send }, { "MPI_Ssend", (void*) s_send },
    { "MPI_Isend", (void*) s_isend }, { "MPI_Ibsend", (void*) s_isend }, { "MPI_Irsend", (void*) s_isend }, { "MPI_Issend", (void*) s_isend },
    { "MPI_Send_init", (void*) s_send_init }, { "MPI_Bsend_init", (void*) s_send_init }, { "MPI_Rsend_init", (void*) s_send_init }, { "MPI_Ssend_init", (void*) s_send_init },
    { "MPI_Recv", (void*) s_recv }, { "MPI_Irecv", (void*) s_irecv }, { "MPI_Recv_init", (void*) s_recv_init },
    { "MPI_Sendrecv", (void*) s_sendrecv }, { "MPI_Sendrecv_replace", (void*) s_sendrecv_replace },
    { "MPI_Start", (void*) s_start }, { "MPI_Startall", (void*) s_startall }, { "MPI_Request_free", (void*) s_request_free },
    { "MPI_Wait", (void*) s_wait }, { "MPI_Waitall", (void*) s_waitall }, { "MPI_Waitany", (void*) s_waitany }, { "MPI_Waitsome", (void*) s_waitsome },
    { "MPI_Test", (void*) s_test }, { "MPI_Testall", (void*) s_testall }, { "MPI_Testany", (void*) s_testany }, { "MPI_Testsome", (void*) s_testsome },
    { "MPI_Probe", (void*) s_probe }, { "MPI_Barrier", (void*) s_barrier }, { "MPI_Bcast", (void*) s_bcast }, { "MPI_Scatter", (void*) s_scatter }, { "MPI_Scatterv", (void*) s_scatterv },
    { "MPI_Gather", (void*) s_gather }, { "MPI_Gatherv", (void*) s_gatherv }, { "MPI_Reduce", (void*) s_reduce }, { "MPI_Allreduce", (void*) s_allreduce }, { "MPI_Scan", (void*) s_allreduce },
    { "MPI_Exscan", (void*) s_allreduce }, { "MPI_Reduce_scatter", (void*) s_reduce_scatter }, { "MPI_Allgather", (void*) s_allgather }, { "MPI_Allgatherv", (void*) s_allgatherv },
    { "MPI_Alltoall", (void*) s_alltoall }, { "MPI_Alltoallv", (void*) s_alltoallv }, { "MPI_Init", (void*) s_init }, { "MPI_Init_thread", (void*) s_init }, { "MPI_Finalize", (void*) s_finalize },
};
const int NLIB = sizeof(LIB) / sizeof(LIB[0]);
void*     g_wrap[NLIB];

int lib(const char* name)
{
    for (int i = 0; i < NLIB; ++i)
        if (!strcmp(LIB[i].name, name))
            return i;
    return -1;
}

} // namespace

extern "C" {
enum gotcha_error_t gotcha_wrap(struct gotcha_binding_t* b, int n, const char*)
{
    for (int k = 0; k < n; ++k) {
        int i = lib(b[k].name);
        if (i >= 0) {
            CHECK(g_wrap[i] == nullptr, "an MPI function is wrapped twice");
            g_wrap[i]             = b[k].wrapper_pointer;
            *b[k].function_handle = LIB[i].fn;
        }
    }
    return GOTCHA_SUCCESS;
}
void* gotcha_get_wrappee(gotcha_wrappee_handle_t h) { return h; }
int   PMPI_Type_size(MPI_Datatype t, int* size)
{
    CHECK(t != MPI_DATATYPE_NULL, "the size of an insignificant datatype argument is queried (a fatal error for MPI_DATATYPE_NULL)");
    *size = t;
    return 0;
}
int PMPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* count)
{
    *count = s->size / t;
    return 0;
}
int PMPI_Comm_size(MPI_Comm comm, int* size)
{
    *size = members(comm).size();
    return 0;
}
int PMPI_Comm_rank(MPI_Comm comm, int* rank)
{
    *rank = my_rank(comm);
    return 0;
}
int PMPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r)
{
    *r = a == b ? MPI_IDENT : members(a) == members(b) ? MPI_CONGRUENT : MPI_UNEQUAL;
    return 0;
}
int PMPI_Comm_group(MPI_Comm comm, MPI_Group* g)
{
    *g = comm;
    return 0;
}
int PMPI_Group_translate_ranks(MPI_Group a, int n, const int* in, MPI_Group b, int* out)
{
    for (int i = 0; i < n; ++i) {
        out[i] = MPI_UNDEFINED;
        for (size_t k = 0; k < members(b).size(); ++k)
            if (members(b)[k] == members(a)[in[i]])
                out[i] = k;
    }
    return 0;
}
int PMPI_Initialized(int* f)
{
    *f = g_init;
    return 0;
}
int PMPI_Finalized(int* f)
{
    *f = g_fini;
    return 0;
}
}

namespace
{

// the application calls an MPI function
template <class F, class... A>
int call(F*, const char* name, A... a)
{
    int i = lib(name);
    g_fn  = LIB[i].name;
    g_rv  = symx_range(0, 1, nm("result", ++g_nth));
    g_calls = 0;
    int rv  = ((F*) (g_wrap[i] ? g_wrap[i] : LIB[i].fn))(a...);
    CHECK(g_calls == 1, "a wrapped MPI function is called exactly once");
    CHECK(rv == g_rv, "a wrapped MPI function returns the result of the MPI function");
    return rv;
}
#define CALL(f, ...) call(&f, #f, ##__VA_ARGS__)
#define CALLN(f, name, ...) call(&f, name, ##__VA_ARGS__)

struct Val {
    cali_id_t attr;
    Variant   v;
};
typedef std::vector<Val> Rec;

Rec read(SnapshotView rec)
{
    Rec r;
    for (const Entry& e : rec) {
        if (e.is_immediate())
            r.push_back({ e.attribute(), e.value() });
        else
            for (const Node* n = e.node(); n && n->id() != CALI_INV_ID; n = n->parent())
                r.push_back({ n->attribute(), n->data() });
    }
    return r;
}

struct Chan {
    Channel          ch;
    std::vector<Rec> recs;
};

struct World {
    Caliper c;
    int     comm_id[5] = { -1, -1, -1, -1, -1 };

    World(bool init_first)
    {
        for (auto& r : g_req)
            r = Req {};
        if (init_first)
            CALL(MPI_Init, nullptr, nullptr);
    }

    void open(Chan& k, const char* name, std::map<std::string, std::string> cfg)
    {
        cfg["CALI_SERVICES_ENABLE"] = "mpi";
        k.ch                        = make_channel(c, name, cfg);
        k.ch.events().process_snapshot.connect([&k](Caliper*, SnapshotView, SnapshotView rec) { k.recs.push_back(read(rec)); });
        c.activate_channel(k.ch);
    }

    bool has(const Rec& r, const char* name)
    {
        Attribute a = c.get_attribute(name);
        for (auto& p : r)
            if (a && p.attr == a.id())
                return true;
        return false;
    }
    int integer(const Rec& r, const char* name)
    {
        Attribute a = c.get_attribute(name);
        int       n = 0;
        Variant   v;
        for (auto& p : r)
            if (p.attr == a.id()) {
                ++n;
                v = p.v;
            }
        CHECK(n == 1, "a message record has exactly one value for each of its attributes");
        return v.to_int();
    }
    std::string str(const Rec& r, const char* name)
    {
        Attribute a = c.get_attribute(name);
        for (auto& p : r)
            if (p.attr == a.id())
                return std::string(static_cast<const char*>(p.v.data()), p.v.size());
        return "";
    }

    void check_comm(const Rec& r, int comm)
    {
        int id = integer(r, "mpi.comm");
        if (comm_id[comm] < 0) {
            for (int i = 0; i < 5; ++i)
                CHECK(comm_id[i] != id, "two communicators have the same number in the message records");
            comm_id[comm] = id;
        }
        CHECK(comm_id[comm] == id, "a communicator keeps its number in the message records");
        CHECK(integer(r, "mpi.comm.size") == (int) members(comm).size(), "message record: size of the communicator");
        bool world = members(comm) == members(MPI_COMM_WORLD);
        CHECK(has(r, "mpi.comm.is_world") == world, "message record: world communicator");
        if (!world) {
            const std::vector<int>& m = members(comm);
            std::string             l = str(r, "mpi.comm.list");
            CHECK(l.size() == m.size() * sizeof(int) && !memcmp(l.data(), m.data(), l.size()), "message record: world ranks of the communicator");
        }
    }

    // the records are those of the messages that were sent and received
    void check_events(Chan& k, const std::vector<Event>& ev)
    {
        CHECK(k.recs.size() == ev.size(), "there is one record for each message sent, message received, and collective operation");
        for (size_t i = 0; i < ev.size(); ++i) {
            const Rec&   r = k.recs[i];
            const Event& e = ev[i];
            CHECK(has(r, "mpi.send.count") == (e.kind == 0), "send records are those of sent messages");
            CHECK(has(r, "mpi.recv.count") == (e.kind == 1), "receive records are those of received messages");
            CHECK(has(r, "mpi.coll.count") == (e.kind == 2), "collective records are those of collective operations");
            CHECK(str(r, "mpi.function") == e.fn, "the message belongs to the MPI function that sent or received it");
            check_comm(r, e.comm);
            if (e.kind == 2) {
                CHECK(integer(r, "mpi.coll.type") == e.coll, "collective record: kind of the operation");
                CHECK(integer(r, "mpi.coll.count") == 1, "collective record: count");
                if (e.coll != T::Coll_Barrier)
                    CHECK(integer(r, "mpi.msg.size") == e.size, "collective record: number of bytes");
                if (e.coll == T::Coll_12N || e.coll == T::Coll_N21)
                    CHECK(integer(r, "mpi.coll.root") == e.peer, "collective record: root");
            } else {
                CHECK(integer(r, e.kind ? "mpi.msg.src" : "mpi.msg.dst") == e.peer, "message record: rank of the other process");
                CHECK(!has(r, e.kind ? "mpi.msg.dst" : "mpi.msg.src"), "message record: direction");
                CHECK(integer(r, "mpi.msg.tag") == e.tag, "message record: tag");
                CHECK(integer(r, "mpi.msg.size") == e.size, "message record: number of bytes");
                CHECK(integer(r, e.kind ? "mpi.recv.count" : "mpi.send.count") == 1, "message record: count");
            }
        }
    }

    // the statistics of a communication region
    void check_pattern(const Rec& r, const std::vector<Event>& ev)
    {
        int  n[3] = { 0, 0, 0 }, size[3] = { 0, 0, 0 }, ranks[2] = { 0, 0 };
        for (size_t i = 0; i < ev.size(); ++i) {
            ++n[ev[i].kind];
            size[ev[i].kind] += ev[i].size;
            bool first = ev[i].kind < 2;
            for (size_t k = 0; k < i; ++k)
                first &= !(ev[k].kind == ev[i].kind && ev[k].peer == ev[i].peer);
            if (first)
                ++ranks[ev[i].kind];
        }
        CHECK(integer(r, "total.send.count") == n[0], "communication region: number of messages sent");
        CHECK(integer(r, "total.recv.count") == n[1], "communication region: number of messages received");
        CHECK(integer(r, "total.coll.count") == n[2], "communication region: number of collective operations");
        CHECK(integer(r, "mpi.send.size") == size[0], "communication region: bytes sent");
        CHECK(integer(r, "mpi.recv.size") == size[1], "communication region: bytes received");
        CHECK(integer(r, "mpi.coll.size") == size[2], "communication region: bytes in collective operations");
        CHECK(integer(r, "total.dest.ranks") == ranks[0], "communication region: number of destinations");
        CHECK(integer(r, "total.src.ranks") == ranks[1], "communication region: number of sources");
    }
};

int count_arg() { return (int) symx_range(0, 1 << 16, nm("count", ++g_nth)); }
int tag_arg() { return (int) symx_range(0, 32767, nm("tag", ++g_nth)); }
int type_arg()
{
    const int t[] = { MPI_CHAR, MPI_INT, MPI_DOUBLE };
    return t[symx_choose(3, "type")];
}

typedef std::map<std::string, std::string> Cfg;
const Cfg TRACE   = { { "CALI_MPI_MSG_TRACING", "true" }, { "CALI_MPI_WHITELIST", "all" } };
const Cfg PATTERN = { { "CALI_MPI_MSG_PATTERN", "true" }, { "CALI_MPI_BLACKLIST", "MPI_Probe" } };

} // namespace

// blocking point-to-point operations
ENTRY(c32_p2p)
{
    quiet();
    World w(true);
    Chan  k;
    bool  pattern = symx_choose(2, "pattern");
    w.open(k, "mpi", pattern ? PATTERN : TRACE);
    expect_.clear();
    if (pattern)
        w.c.begin(comm_region_attr, Variant("halo"));

    int ops = symx_param("ops", 2);
    for (int i = 0; i < ops; ++i) {
        int        op = symx_choose(7, "op"), comm = symx_choose(2, "comm") ? MPI_COMM_WORLD : SUB;
        int        n = count_arg(), t = type_arg(), tag = tag_arg();
        int        peer = pattern ? symx_choose(2, "peer") : symx_range(0, members(comm).size() - 1, nm("peer", ++g_nth));
        MPI_Status st { -5, -5, -5, -5 };
        char       b[4];
        switch (op) {
        case 0:
        {
            const char* f[] = { "MPI_Send", "MPI_Bsend", "MPI_Rsend", "MPI_Ssend" };
            CALLN(MPI_Send, f[symx_choose(4, "send")], b, n, t, peer, tag, comm);
        } break;
        case 1: {
            const char* f[] = { "MPI_Isend", "MPI_Ibsend", "MPI_Irsend", "MPI_Issend" };
            MPI_Request r;
            CALLN(MPI_Isend, f[symx_choose(4, "send")], b, n, t, peer, tag, comm, &r);
            CHECK(active(r), "a nonblocking send returns its request");
        } break;
        case 2:
            CALL(MPI_Recv, b, n, t, peer, tag, comm, &st);
            CHECK(st.MPI_SOURCE == peer && st.MPI_TAG == tag && st.size == expect_.back().size, "the program gets the status of a receive operation");
            break;
        case 3:
            CALL(MPI_Recv, b, n, t, pattern ? peer : MPI_ANY_SOURCE, MPI_ANY_TAG, comm, symx_choose(2, "status") ? &st : MPI_STATUS_IGNORE);
            break;
        case 4:
        case 5: {
            int rn = count_arg(), rt = MPI_INT, rtag = tag_arg(), src = 1 - (peer & 1);
            if (op == 4)
                CALL(MPI_Sendrecv, b, n, t, peer, tag, b, rn, rt, src, rtag, comm, symx_choose(2, "status") ? &st : MPI_STATUS_IGNORE);
            else
                CALL(MPI_Sendrecv_replace, b, n, t, peer, tag, src, rtag, comm, symx_choose(2, "status") ? &st : MPI_STATUS_IGNORE);
        } break;
        case 6:
            CALL(MPI_Probe, 0, 0, comm, &st);
            break;
        }
    }
    if (pattern) {
        CHECK(k.recs.empty(), "there is no record before the communication region ends");
        std::vector<Event> ev = expect_;
        w.c.end(comm_region_attr);
        CHECK(k.recs.size() == 1, "there is one record for a communication region");
        w.check_pattern(k.recs[0], ev);
    } else
        w.check_events(k, expect_);
    symx_reach(pattern ? "pattern" : "trace");
}

// requests: every kind of request, every way to complete it
static void requests(const int N, const int calls)
{
    quiet();
    World w(true);
    Chan  k;
    bool  pattern = symx_choose(2, "pattern");
    w.open(k, "mpi", pattern ? PATTERN : TRACE);
    expect_.clear();
    if (pattern)
        w.c.begin(comm_region_attr, Variant("halo"));

    MPI_Request r[4] = { 0, 0, 0, 0 };
    char        b[4];
    for (int i = 0; i < N; ++i) {
        int n = (int) symx_range(0, 100, nm("count", ++g_nth)), tag = 10 + i, peer = i, comm = i ? SUB : MPI_COMM_WORLD;
        switch (symx_choose(5, "request")) {
        case 0:
            break; // no request
        case 1:
            CALL(MPI_Isend, b, n, MPI_INT, peer, tag, MPI_COMM_WORLD, &r[i]);
            break;
        case 2:
            CALL(MPI_Irecv, b, n, MPI_DOUBLE, peer, MPI_ANY_TAG, MPI_COMM_WORLD, &r[i]);
            break;
        case 3: {
            const char* f[] = { "MPI_Send_init", "MPI_Bsend_init", "MPI_Rsend_init", "MPI_Ssend_init" };
            CALLN(MPI_Send_init, f[i], b, n, MPI_INT, peer, tag, MPI_COMM_WORLD, &r[i]);
        } break;
        case 4:
            CALL(MPI_Recv_init, b, n, MPI_INT, peer, tag, MPI_COMM_WORLD, &r[i]);
            break;
        }
    }
    for (int q = 0; q < calls; ++q) {
        // start some of the persistent requests
        MPI_Request s[4];
        int         ns = 0;
        for (int i = 0; i < N; ++i)
            if (r[i] && req(r[i]).persistent && !req(r[i]).active && symx_choose(2, "start"))
                s[ns++] = r[i];
        if (ns == 1)
            CALL(MPI_Start, s);
        else if (ns > 1)
            CALL(MPI_Startall, ns, s);

        MPI_Status  st[4], *ps = symx_choose(2, "statuses") ? st : MPI_STATUSES_IGNORE;
        MPI_Request before[4];
        for (int i = 0; i < 4; ++i) {
            before[i] = r[i];
            st[i]     = MPI_Status { -5, -5, -5, -5 };
        }
        int index = -1, flag = -1, n = -1, indices[4] = { -1, -1, -1, -1 };
        size_t first = expect_.size();
        switch (symx_choose(9, "complete")) {
        case 0:
            CALL(MPI_Wait, &r[0], ps);
            break;
        case 1:
            CALL(MPI_Waitall, N, r, ps);
            break;
        case 2:
            CALL(MPI_Waitany, N, r, &index, ps);
            break;
        case 3:
            CALL(MPI_Waitsome, N, r, &n, indices, ps);
            break;
        case 4:
            CALL(MPI_Test, &r[0], &flag, ps);
            break;
        case 5:
            CALL(MPI_Testall, N, r, &flag, ps);
            break;
        case 6:
            CALL(MPI_Testany, N, r, &index, &flag, ps);
            break;
        case 7:
            CALL(MPI_Testsome, N, r, &n, indices, ps);
            break;
        case 8:
            if (r[0])
                CALL(MPI_Request_free, &r[0]);
            break;
        }
    }
    if (pattern) {
        std::vector<Event> ev = expect_;
        w.c.end(comm_region_attr);
        CHECK(k.recs.size() == 1, "there is one record for a communication region");
        w.check_pattern(k.recs[0], ev);
    } else
        w.check_events(k, expect_);
    symx_reach("requests");
}
ENTRY(c32_request) { requests(symx_param("requests", 2), symx_param("calls", 1)); }
// one request, started and completed repeatedly
ENTRY(c32_restart) { requests(1, symx_param("calls", 3)); }

// collective operations, including insignificant arguments and in-place buffers
ENTRY(c32_coll)
{
    quiet();
    g_rank = symx_choose(3, "rank");
    World w(true);
    Chan  k;
    bool  pattern = symx_choose(2, "pattern");
    w.open(k, "mpi", pattern ? PATTERN : TRACE);
    expect_.clear();
    if (pattern)
        w.c.begin(comm_region_attr, Variant("halo"));
    int ops = symx_param("ops", 1);
    for (int i = 0; i < ops; ++i) {
        const int second[] = { 0, 1, 6, 11 };
        int   op   = i ? second[symx_choose(4, "second")] : symx_choose(17, "collective");
        int   comm = i ? MPI_COMM_WORLD : g_rank != 1 && symx_choose(2, "comm") ? SUB : symx_choose(2, "dup") ? DUP : MPI_COMM_WORLD;
        int   np   = members(comm).size(), me = my_rank(comm);
        int   root = i ? 0 : symx_choose(np, "root");
        bool  is_root = me == root;
        char  b[4];
        int   n = count_arg(), t = i ? MPI_INT : type_arg(), disp[3] = { 0, 0, 0 }, cnt[3];
        for (int& x : cnt)
            x = count_arg();
        bool  null     = !i && symx_choose(2, "insignificant arguments"); // leave out what MPI does not look at
        void* in_place = MPI_IN_PLACE;
        switch (op) {
        case 0:
            CALL(MPI_Barrier, comm);
            break;
        case 1:
            CALL(MPI_Bcast, b, n, t, root, comm);
            break;
        case 2:
            if (is_root)
                CALL(MPI_Scatter, b, n, t, null ? in_place : b, n, null ? 0 : t, root, comm);
            else
                CALL(MPI_Scatter, null ? nullptr : b, null ? 0 : n, null ? MPI_DATATYPE_NULL : t, b, n, t, root, comm);
            break;
        case 3:
            if (is_root)
                CALL(MPI_Scatterv, b, cnt, disp, t, null ? in_place : b, n, null ? 0 : t, root, comm);
            else
                CALL(MPI_Scatterv, null ? nullptr : b, null ? nullptr : cnt, null ? nullptr : disp, null ? MPI_DATATYPE_NULL : t, b, n, t, root, comm);
            break;
        case 4:
            if (is_root)
                CALL(MPI_Gather, null ? in_place : b, null ? 0 : n, null ? MPI_DATATYPE_NULL : t, b, n, t, root, comm);
            else
                CALL(MPI_Gather, b, n, t, nullptr, 0, null ? MPI_DATATYPE_NULL : t, root, comm);
            break;
        case 5:
            if (is_root)
                CALL(MPI_Gatherv, null ? in_place : b, null ? 0 : n, null ? MPI_DATATYPE_NULL : t, b, cnt, disp, t, root, comm);
            else
                CALL(MPI_Gatherv, b, n, t, nullptr, nullptr, nullptr, null ? MPI_DATATYPE_NULL : t, root, comm);
            break;
        case 6:
            CALL(MPI_Reduce, is_root && null ? in_place : b, is_root ? b : nullptr, n, t, MPI_SUM, root, comm);
            break;
        case 7:
            CALL(MPI_Allreduce, null ? in_place : b, b, n, t, MPI_SUM, comm);
            break;
        case 8:
            CALL(MPI_Scan, null ? in_place : b, b, n, t, MPI_SUM, comm);
            break;
        case 9:
            CALL(MPI_Exscan, null ? in_place : b, b, n, t, MPI_SUM, comm);
            break;
        case 10:
            CALL(MPI_Reduce_scatter, null ? in_place : b, b, cnt, t, MPI_SUM, comm);
            break;
        case 11:
            CALL(MPI_Allgather, null ? in_place : b, null ? 0 : n, null ? MPI_DATATYPE_NULL : t, b, n, t, comm);
            break;
        case 12:
            CALL(MPI_Allgatherv, null ? in_place : b, null ? 0 : n, null ? MPI_DATATYPE_NULL : t, b, cnt, disp, t, comm);
            break;
        case 13:
            CALL(MPI_Alltoall, null ? in_place : b, null ? 0 : n, null ? MPI_DATATYPE_NULL : t, b, n, t, comm);
            break;
        case 14:
            if (null)
                CALL(MPI_Alltoallv, in_place, nullptr, nullptr, MPI_DATATYPE_NULL, b, cnt, disp, t, comm);
            else {
                int other[3] = { 1, 2, 3 };
                CALL(MPI_Alltoallv, b, cnt, disp, t, b, other, disp, MPI_CHAR, comm);
            }
            break;
        case 15:
            CALL(MPI_Send, b, n, t, 1, 5, MPI_COMM_SELF);
            break;
        case 16:
            CALL(MPI_Probe, 0, 0, comm, MPI_STATUS_IGNORE);
            break;
        }
    }
    if (pattern) {
        std::vector<Event> ev = expect_;
        w.c.end(comm_region_attr);
        CHECK(k.recs.size() == 1, "there is one record for a communication region");
        w.check_pattern(k.recs[0], ev);
    } else
        w.check_events(k, expect_);
    symx_reach("collective");
}

// which functions are instrumented, and for which channels
ENTRY(c32_filter)
{
    quiet();
    g_rank = 1;
    const struct { const char *white, *black; bool send, recv, barrier; } F[] = {
        { "", "", false, false, false },
        { "all", "", true, true, true },
        { "MPI_Send", "", true, false, false },
        { "MPI_Barrier,MPI_Recv", "", false, true, true },
        { "", "MPI_Send", false, true, true },
        { "", "MPI_Recv:MPI_Sen", true, false, true },
        { "all", "MPI_Barrier", true, true, false },
        { "MPI_Send,MPI_Recv", "MPI_Recv,MPI_Barrier", true, false, false },
    };
    const int NF    = sizeof(F) / sizeof(F[0]);
    int       init  = symx_choose(3, "init"); // MPI is initialised before, between, after the channels are created
    int       f[2]  = { (int) symx_choose(NF, "first filter"), (int) symx_choose(NF, "second filter") };
    bool      on[2] = { true, true }, exists[2] = { true, true };
    World     w(init == 0);
    Chan      k[2];
    for (int i = 0; i < 2; ++i) {
        w.open(k[i], i ? "b" : "a", Cfg { { "CALI_MPI_MSG_TRACING", "true" }, { "CALI_MPI_WHITELIST", F[f[i]].white }, { "CALI_MPI_BLACKLIST", F[f[i]].black } });
        if (init == 1 + i)
            CALL(MPI_Init, nullptr, nullptr);
    }
    Attribute rank = w.c.get_attribute("mpi.rank"), size = w.c.get_attribute("mpi.world.size"), fn = w.c.get_attribute("mpi.function");
    CHECK(w.c.get(rank).value().to_int() == 1, "the MPI rank is recorded once MPI is initialised");
    CHECK(w.c.get(size).value().to_int() == 3, "the number of MPI processes is recorded once MPI is initialised");

    switch (symx_choose(4, "change")) {
    case 0:
        break;
    case 1:
        on[1] = false;
        w.c.deactivate_channel(k[1].ch);
        break;
    case 2:
        exists[0] = false;
        w.c.delete_channel(k[0].ch);
        break;
    case 3:
        exists[1] = false;
        w.c.delete_channel(k[1].ch);
        break;
    }
    int op = symx_choose(3, "op");
    for (int i = 0; i < 2; ++i)
        k[i].recs.clear();
    expect_.clear();
    char b[4];
    if (op == 0)
        CALL(MPI_Send, b, 3, MPI_INT, 2, 7, MPI_COMM_WORLD);
    else if (op == 1)
        CALL(MPI_Recv, b, 3, MPI_INT, 2, 7, DUP, MPI_STATUS_IGNORE);
    else
        CALL(MPI_Barrier, MPI_COMM_SELF);
    bool any = false, any_off = false;
    for (int i = 0; i < 2; ++i) {
        bool en = op == 0 ? F[f[i]].send : op == 1 ? F[f[i]].recv : F[f[i]].barrier;
        if (exists[i]) {
            (on[i] ? any : any_off) |= en;
            for (int& id : w.comm_id)
                id = -1;
            w.check_events(k[i], en && on[i] ? expect_ : std::vector<Event>());
        } else
            CHECK(k[i].recs.empty(), "there are no records for a deleted channel");
    }
    if (any)
        CHECK(g_region == g_fn, "an instrumented MPI function runs in its region");
    else if (!any_off)
        CHECK(g_region.empty(), "an MPI function that is not instrumented has no region");
    CHECK(w.c.get(fn).empty(), "the region of an MPI function ends with it");
    symx_reach("filter");
}
