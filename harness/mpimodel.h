// a model of the MPI library for several processes that run one after another
#pragma once
#include "hc.h"
#include "mpi.h"
#include <vector>

// ---- MPI: messages are buffered. A process that has to wait for a message is started again once there may be one;
// what it sends again is the same, and is not sent twice.
struct Msg {
    int               src, dst, tag;
    std::vector<char> data;
    bool              taken;
};
struct Blocked {};
static std::vector<Msg> s_msgs;
static int              s_size, s_rank;
static bool             s_initialized = true, s_finalized = false;
static int              s_dups; // duplicated communicators
static size_t           s_sent; // messages sent by the running process in this run

static std::vector<size_t> sent_by(int r)
{
    std::vector<size_t> v;
    for (size_t i = 0; i < s_msgs.size(); ++i)
        if (s_msgs[i].src == r)
            v.push_back(i);
    return v;
}

static Msg* find(int src, int tag)
{
    for (Msg& m : s_msgs)
        if (m.dst == s_rank && !m.taken && (src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG || m.tag == tag))
            return &m;
    throw Blocked();
}

extern "C" {
int MPI_Comm_size(MPI_Comm, int* n) { *n = s_size; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm, int* n) { *n = s_rank; return MPI_SUCCESS; }
int MPI_Send(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm)
{
    CHECK(n >= 0 && dst >= 0 && dst < s_size && dst != s_rank, "messages are sent to another process of the communicator");
    if (s_sent++ < sent_by(s_rank).size())
        return MPI_SUCCESS;
    const char* c = static_cast<const char*>(p);
    s_msgs.push_back({ s_rank, dst, tag, std::vector<char>(c, c + (size_t) n * t), false });
    return MPI_SUCCESS;
}
int MPI_Ssend(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Send(p, n, t, dst, tag, c); }
int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status* st)
{
    Msg* m = find(src, tag);
    if (st)
        *st = { m->src, m->tag, 0, (int) m->data.size() };
    return MPI_SUCCESS;
}
int MPI_Recv(void* p, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status* st)
{
    Msg* m = find(src, tag);
    CHECK(m->data.size() <= (size_t) n * t, "the receive buffer is large enough for the message");
    if (!m->data.empty())
        memcpy(p, m->data.data(), m->data.size());
    m->taken = true;
    if (st)
        *st = { m->src, m->tag, 0, (int) m->data.size() };
    return MPI_SUCCESS;
}
int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    if (s_rank == root) {
        for (int r = 0; r < s_size; ++r)
            if (r != root)
                MPI_Send(p, n, t, r, -7, c);
    } else {
        Msg* m = find(root, -7);
        CHECK(m->data.size() == (size_t) n * t, "all processes broadcast the same amount of data");
        if (n > 0)
            memcpy(p, m->data.data(), (size_t) n * t);
        m->taken = true;
    }
    return MPI_SUCCESS;
}
int MPI_Initialized(int* f) { *f = s_initialized; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = s_finalized; return MPI_SUCCESS; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d) { CHECK(s_initialized && !s_finalized, "MPI is only used between MPI_Init and MPI_Finalize"); *d = c + 100; ++s_dups; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c) { CHECK(*c > 100, "only duplicated communicators are freed"); *c = MPI_COMM_NULL; --s_dups; return MPI_SUCCESS; }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = st->size / t; return MPI_SUCCESS; }
}

template <class F>
static void run_processes(int size, F process)
{
    s_size = size;
    s_msgs.clear();
    std::vector<bool> done(size, false);
    for (int left = size, round = 0; left > 0; ++round) {
        int  before = (int) s_msgs.size(), was = left;
        for (int r = size - 1; r >= 0; --r) {
            if (done[r])
                continue;
            s_rank = r;
            s_sent = 0;
            for (Msg& m : s_msgs)
                if (m.dst == r)
                    m.taken = false;
            try {
                process(r);
                done[r] = true;
                --left;
                CHECK(s_sent >= sent_by(r).size(), "the model of MPI: a process sends the same messages when it is repeated");
            } catch (Blocked&) {
            }
        }
        CHECK(left < was || (int) s_msgs.size() > before, "the processes do not wait for each other forever");
    }
    for (Msg& m : s_msgs)
        CHECK(m.taken, "every message is received");
}
