// C31: built-in reports and profiles show what was measured
#define HC_CONTROLLERS
#include "cal.h"
#include "json.h"
#include "caliper/Annotation.h"
#include "caliper/ChannelController.h"
#include "caliper/CustomOutputController.h"
#include "caliper/reader/Aggregator.h"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/FormatProcessor.h"
#include "caliper/reader/Preprocessor.h"
#include "caliper/reader/QuerySpec.h"
#include "caliper/reader/RecordSelector.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <fstream>
#include <sstream>

namespace cali
{
extern CaliperService timer_service;
extern CaliperService aggregate_service;
extern CaliperService event_service;
extern CaliperService trace_service;
extern CaliperService report_service;
extern CaliperService recorder_service;
extern CaliperService loop_monitor_service;
extern CaliperService loop_statistics_service;
static void none(Caliper*, Channel*) { }
#define NONE(n) { n, none }
bool verif_mpi = false;
const CaliperService* verif_services()
{
    static CaliperService l[] = { timer_service, aggregate_service, event_service, trace_service, report_service, recorder_service, loop_monitor_service, loop_statistics_service,
        NONE("io"), NONE("pthread"), NONE("sampler"), NONE("callpath"), NONE("symbollookup"), NONE("async_event"), NONE("memstat"), NONE("sysalloc"), NONE("allocstats"),
        NONE("ompt"), NONE("timestamp"), NONE("cupti"), NONE("cuptitrace"), NONE("rocprofiler"), NONE("umpire"), NONE("pcp.memory"), NONE("papi"), NONE("perf_topdown"), NONE("kokkostime"),
        NONE("mpi"), NONE("mpireport"), { nullptr, nullptr } };
    if (!verif_mpi)
        l[sizeof(l) / sizeof(l[0]) - 3] = { nullptr, nullptr };
    return l;
}
}

// the clocks only advance when the harness says so
static uint64_t g_now = 1000000000;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((long) g_now)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((long) g_now)); }
} } }

namespace
{

// ---------------------------------------------------------------- options and their columns

struct Column {
    const char* label;
    char        ops[3]; // within a process, across processes: + sum, < minimum, > maximum, ~ average, ? any
    const char* raw;    // measured metric, in aggregated and in event form
    double      scale;
    int         only;   // record with the metric, or -1 for both
};

struct Option {
    const char* config;
    const char* option;
    int         kind; // 0 rows by path, in two steps across processes; 1 one row in two steps; 3 one row in one step
    Column      cols[40];
};

// metrics are written LABEL, OPS, METRIC; a label with LOCAL: in front is shown in the output of one process
#define L "L:"
#define X "X:"

const Option OPTIONS[] = {
    { "runtime-report", "", 0, {
        { L "Time (E)", "+", "sum#time.duration.ns", 1e-9, -1 }, { L "Time (I)", "i", "sum#time.duration.ns", 1e-9, -1 },
        { X "Min time/rank", "i<", "sum#time.duration.ns", 1e-9, -1 }, { X "Avg time/rank", "i~", "sum#time.duration.ns", 1e-9, -1 }, { X "Max time/rank", "i>", "sum#time.duration.ns", 1e-9, -1 }, { X "Time %", "qq", "sum#time.duration.ns", 100, -1 },
        { L "Time % (E)", "%", "sum#time.duration.ns", 100, -1 }, { L "Time % (I)", "q", "sum#time.duration.ns", 100, -1 } } },
    { "runtime-report", "time.exclusive", 0, {
        { X "Min time/rank (E)", "+<", "sum#time.duration.ns", 1e-9, -1 }, { X "Avg time/rank (E)", "+~", "sum#time.duration.ns", 1e-9, -1 }, { X "Max time/rank (E)", "+>", "sum#time.duration.ns", 1e-9, -1 }, { X "Time % (E)", "%%", "sum#time.duration.ns", 100, -1 } } },
    { "runtime-report", "order_by_time", 0, {
        { L "Time (E)", "+", "sum#time.duration.ns", 1e-9, -1 }, { X "Max time/rank", "i>", "sum#time.duration.ns", 1e-9, -1 } } },
    { "runtime-report", "region.count", 0, {
        { L "Calls", "+", "sum#region.count|region.count", 1, -1 },
        { X "Calls/rank (min)", "+<", "sum#region.count|region.count", 1, -1 }, { X "Calls/rank (avg)", "+~", "sum#region.count|region.count", 1, -1 }, { X "Calls/rank (max)", "+>", "sum#region.count|region.count", 1, -1 }, { X "Calls (total)", "++", "sum#region.count|region.count", 1, -1 } } },
    { "runtime-report", "region.stats", 0, {
        { L "Visits", "+", "sum#region.count", 1, -1 }, { L "Nsec/visit (min)", "<", "min#time.inclusive.duration.ns", 1, -1 }, { L "Nsec/visit (avg)", "~", "avg#time.inclusive.duration.ns", 1, -1 }, { L "Nsec/visit (max)", ">", "max#time.inclusive.duration.ns", 1, -1 },
        { X "Visits", "++", "sum#region.count", 1, -1 }, { X "Nsec/visit (min)", "<<", "min#time.inclusive.duration.ns", 1, -1 }, { X "Nsec/visit (avg)", "~~", "avg#time.inclusive.duration.ns", 1, -1 }, { X "Nsec/visit (max)", ">>", "max#time.inclusive.duration.ns", 1, -1 } } },
    { "runtime-report", "loop.stats", 0, {
        { L "Iterations", ">", "max#iter.count", 1, -1 }, { L "Time/iter (min)", "<", "min#iter.duration.ns", 1e-9, -1 }, { L "Time/iter (avg)", "~", "avg#iter.duration.ns", 1e-9, -1 }, { L "Time/iter (max)", ">", "max#iter.duration.ns", 1e-9, -1 },
        { X "Iterations", ">>", "max#iter.count", 1, -1 }, { X "Time/iter (min)", "<<", "min#iter.duration.ns", 1e-9, -1 }, { X "Time/iter (avg)", "~~", "avg#iter.duration.ns", 1e-9, -1 }, { X "Time/iter (max)", ">>", "max#iter.duration.ns", 1e-9, -1 } } },
    { "runtime-report", "async_events", 0, {
        { L "Count", "+", "count", 1, -1 }, { L "Event time (min)", "<", "min#event.duration.ns", 1e-9, -1 }, { L "Event time (avg)", "~", "avg#event.duration.ns", 1e-9, -1 }, { L "Event time (max)", ">", "max#event.duration.ns", 1e-9, -1 }, { L "Event", "?", "async.end", 0, -1 },
        { X "Count", "++", "count", 1, -1 }, { X "Event time (min)", "<<", "min#event.duration.ns", 1e-9, -1 }, { X "Event time (avg)", "~~", "avg#event.duration.ns", 1e-9, -1 }, { X "Event time (max)", ">>", "max#event.duration.ns", 1e-9, -1 }, { X "Event", "?", "async.end", 0, -1 } } },
    { "runtime-report", "node.order", 0, { { L "Node order", "<", "aggregate.slot", 1, -1 }, { X "Node order", "<<", "aggregate.slot", 1, -1 } } },
    { "runtime-report", "mpi.message.size", 0, {
        { L "Msg size (min)", "<", "min#mpi.msg.size|mpi.msg.size", 1, -1 }, { L "Msg size (avg)", "~", "avg#mpi.msg.size|mpi.msg.size", 1, -1 }, { L "Msg size (max)", ">", "max#mpi.msg.size|mpi.msg.size", 1, -1 },
        { X "Msg size (min)", "<<", "min#mpi.msg.size|mpi.msg.size", 1, -1 }, { X "Msg size (avg)", "~~", "avg#mpi.msg.size|mpi.msg.size", 1, -1 }, { X "Msg size (max)", ">>", "max#mpi.msg.size|mpi.msg.size", 1, -1 } } },
    { "runtime-report", "mpi.message.count", 0, {
        { L "Msgs sent", "+", "sum#mpi.send.count|mpi.send.count", 1, -1 }, { L "Msgs recvd", "+", "sum#mpi.recv.count|mpi.recv.count", 1, -1 }, { L "Collectives", "+", "sum#mpi.coll.count|mpi.coll.count", 1, -1 },
        { X "Msgs sent (avg)", "+~", "sum#mpi.send.count|mpi.send.count", 1, -1 }, { X "Msgs sent (max)", "+>", "sum#mpi.send.count|mpi.send.count", 1, -1 }, { X "Msgs recvd (avg)", "+~", "sum#mpi.recv.count|mpi.recv.count", 1, -1 },
        { X "Msgs recvd (max)", "+>", "sum#mpi.recv.count|mpi.recv.count", 1, -1 }, { X "Collectives (max)", "+>", "sum#mpi.coll.count|mpi.coll.count", 1, -1 } } },
    { "runtime-report", "comm.stats", 0, {
        { X "Sends (min)", "<<", "min#total.send.count", 1, -1 }, { X "Sends (max)", ">>", "max#total.send.count", 1, -1 }, { X "Sends (total)", "++", "sum#total.send.count", 1, -1 },
        { X "Recvs (min)", "<<", "min#total.recv.count", 1, -1 }, { X "Recvs (max)", ">>", "max#total.recv.count", 1, -1 }, { X "Recvs (total)", "++", "sum#total.recv.count", 1, -1 },
        { X "Dst ranks (min)", "<<", "min#total.dest.ranks", 1, -1 }, { X "Dst ranks (max)", ">>", "max#total.dest.ranks", 1, -1 }, { X "Dst ranks (avg)", "~~", "avg#total.dest.ranks", 1, -1 },
        { X "Src ranks (min)", "<<", "min#total.src.ranks", 1, -1 }, { X "Src ranks (max)", ">>", "max#total.src.ranks", 1, -1 }, { X "Src ranks (avg)", "~~", "avg#total.src.ranks", 1, -1 }, { X "Coll (max)", ">>", "max#total.coll.count", 1, -1 },
        { X "Bytes sent (min)", "<<", "min#mpi.send.size", 1, -1 }, { X "Bytes sent (max)", ">>", "max#mpi.send.size", 1, -1 }, { X "Bytes sent (total)", "++", "sum#mpi.send.size", 1, -1 },
        { X "Bytes recv (min)", "<<", "min#mpi.recv.size", 1, -1 }, { X "Bytes recv (max)", ">>", "max#mpi.recv.size", 1, -1 }, { X "Bytes recv (total)", "++", "sum#mpi.recv.size", 1, -1 },
        { X "Irecv gap (min)", "<<", "min#event.duration.ns", 1e-9, -1 }, { X "Irecv gap (avg)", "~~", "avg#event.duration.ns", 1e-9, -1 }, { X "Irecv gap (max)", ">>", "max#event.duration.ns", 1e-9, -1 },
        { L "Sends (min)", "<", "min#total.send.count", 1, -1 }, { L "Recvs (total)", "+", "sum#total.recv.count", 1, -1 }, { L "Collectives (max)", ">", "max#total.coll.count", 1, -1 }, { L "Bytes recv (max)", ">", "max#mpi.recv.size", 1, -1 }, { L "Irecv gap (avg)", "~", "avg#event.duration.ns", 1e-9, -1 } } },
    { "runtime-report", "io.bytes.written", 0, { { L "Bytes written", "+", "sum#io.bytes.written|io.bytes.written", 1, -1 }, { X "Avg written", "+~", "sum#io.bytes.written|io.bytes.written", 1, -1 }, { X "Total written", "++", "sum#io.bytes.written|io.bytes.written", 1, -1 } } },
    { "runtime-report", "io.bytes.read", 0, { { L "Bytes read", "+", "sum#io.bytes.read|io.bytes.read", 1, -1 }, { X "Avg read", "+~", "sum#io.bytes.read|io.bytes.read", 1, -1 }, { X "Total read", "++", "sum#io.bytes.read|io.bytes.read", 1, -1 } } },
    { "runtime-report", "io.bytes", 0, { { L "Bytes read", "+", "sum#io.bytes.read|io.bytes.read", 1, -1 }, { X "Total written", "++", "sum#io.bytes.written|io.bytes.written", 1, -1 } } },
    { "runtime-report", "io.read.bandwidth", 0, { { L "Bytes read", "+", "sum#io.bytes.read|io.bytes.read", 1, -1 }, { L "Read Mbit/s", "/", "sum#io.bytes.read|io.bytes.read:sum#time.duration.ns|time.duration.ns", 8e3, -1 }, { L "I/O", "?", "io.region", 0, -1 },
        { X "Avg read Mbit/s", "/~", "sum#io.bytes.read|io.bytes.read:sum#time.duration.ns|time.duration.ns", 8e3, -1 }, { X "Max read Mbit/s", "/>", "sum#io.bytes.read|io.bytes.read:sum#time.duration.ns|time.duration.ns", 8e3, -1 } } },
    { "runtime-report", "io.write.bandwidth", 0, { { L "Bytes written", "+", "sum#io.bytes.written|io.bytes.written", 1, -1 }, { L "Write Mbit/s", "/", "sum#io.bytes.written|io.bytes.written:sum#time.duration.ns|time.duration.ns", 8e3, -1 }, { L "I/O", "?", "io.region", 0, -1 },
        { X "Avg write Mbit/s", "/~", "sum#io.bytes.written|io.bytes.written:sum#time.duration.ns|time.duration.ns", 8e3, -1 }, { X "Max write Mbit/s", "/>", "sum#io.bytes.written|io.bytes.written:sum#time.duration.ns|time.duration.ns", 8e3, -1 } } },
    { "runtime-report", "mem.highwatermark", 0, { { L "Mem HWM MB", ">", "max#alloc.region.highwatermark|alloc.region.highwatermark", 1e-6, -1 }, { X "Mem HWM MB", ">>", "max#alloc.region.highwatermark|alloc.region.highwatermark", 1e-6, -1 } } },
    { "runtime-report", "alloc.stats", 0, {
        { L "Mem HWM", ">", "max#alloc.region.highwatermark", 1, -1 }, { L "Alloc tMax", ">", "max#alloc.tally|alloc.tally", 1, -1 }, { L "Alloc count", "+", "sum#alloc.count|alloc.count", 1, -1 }, { L "Avg Bytes/alloc", "~", "avg#alloc.size", 1, -1 }, { L "Max Bytes/alloc", ">", "max#alloc.size", 1, -1 },
        { X "Mem HWM", ">>", "max#alloc.region.highwatermark", 1, -1 }, { X "Alloc tMax", ">>", "max#alloc.tally|alloc.tally", 1, -1 }, { X "Alloc count", "++", "sum#alloc.count|alloc.count", 1, -1 }, { X "Avg Bytes/alloc", "~~", "avg#alloc.size", 1, -1 }, { X "Max Bytes/alloc", ">>", "max#alloc.size", 1, -1 } } },
    { "runtime-report", "mem.pages", 0, {
        { L "VmSize", ">", "max#memstat.vmsize|memstat.vmsize", 1, -1 }, { L "VmRSS", ">", "max#memstat.vmrss|memstat.vmrss", 1, -1 }, { L "Data", ">", "max#memstat.data|memstat.data", 1, -1 },
        { X "VmSize", ">>", "max#memstat.vmsize|memstat.vmsize", 1, -1 }, { X "VmRSS", ">>", "max#memstat.vmrss|memstat.vmrss", 1, -1 }, { X "Data", ">>", "max#memstat.data|memstat.data", 1, -1 } } },
    { "runtime-report", "cuda.gputime", 0, {
        { L "GPU time (I)", "i", "cupti.activity.duration", 1e-9, -1 }, { L "GPU time (E)", "+", "cupti.activity.duration", 1e-9, -1 },
        { X "Min GPU time (I)", "i<", "cupti.activity.duration", 1e-9, -1 }, { X "Avg GPU time (I)", "i~", "cupti.activity.duration", 1e-9, -1 }, { X "Max GPU time (I)", "i>", "cupti.activity.duration", 1e-9, -1 }, { X "Total GPU time (I)", "i+", "cupti.activity.duration", 1e-9, -1 },
        { X "Min GPU time (E)", "+<", "cupti.activity.duration", 1e-9, -1 }, { X "Avg GPU time (E)", "+~", "cupti.activity.duration", 1e-9, -1 }, { X "Max GPU time (E)", "+>", "cupti.activity.duration", 1e-9, -1 }, { X "Total GPU time (E)", "++", "cupti.activity.duration", 1e-9, -1 } } },
    { "runtime-report", "rocm.gputime", 0, {
        { L "GPU time (I)", "i", "sum#rocm.activity.duration|rocm.activity.duration", 1e-9, -1 }, { L "GPU time (E)", "+", "sum#rocm.activity.duration|rocm.activity.duration", 1e-9, -1 },
        { X "Min GPU time (I)", "i<", "sum#rocm.activity.duration|rocm.activity.duration", 1e-9, -1 }, { X "Avg GPU time (I)", "i~", "sum#rocm.activity.duration|rocm.activity.duration", 1e-9, -1 }, { X "Max GPU time (I)", "i>", "sum#rocm.activity.duration|rocm.activity.duration", 1e-9, -1 }, { X "Total GPU time (I)", "i+", "sum#rocm.activity.duration|rocm.activity.duration", 1e-9, -1 },
        { X "Min GPU time (E)", "+<", "sum#rocm.activity.duration|rocm.activity.duration", 1e-9, -1 }, { X "Avg GPU time (E)", "+~", "sum#rocm.activity.duration|rocm.activity.duration", 1e-9, -1 }, { X "Max GPU time (E)", "+>", "sum#rocm.activity.duration|rocm.activity.duration", 1e-9, -1 }, { X "Total GPU time (E)", "++", "sum#rocm.activity.duration|rocm.activity.duration", 1e-9, -1 } } },
    { "runtime-report", "rocm.alloc.stats", 0, {
        { L "Mem HWM", ">", "max#alloc.region.highwatermark", 1, -1 }, { L "Alloc tMax", ">", "max#alloc.tally|alloc.tally", 1, -1 }, { L "Alloc count", "+", "sum#alloc.count|alloc.count", 1, -1 }, { L "Avg Bytes/alloc", "~", "avg#alloc.size", 1, -1 }, { L "Max Bytes/alloc", ">", "max#alloc.size", 1, -1 },
        { X "Mem HWM", ">>", "max#alloc.region.highwatermark", 1, -1 }, { X "Alloc tMax", ">>", "max#alloc.tally|alloc.tally", 1, -1 }, { X "Alloc count", "++", "sum#alloc.count|alloc.count", 1, -1 }, { X "Avg Bytes/alloc", "~~", "avg#alloc.size", 1, -1 }, { X "Max Bytes/alloc", ">>", "max#alloc.size", 1, -1 } } },
    { "runtime-report", "rocm.activity.stats", 0, {
        { L "Kernel", "?", "rocm.kernel.name", 0, -1 }, { L "GPU invoc.", "+", "sum#rocm.activity.count", 1, -1 }, { L "Nsec/invoc (min)", "<", "min#rocm.activity.duration", 1, -1 }, { L "Nsec/invoc (avg)", "~", "avg#rocm.activity.duration", 1, -1 }, { L "Nsec/invoc (max)", ">", "max#rocm.activity.duration", 1, -1 },
        { X "Kernel", "?", "rocm.kernel.name", 0, -1 }, { X "GPU invoc.", "++", "sum#rocm.activity.count", 1, -1 }, { X "Nsec/invoc (min)", "<<", "min#rocm.activity.duration", 1, -1 }, { X "Nsec/invoc (avg)", "~~", "avg#rocm.activity.duration", 1, -1 }, { X "Nsec/invoc (max)", ">>", "max#rocm.activity.duration", 1, -1 } } },
    { "runtime-report", "umpire.totals", 0, {
        { L "Ump MB (Total)", "M", "max#umpire.total.size|umpire.total.size", 1e-6, -1 }, { L "Ump allocs (Total)", "M", "max#umpire.total.count|umpire.total.count", 1, -1 }, { L "Ump HWM (Total)", "M", "max#umpire.total.hwm|umpire.total.hwm", 1e-6, -1 },
        { X "Ump MB (avg)", "M~", "max#umpire.total.size|umpire.total.size", 1e-6, -1 }, { X "Ump MB (max)", "M>", "max#umpire.total.size|umpire.total.size", 1e-6, -1 }, { X "Ump allocs (avg)", "M~", "max#umpire.total.count|umpire.total.count", 1, -1 }, { X "Ump allocs (max)", "M>", "max#umpire.total.count|umpire.total.count", 1, -1 }, { X "Ump HWM (max)", "M>", "max#umpire.total.hwm|umpire.total.hwm", 1e-6, -1 } } },
    { "runtime-report", "umpire.allocators", 0, {
        { L "Allocator", "?", "umpire.alloc.name", 0, -1 }, { L "Alloc MB", "M", "max#umpire.alloc.current.size|umpire.alloc.current.size", 1e-6, -1 }, { L "Alloc HWM", "M", "max#umpire.alloc.highwatermark|umpire.alloc.highwatermark", 1e-6, -1 }, { L "Num allocs", "M", "max#umpire.alloc.count|umpire.alloc.count", 1, -1 },
        { X "Allocator", "?", "umpire.alloc.name", 0, -1 }, { X "Alloc MB (avg)", "M~", "max#umpire.alloc.current.size|umpire.alloc.current.size", 1e-6, -1 }, { X "Alloc MB (max)", "M>", "max#umpire.alloc.current.size|umpire.alloc.current.size", 1e-6, -1 }, { X "Alloc HWM (avg)", "M~", "max#umpire.alloc.highwatermark|umpire.alloc.highwatermark", 1e-6, -1 },
        { X "Alloc HWM (max)", "M>", "max#umpire.alloc.highwatermark|umpire.alloc.highwatermark", 1e-6, -1 }, { X "Num allocs (avg)", "M~", "max#umpire.alloc.count|umpire.alloc.count", 1, -1 }, { X "Num allocs (max)", "M>", "max#umpire.alloc.count|umpire.alloc.count", 1, -1 } } },
    { "runtime-report", "mem.read.bandwidth", 0, { { L "MB/s (r)", "/", "mem.bytes.read:sum#pcp.time.duration|pcp.time.duration", 1e-6, -1 }, { X "Avg MemBW (r) (MB/s)", "/~", "mem.bytes.read:sum#pcp.time.duration|pcp.time.duration", 1e-6, -1 },
        { X "Max MemBW (r) (MB/s)", "/>", "mem.bytes.read:sum#pcp.time.duration|pcp.time.duration", 1e-6, -1 }, { X "Total MemBW (r) (MB/s)", "/+", "mem.bytes.read:sum#pcp.time.duration|pcp.time.duration", 1e-6, -1 } } },
    { "runtime-report", "mem.bandwidth", 0, { { L "MB/s (w)", "/", "mem.bytes.written:sum#pcp.time.duration|pcp.time.duration", 1e-6, -1 }, { X "Avg MemBW (w) (MB/s)", "/~", "mem.bytes.written:sum#pcp.time.duration|pcp.time.duration", 1e-6, -1 },
        { X "Max MemBW (w) (MB/s)", "/>", "mem.bytes.written:sum#pcp.time.duration|pcp.time.duration", 1e-6, -1 }, { X "Total MemBW (w) (MB/s)", "/+", "mem.bytes.written:sum#pcp.time.duration|pcp.time.duration", 1e-6, -1 }, { X "Max MemBW (r) (MB/s)", "/>", "mem.bytes.read:sum#pcp.time.duration|pcp.time.duration", 1e-6, -1 } } },
    { "runtime-report", "papi.topdown.all", 0, {
        { L "Retiring", "~", "avg#papi.topdown:::TOPDOWN_RETIRING_PERC|papi.topdown:::TOPDOWN_RETIRING_PERC", 1, -1 }, { X "Retiring", "~~", "avg#papi.topdown:::TOPDOWN_RETIRING_PERC|papi.topdown:::TOPDOWN_RETIRING_PERC", 1, -1 },
        { L "Bad spec", "~", "avg#papi.topdown:::TOPDOWN_BAD_SPEC_PERC|papi.topdown:::TOPDOWN_BAD_SPEC_PERC", 1, -1 }, { X "Bad spec", "~~", "avg#papi.topdown:::TOPDOWN_BAD_SPEC_PERC|papi.topdown:::TOPDOWN_BAD_SPEC_PERC", 1, -1 },
        { L "FE bound", "~", "avg#papi.topdown:::TOPDOWN_FE_BOUND_PERC|papi.topdown:::TOPDOWN_FE_BOUND_PERC", 1, -1 }, { X "FE bound", "~~", "avg#papi.topdown:::TOPDOWN_FE_BOUND_PERC|papi.topdown:::TOPDOWN_FE_BOUND_PERC", 1, -1 },
        { L "BE bound", "~", "avg#papi.topdown:::TOPDOWN_BE_BOUND_PERC|papi.topdown:::TOPDOWN_BE_BOUND_PERC", 1, -1 }, { X "BE bound", "~~", "avg#papi.topdown:::TOPDOWN_BE_BOUND_PERC|papi.topdown:::TOPDOWN_BE_BOUND_PERC", 1, -1 },
        { L "Heavy ops", "~", "avg#papi.topdown:::TOPDOWN_HEAVY_OPS_PERC|papi.topdown:::TOPDOWN_HEAVY_OPS_PERC", 1, -1 }, { X "Light ops", "~~", "avg#papi.topdown:::TOPDOWN_LIGHT_OPS_PERC|papi.topdown:::TOPDOWN_LIGHT_OPS_PERC", 1, -1 },
        { L "Br mispr", "~", "avg#papi.topdown:::TOPDOWN_BR_MISPREDICT_PERC|papi.topdown:::TOPDOWN_BR_MISPREDICT_PERC", 1, -1 }, { X "Fetch lat", "~~", "avg#papi.topdown:::TOPDOWN_FETCH_LAT_PERC|papi.topdown:::TOPDOWN_FETCH_LAT_PERC", 1, -1 },
        { L "Fetch BW", "~", "avg#papi.topdown:::TOPDOWN_FETCH_BAND_PERC|papi.topdown:::TOPDOWN_FETCH_BAND_PERC", 1, -1 }, { X "Mem bound", "~~", "avg#papi.topdown:::TOPDOWN_MEM_BOUND_PERC|papi.topdown:::TOPDOWN_MEM_BOUND_PERC", 1, -1 },
        { L "Core bound", "~", "avg#papi.topdown:::TOPDOWN_CORE_BOUND_PERC|papi.topdown:::TOPDOWN_CORE_BOUND_PERC", 1, -1 }, { X "Mach clrs", "~~", "avg#papi.topdown:::TOPDOWN_MACHINE_CLEARS_PERC|papi.topdown:::TOPDOWN_MACHINE_CLEARS_PERC", 1, -1 } } },
    { "runtime-report", "topdown.toplevel", 0, {
        { L "Retiring", "~", "avg#papi.topdown:::TOPDOWN_RETIRING_PERC|papi.topdown:::TOPDOWN_RETIRING_PERC", 1, -1 }, { X "BE bound", "~~", "avg#papi.topdown:::TOPDOWN_BE_BOUND_PERC|papi.topdown:::TOPDOWN_BE_BOUND_PERC", 1, -1 } } },
    { "openmp-report", "openmp.threads", 0, {
        { L "#Threads", ">", "omp.num.threads", 1, -1 }, { L "Time (thread)", "i", "sum#time.duration.ns", 1e-9, -1 }, { L "Time (total)", "i", "sum#time.duration.ns", 1e-9, -1 },
        { L "Time (work)", "+", "sum#time.duration.ns", 1e-9, 0 }, { L "Time (barrier)", "+", "sum#time.duration.ns", 1e-9, 1 }, { L "Thread", "?", "omp.thread.id", 0, -1 }, { L "Work %", "w", "sum#time.duration.ns", 100, -1 }, { L "Barrier %", "b", "sum#time.duration.ns", 100, -1 },
        { X "#Threads", ">>", "omp.num.threads", 1, -1 }, { X "Time (thread) (avg)", "i~", "sum#time.duration.ns", 1e-9, -1 }, { X "Time (total)", "i+", "sum#time.duration.ns", 1e-9, -1 },
        { X "Time (work) (avg)", "+~", "sum#time.duration.ns", 1e-9, 0 }, { X "Time (work) (total)", "++", "sum#time.duration.ns", 1e-9, 0 }, { X "Time (barrier) (avg)", "+~", "sum#time.duration.ns", 1e-9, 1 }, { X "Time (barrier) (total)", "++", "sum#time.duration.ns", 1e-9, 1 },
        { X "Thread", "?", "omp.thread.id", 0, -1 }, { X "Work % (min)", "w<", "sum#time.duration.ns", 100, -1 }, { X "Work % (avg)", "w~", "sum#time.duration.ns", 100, -1 }, { X "Barrier % (avg)", "b~", "sum#time.duration.ns", 100, -1 }, { X "Barrier % (max)", "b>", "sum#time.duration.ns", 100, -1 } } },
    { "openmp-report", "show_threads,show_thread_type,show_regions=false", 1, { { L "Thread", "?", "omp.thread.id", 0, -1 }, { L "Type", "?", "omp.thread.type", 0, -1 }, { L "Time (total)", "i", "sum#time.duration.ns", 1e-9, -1 }, { X "Thread", "?", "omp.thread.id", 0, -1 }, { X "Type", "?", "omp.thread.type", 0, -1 }, { X "Time (total)", "i+", "sum#time.duration.ns", 1e-9, -1 } } },
    { "cuda-activity-report", "cuda.memcpy,show_kernels", 0, {
        { L "Kernel", "?", "cupti.kernel.name", 0, -1 }, { L "Host Time", "i", "sum#cupti.host.duration", 1e-9, -1 }, { L "GPU Time", "i", "cupti.activity.duration", 1e-9, -1 }, { L "GPU %", "J", "cupti.activity.duration:sum#cupti.host.duration", 100, -1 }, { L "Copy CPU->GPU", "+", "cupti.memcpy.bytes", 1e-6, 1 }, { L "Copy GPU->CPU", "+", "cupti.memcpy.bytes", 1e-6, 0 },
        { X "Kernel", "?", "cupti.kernel.name", 0, -1 }, { X "Avg Host Time", "i~", "sum#cupti.host.duration", 1e-9, -1 }, { X "Max Host Time", "i>", "sum#cupti.host.duration", 1e-9, -1 }, { X "Avg GPU Time", "i~", "cupti.activity.duration", 1e-9, -1 }, { X "Max GPU Time", "i>", "cupti.activity.duration", 1e-9, -1 }, { X "GPU %", "JQ", "cupti.activity.duration:sum#cupti.host.duration", 100, -1 },
        { X "Copy CPU->GPU (avg)", "+~", "cupti.memcpy.bytes", 1e-6, 1 }, { X "Copy CPU->GPU (max)", "+>", "cupti.memcpy.bytes", 1e-6, 1 }, { X "Copy GPU->CPU (avg)", "+~", "cupti.memcpy.bytes", 1e-6, 0 }, { X "Copy GPU->CPU (max)", "+>", "cupti.memcpy.bytes", 1e-6, 0 } } },
    { "rocm-activity-report", "show_kernels", 0, {
        { L "Kernel", "?", "rocm.kernel.name", 0, -1 }, { L "Host Time", "i", "sum#rocm.host.duration", 1e-9, -1 }, { L "GPU Time", "i", "sum#rocm.activity.duration", 1e-9, -1 }, { L "GPU %", "J", "sum#rocm.activity.duration:sum#rocm.host.duration", 100, -1 },
        { X "Kernel", "?", "rocm.kernel.name", 0, -1 }, { X "Avg Host Time", "i~", "sum#rocm.host.duration", 1e-9, -1 }, { X "Max Host Time", "i>", "sum#rocm.host.duration", 1e-9, -1 }, { X "Avg GPU Time", "i~", "sum#rocm.activity.duration", 1e-9, -1 }, { X "Max GPU Time", "i>", "sum#rocm.activity.duration", 1e-9, -1 }, { X "GPU %", "JQ", "sum#rocm.activity.duration:sum#rocm.host.duration", 100, -1 } } },
    { "sample-report", "sample.frequency=100,source.module,source.location", 0, {
        { L "Samples", "+", "1", 1, -1 }, { L "Time (sec)", "+", "1", 0.01, -1 }, { L "Module", "?", "module#cali.sampler.pc", 0, -1 }, { L "Function", "?", "source.function#cali.sampler.pc", 0, -1 }, { L "Source", "?", "sourceloc#cali.sampler.pc", 0, -1 },
        { X "Min time/rank", "+<", "1", 0.01, -1 }, { X "Max time/rank", "+>", "1", 0.01, -1 }, { X "Avg time/rank", "+~", "1", 0.01, -1 }, { X "Total time", "++", "1", 0.01, -1 }, { X "Time %", "%%", "1", 100, -1 }, { X "Module", "?", "module#cali.sampler.pc", 0, -1 }, { X "Function", "?", "source.function#cali.sampler.pc", 0, -1 }, { X "Source", "?", "sourceloc#cali.sampler.pc", 0, -1 } } },
    { "sample-report", "callpath,max_column_width=12", 1, { { L "Samples", "+", "1", 1, -1 }, { X "Total time", "++", "1", 0.005, -1 } } },
    { "mpi-report", "", 3, {
        { X "Function", "?", "mpi.function", 0, -1 }, { X "Count (min)", "<", "count", 1, -1 }, { X "Count (max)", ">", "count", 1, -1 },
        { X "Time (min)", "<", "sum#time.duration.ns", 1e-9, -1 }, { X "Time (max)", ">", "sum#time.duration.ns", 1e-9, -1 }, { X "Time (avg)", "~", "sum#time.duration.ns", 1e-9, -1 }, { X "Time %", "%", "sum#time.duration.ns", 100, -1 } } },
};
const int NOPT = sizeof(OPTIONS) / sizeof(OPTIONS[0]);

const int NP = 2, NR = 3; // processes, records per process: two in region main, one in the region foo in it

// the metric of a column in the chosen form
std::string alt(const std::string& raw, int form)
{
    size_t p = raw.find('|');
    if (p == std::string::npos)
        return raw;
    return form ? raw.substr(p + 1) : raw.substr(0, p);
}

struct Metric {
    std::string name;
    bool        exact; // only used in columns with integer results
    int         v[NP][NR];
};

struct Data {
    std::vector<Metric> m;
    int                 form;
    int                 np;
    Metric* find(const std::string& n)
    {
        for (Metric& x : m)
            if (x.name == n)
                return &x;
        return nullptr;
    }
    void add(const std::string& n, bool exact)
    {
        if (!find(n))
            m.push_back({ n, true, {} });
        find(n)->exact &= exact;
    }
};

struct Val {
    bool   have = false;
    int    i    = 0; // exact results
    double d    = 0;
};

const char* PATTERNS[] = { "123456", "654321", "315264" };

typedef std::vector<std::pair<int, int>> Where; // processes and records

// rows: -1 all records, 0 main, 1 foo
Where where(int p, int row, bool incl)
{
    Where w;
    for (int i = 0; i < NR; ++i)
        if (row < 0 || (row == 0 && (i < 2 || incl)) || (row == 1 && i == 2))
            w.push_back({ p, i });
    return w;
}

Val fold(char op, const std::vector<Val>& l)
{
    Val  r;
    int  n = 0;
    for (const Val& v : l) {
        if (!v.have)
            continue;
        if (n++ == 0) {
            r = v;
        } else if (op == '+' || op == '~') {
            r.i += v.i;
            r.d += v.d;
        } else if (op == '<') {
            r.i = v.i < r.i ? v.i : r.i;
            r.d = v.d < r.d ? v.d : r.d;
        } else {
            r.i = v.i > r.i ? v.i : r.i;
            r.d = v.d > r.d ? v.d : r.d;
        }
    }
    if (op == '~' && n > 0)
        r.d /= n;
    return r;
}

Val fold(char op, Data& d, const std::string& metric, const Where& w, int only)
{
    std::vector<Val> l;
    Metric*          m = d.find(metric);
    for (auto& x : w)
        if (only < 0 || x.second % 2 == only)
            l.push_back({ true, m->v[x.first][x.second], m->exact ? 0.0 : (double) m->v[x.first][x.second] });
    return fold(op, l);
}

Val ratio(const Val& a, const Val& b, double f)
{
    Val r;
    r.have = a.have && b.have;
    if (r.have)
        r.d = f * a.d / b.d;
    return r;
}

// the value of a column in the processes' records w (wi: with nested regions) of all records wa
Val value_of(const Column& c, Data& d, const Where& w, const Where& wi, const Where& wa)
{
    std::string raw(c.raw), second;
    size_t      p = raw.find(':');
    bool        two = c.ops[0] == '/' || c.ops[0] == 'J';
    if (two) {
        second = alt(raw.substr(p + 1), d.form);
        raw    = raw.substr(0, p);
    }
    raw   = alt(raw, d.form);
    Val r;
    switch (c.ops[0]) {
    case 'i': r = fold('+', d, raw, wi, c.only); break;
    case 'M': r = fold('>', d, raw, wi, c.only); break;
    case '/': return ratio(fold('+', d, raw, w, -1), fold('+', d, second, w, -1), c.scale);
    case 'J': return ratio(fold('+', d, raw, wi, -1), fold('+', d, second, wi, -1), c.scale);
    case '%': return ratio(fold('+', d, raw, w, -1), fold('+', d, raw, wa, -1), 100);
    case 'q': return ratio(fold('+', d, raw, wi, -1), fold('+', d, raw, wa, -1), 100);
    case 'w': return ratio(fold('+', d, raw, wi, 0), fold('+', d, raw, wi, -1), 100);
    case 'b': return ratio(fold('+', d, raw, wi, 1), fold('+', d, raw, wi, -1), 100);
    default: r = fold(c.ops[0], d, raw, w, c.only);
    }
    r.d *= c.scale;
    return r;
}

Val expected(const Option& o, const Column& c, Data& d, int row)
{
    Where all, rows, rowsi;
    for (int p = 0; p < d.np; ++p)
        for (auto& x : where(p, -1, true))
            all.push_back(x);
    for (int p = 0; p < d.np; ++p) {
        for (auto& x : where(p, row, false))
            rows.push_back(x);
        for (auto& x : where(p, row, true))
            rowsi.push_back(x);
    }
    char x = c.ops[1];
    if (!x || x == '%' || x == 'q') // in one step, and shares of all processes' total
        return value_of(c, d, rows, rowsi, all);
    std::vector<Val> l;
    for (int p = 0; p < d.np; ++p)
        l.push_back(value_of(c, d, where(p, row, false), where(p, row, true), where(p, -1, true)));
    if (x == 'Q') // ratio of the sums
        return value_of(c, d, rows, rowsi, all);
    return fold(x, l);
}

std::string get(const config_map_t& m, const char* k)
{
    auto it = m.find(k);
    return it == m.end() ? std::string() : it->second;
}

QuerySpec parse(const std::string& q)
{
    CalQLParser p(q.c_str());
    CHECK(!p.error(), "the queries of the built-in configurations are accepted");
    return p.spec();
}

struct Step {
    QuerySpec      spec;
    Preprocessor   prp;
    RecordSelector filter;
    Aggregator     agg;
    explicit Step(const QuerySpec& s) : spec(s), prp(s), filter(s), agg(s) {}
    void operator() (CaliperMetadataAccessInterface& db, const EntryList& l)
    {
        EntryList m = prp.process(db, l);
        if (filter.pass(db, m))
            agg.add(db, m);
    }
};

std::string leaf_region(const std::vector<Item>& l)
{
    std::string r;
    for (const Item& i : l)
        if (i.name == "region")
            r = i.val.to_string();
    return r;
}

const char* NODES[] = { "async.end", "io.region", "module#cali.sampler.pc", "source.function#cali.sampler.pc", "source.function#callpath.address", "sourceloc#cali.sampler.pc", "omp.thread.id", "umpire.alloc.name", "cupti.kernel.name",
                        "rocm.kernel.name", "mpi.function", "omp.thread.type", "pthread.is_master", "cupti.memcpy.kind", "omp.work", "omp.sync" };

const char* node_value(const std::string& n, int i)
{
    if (n == "async.end")
        return "irecv.req_wait_gap";
    if (n == "omp.thread.type")
        return "initial";
    if (n == "pthread.is_master")
        return "true";
    if (n == "cupti.memcpy.kind")
        return i % 2 ? "HtoD" : "DtoH";
    if (n == "omp.work")
        return i % 2 ? nullptr : "loop";
    if (n == "omp.sync")
        return i % 2 ? "barrier" : nullptr;
    return "x";
}

Node* make(CaliperMetadataDB& db, const Attribute& a, const char* s, Node* parent)
{
    Variant v(s);
    return db.make_tree_entry(1, &a, &v, parent);
}

bool nearly(double a, double b)
{
    double e = 1e-9 * (std::fabs(b) + 1e-9);
    return a - b <= e && b - a <= e;
}

} // namespace

// every column of every option shows the metric it is named after
ENTRY(c31_columns)
{
    quiet();
    int mode  = symx_choose(3, "mode"); // without MPI, with MPI, with MPI in one process
    verif_mpi = mode > 0;
    ConfigManager mgr;
    mgr.available_config_specs();
    const Option& o = OPTIONS[symx_param("from", 0) + symx_choose(std::min<uint64_t>(NOPT, symx_param("n", NOPT)), "option")];
    if ((strstr(o.option, "mpi.") || strstr(o.option, "comm.")) && mode == 0)
        return; // needs MPI
    if (mode == 2 && o.option[0] && !strstr(o.option, "mpi.") && !strstr(o.option, "comm.") && strcmp(o.config, "runtime-report") == 0)
        return; // the same as without MPI
    const bool cross = mode == 1;
    bool       forms = false;
    for (const Column& c : o.cols)
        forms |= c.label && c.label[0] == (cross ? 'X' : 'L') && strchr(c.raw, '|');
    Data d;
    d.form = forms ? symx_choose(2, "form") : 0;
    d.np   = cross ? NP : 1;

    const int NC = sizeof(o.cols) / sizeof(o.cols[0]);
    const char tag = cross ? 'X' : 'L';
    bool       any = false;
    for (int i = 0; i < NC && o.cols[i].label; ++i) {
        const Column& c = o.cols[i];
        any |= c.label[0] == tag;
        if (c.ops[0] == '?')
            continue;
        bool        exact = c.scale == 1 && strcmp(c.raw, "1") != 0 && c.ops[0] != '~' && c.ops[1] != '~' && c.ops[0] != '/' && c.ops[0] != '%' && c.ops[0] != 'q';
        std::string raw(c.raw);
        size_t      p = c.ops[0] == '/' || c.ops[0] == 'J' ? raw.find(':') : std::string::npos;
        if (p != std::string::npos)
            d.add(alt(raw.substr(p + 1), d.form), false);
        d.add(alt(raw.substr(0, p), d.form), exact);
    }
    if (!any)
        return;
    if (!d.find("time.duration.ns"))
        d.add("sum#time.duration.ns", false);
    if (!strstr(o.config, "sample"))
        d.add("count", false);
    const char* pat = PATTERNS[symx_choose(symx_param("patterns", 3), "pattern")];
    int         base[NP][NR], k = 0;
    for (int p = 0; p < d.np; ++p)
        for (int i = 0; i < NR; ++i)
            base[p][i] = symx_range(1, 100, "value");
    for (Metric& m : d.m) {
        ++k;
        for (int p = 0; p < d.np; ++p)
            for (int i = 0; i < NR; ++i)
                m.v[p][i] = m.name == "1" ? 1 : m.exact ? base[p][i] + 128 * k : (pat[p * NR + i] - '0') * 1000 + 17 * k;
    }

    std::string cfg = o.config;
    cfg.append("(").append(o.option);
    if (mode == 2)
        cfg.append(o.option[0] ? "," : "").append("aggregate_across_ranks=false");
    cfg.append(")");
    CHECK(mgr.add(cfg.c_str()) && !mgr.error(), "built-in configurations and their options are accepted");
    auto list = mgr.get_all_channels();
    CHECK(list.size() == 1, "the configuration creates a channel");
    config_map_t m = list[0]->copy_config();

    CaliperMetadataDB          db;
    Attribute                  region = db.create_attribute("region", CALI_TYPE_STRING, CALI_ATTR_NESTED);
    std::map<std::string, Attribute> attr;
    for (const char* n : NODES)
        attr[n] = db.create_attribute(n, CALI_TYPE_STRING, CALI_ATTR_DEFAULT);
    for (const Metric& x : d.m)
        attr[x.name] = db.create_attribute(x.name, x.name.compare(0, 4, "avg#") == 0 ? CALI_TYPE_DOUBLE : CALI_TYPE_UINT, CALI_ATTR_ASVALUE);

    QuerySpec last, first;
    if (cross) {
        last  = parse(get(m, "CALI_MPIREPORT_CONFIG"));
        first = parse(get(m, "CALI_MPIREPORT_LOCAL_CONFIG"));
        CHECK(o.kind > 1 || !get(m, "CALI_MPIREPORT_LOCAL_CONFIG").empty(), "reports aggregate within the processes first");
    } else
        last = parse(get(m, "CALI_REPORT_CONFIG"));

    Step result(last);
    for (int p = 0; p < d.np; ++p) {
        Step local(first);
        bool two = cross && o.kind < 2;
        for (int i = 0; i < NR; ++i) {
            Node* n = make(db, region, "main", nullptr);
            if (i == 2)
                n = make(db, region, "foo", n);
            for (const char* a : NODES)
                if (const char* v = node_value(a, i))
                    n = make(db, attr[a], v, n);
            EntryList rec { Entry(n) };
            for (const Metric& x : d.m)
                if (x.name != "1")
                    rec.push_back(Entry(attr[x.name], attr[x.name].type() == CALI_TYPE_DOUBLE ? Variant((double) x.v[p][i]) : Variant(cali_make_variant_from_uint(x.v[p][i]))));
            if (two)
                local(db, rec);
            else
                result(db, rec);
        }
        if (two)
            local.agg.flush(db, [&](CaliperMetadataAccessInterface& d, const EntryList& l) { result(d, l); });
    }
    std::vector<std::vector<Item>> rows;
    result.agg.flush(db, [&](CaliperMetadataAccessInterface& d, const EntryList& l) { rows.push_back(flatten(d, l)); });

    for (int row = (o.kind & 1) ? -1 : 0; row < ((o.kind & 1) ? 0 : 2); ++row) {
        const std::vector<Item>* rec = nullptr;
        for (auto& r : rows)
            if (row < 0 || leaf_region(r) == (row ? "foo" : "main")) {
                CHECK(!rec, "each region has one row");
                rec = &r;
            }
        CHECK(!!rec, "each region has a row");
        for (int i = 0; i < NC && o.cols[i].label; ++i) {
            const Column& c = o.cols[i];
            if (c.label[0] != tag)
                continue;
            std::string label = c.label + 2;
            int         n = 0;
            for (auto& a : last.aliases) {
                if (a.second != label && (label != "Nsec/invoc (avg)" || a.second != "Nsec/incov (avg)"))
                    continue;
                ++n;
                const Item* it = nullptr;
                for (const Item& x : *rec)
                    if (x.name == a.first)
                        it = &x;
                if (c.ops[0] == '?') {
                    CHECK(it && it->val.to_string() == node_value(a.first, 0), "the column shows the attribute");
                    continue;
                }
                Val v = expected(o, c, d, row);
                if (!v.have)
                    continue;
                CHECK(!!it, "the column has a value");
                Metric* mm = d.find(alt(c.raw, d.form));
                if (mm && mm->exact)
                    CHECK(it->val.to_int() == v.i, "the column shows the metric");
                else
                    CHECK(nearly(it->val.to_double(), v.d), "the column shows the metric");
            }
            CHECK(n > 0, "the report has the column");
        }
    }
    symx_reach("columns");
}

// ---------------------------------------------------------------- output of complete runs

namespace
{

std::vector<std::string> lines(const std::string& text)
{
    std::vector<std::string> r;
    std::string              l;
    for (char c : text)
        if (c == '\n') {
            r.push_back(l);
            l.clear();
        } else
            l.push_back(c);
    CHECK(l.empty(), "the output ends with a newline");
    return r;
}

std::vector<std::string> words(const std::string& s)
{
    std::vector<std::string> r;
    std::string              w;
    for (char c : s + " ")
        if (c != ' ')
            w.push_back(c);
        else if (!w.empty()) {
            r.push_back(w);
            w.clear();
        }
    return r;
}

std::string file_text(const char* name)
{
    std::ifstream     is(name);
    CHECK(is.good(), "the output file exists");
    std::string r;
    for (std::string l; std::getline(is, l);)
        r.append(l).append("\n");
    return r;
}

// the cells of a row of a table with these columns
std::map<std::string, std::string> cells(const std::string& head, const std::string& row, const std::vector<std::string>& cols)
{
    std::map<std::string, std::string> r;
    size_t pos = 0;
    for (size_t i = 0; i < cols.size(); ++i) {
        size_t at = head.find(cols[i], pos);
        CHECK(at != std::string::npos, "the table has the columns");
        size_t next = i + 1 < cols.size() ? head.find(cols[i + 1], at + cols[i].size()) : std::string::npos;
        std::string c = at < row.size() ? row.substr(at, next == std::string::npos ? next : next - at) : std::string();
        while (!c.empty() && c.back() == ' ')
            c.pop_back();
        r[cols[i]] = c.substr(std::min(c.size(), c.find_first_not_of(' ')));
        pos = at + cols[i].size();
    }
    return r;
}

bool shown(const std::string& s, double v, double eps = 0.0000011)
{
    if (s.empty() || s.find_first_not_of("0123456789.-+e") != std::string::npos)
        return false;
    double d = atof(s.c_str()), e = eps + 1e-6 * std::fabs(v);
    return d - v <= e && v - d <= e;
}

// collective operations of two processes, one after the other: a process that has to wait is started again later.
// What it has done before it does again, with the same results.
struct Blocked {};

struct Net {
    struct Op {
        char        kind;
        int         i;
        std::string s;
        std::shared_ptr<CaliperMetadataDB> db;
        std::vector<EntryList> recs;
    };
    std::vector<Op> log[2];
};

struct Proc : public cali::internal::CustomOutputController::Comm {
    Net*            net;
    int             me;
    mutable size_t  k = 0;
    Proc(Net* n, int r) : net(n), me(r) {}
    int rank() const override { return me; }

    Net::Op& op(char kind) const
    {
        if (k == net->log[me].size())
            net->log[me].push_back({ kind, 0, "", nullptr, {} });
        CHECK(net->log[me][k].kind == kind, "a process does the same again");
        return net->log[me][k++];
    }
    Net::Op& other(char kind) const
    {
        if (k > net->log[1 - me].size())
            throw Blocked();
        Net::Op& o = net->log[1 - me][k - 1];
        CHECK(o.kind == kind, "all processes take part in the same operations");
        return o;
    }
    int bcast_int(int v) const override
    {
        Net::Op& o = op('i');
        if (me == 0)
            return o.i = v;
        return other('i').i;
    }
    std::string bcast_str(const std::string& v) const override
    {
        Net::Op& o = op('s');
        if (me == 0)
            return o.s = v;
        return other('s').s;
    }
    void cross_aggregate(CaliperMetadataDB& db, Aggregator& a) const override
    {
        Net::Op& o = op('a');
        if (me == 1) {
            if (!o.db) {
                o.db = std::make_shared<CaliperMetadataDB>();
                a.flush(db, [&](CaliperMetadataAccessInterface& d, const EntryList& l) { o.recs.push_back(o.db->merge_snapshot(d, l)); });
            }
            return;
        }
        Net::Op& r = other('a');
        for (const EntryList& l : r.recs)
            a.add(db, db.merge_snapshot(*r.db, l));
    }
};

// flush of one or two processes; the output of the first one
std::string flush_all(cali::internal::CustomOutputController** c, int n)
{
    if (n == 1) {
        std::ostringstream os;
        OutputStream       s;
        s.set_stream(&os);
        cali::internal::CustomOutputController::Comm comm;
        c[0]->collective_flush(s, comm);
        return os.str();
    }
    Net                net;
    std::string        text;
    bool               done[2] = { false, false };
    for (int round = 0; !(done[0] && done[1]); ++round) {
        CHECK(round < 30, "the processes do not wait for each other");
        for (int r = 1; r >= 0; --r) {
            if (done[r])
                continue;
            std::ostringstream os;
            OutputStream       s;
            s.set_stream(&os);
            Proc p(&net, r);
            try {
                c[r]->collective_flush(s, p);
                done[r] = true;
                if (r == 0)
                    text = os.str();
                else
                    CHECK(os.str().empty(), "only the first process writes output");
            } catch (Blocked&) {
            }
        }
    }
    CHECK(net.log[0].size() == net.log[1].size(), "all processes take part in the same operations");
    return text;
}

cali::internal::CustomOutputController* controller(ConfigManager& m)
{
    auto l = m.get_all_channels();
    CHECK(l.size() == 1, "the configuration creates a channel");
    auto* r = dynamic_cast<cali::internal::CustomOutputController*>(l[0].get());
    CHECK(!!r, "the configuration creates a channel that writes its own output");
    return r;
}

const char* NAMES[] = { "lp", "a,b", "x (1)", "q\"t", "b\\s", "v=1" };

struct LoopRun {
    int    n = 0; // iterations
    double t = 0; // time in iterations (s)
    std::vector<std::pair<int, double>> snaps; // iterations and time of each interval
    bool   ran = false;
};

LoopRun run_loop(const char* name, int n, int interval, int us)
{
    LoopRun  r;
    r.n   = n;
    r.ran = true;
    Loop     l(name);
    uint64_t last = g_now, t0 = g_now;
    int      k = 0;
    for (int i = 0; i < n; ++i) {
        {
            Loop::Iteration it(l.iteration(i));
            g_now += (uint64_t) us * (1 + i % 3) * 1000;
        }
        if (++k == interval) {
            r.snaps.push_back({ k, 1e-9 * (double) (g_now - last) });
            k    = 0;
            last = g_now;
        }
    }
    if (k > 0)
        r.snaps.push_back({ k, 1e-9 * (double) (g_now - last) });
    r.t = 1e-9 * (double) (g_now - t0);
    l.end();
    return r;
}

} // namespace

// the loop report shows the iterations and times of all loops of all processes
static void check_loop_report(int np, int nnames, int nrows, bool both)
{
    quiet();
    verif_mpi = false;
    ConfigManager mgr[2];
    for (int p = 0; p < np; ++p)
        mgr[p].available_config_specs();
    int           nmax = symx_param("iterations", 4);
    bool          all = np == 1 || symx_param("all", 0);
    int           interval = 1 + symx_choose(2, "interval"), maxrows = all ? symx_choose(nrows, "maxrows") - 1 : interval - 2;
    const char*   name = NAMES[symx_choose(nnames, "name")];
    std::string   opts = "iteration_interval=" + std::to_string(interval);
    if (maxrows >= 0)
        opts += ",timeseries.maxrows=" + std::to_string(maxrows);
    bool target = np == 1 && name == NAMES[0] && symx_choose(2, "target");
    if (target)
        opts += ",target_loops=\"lp,third\"";
    LoopRun runs[2][2]; // process, loop
    cali::internal::CustomOutputController* ctrl[2];
    for (int p = 0; p < np; ++p) {
        CHECK(mgr[p].add(("loop-report(" + opts + ")").c_str()) && !mgr[p].error(), "the configuration is accepted");
        mgr[p].start();
        ctrl[p] = controller(mgr[p]);
        int which = both ? 3 : symx_choose(4, "loops");
        if (which & 1) {
            int n      = all ? symx_choose(nmax + 1, "iterations") : p == 0 ? nmax : nmax - symx_choose(nmax, "iterations");
            runs[p][0] = run_loop(name, n, interval, 1000 * (p + 1));
        }
        g_now += 7000000;
        if (which & 2) {
            LoopRun r = run_loop("second", 3, interval, 2000);
            if (!target)
                runs[p][1] = r;
        }
        mgr[p].stop();
    }
    std::vector<std::string> out = lines(flush_all(ctrl, np));

    size_t pos = 0;
    while (pos < out.size() && out[pos].compare(0, 4, "Loop") != 0)
        ++pos;
    CHECK(pos < out.size() && out[pos] == "Loop summary:", "there is a summary");
    for (int l = 0; l < 2; ++l) {
        std::string nm   = l ? "second" : name;
        int         iter = 0, n = 0;
        double      t = 0, rate = 0, sum = 0, low = 1e30;
        for (int p = 0; p < np; ++p) {
            const LoopRun& r = runs[p][l];
            n += r.n;
            sum += r.t;
            iter = std::max(iter, r.n);
            t    = std::max(t, r.t);
            for (auto& s : r.snaps) {
                rate = std::max(rate, s.first / s.second);
                low  = std::min(low, s.first / s.second);
            }
        }
        bool        found = false;
        std::string head;
        for (size_t i = pos + 1; i < out.size() && out[i].compare(0, 9, "Iteration") != 0; ++i) {
            if (out[i].compare(0, 5, "Loop ") == 0)
                head = out[i];
            if (out[i].compare(0, nm.size() + 1, nm + " ") != 0)
                continue;
            CHECK(!found, "each loop has one row in the summary");
            found = true;
            if (iter == 0)
                continue;
            auto w = cells(head, out[i], { "Loop", "Iterations", "Time (s)", "Iter/s (min)", "Iter/s (max)", "Iter/s (avg)" });
            CHECK(w["Iterations"] == std::to_string(iter), "the summary shows the number of iterations");
            CHECK(shown(w["Time (s)"], t), "the summary shows the time in the loop");
            CHECK(shown(w["Iter/s (max)"], rate), "the summary shows the highest iteration rate");
            CHECK(shown(w["Iter/s (avg)"], n / sum), "the summary shows the average iteration rate");
            if (np == 1 && n % interval)
                CHECK(shown(w["Iter/s (min)"], low), "the summary shows the lowest iteration rate");
        }
        CHECK(found || iter == 0, "each loop has a row in the summary");

        // iteration blocks
        size_t b = 0;
        while (b < out.size() && out[b] != "Iteration summary (" + nm + "):")
            ++b;
        CHECK((b < out.size()) == (iter > 0), "there is a time series for each loop");
        if (iter == 0)
            continue;
        int count = 0;
        for (int p = 0; p < np; ++p)
            if (runs[p][l].ran)
                count = std::max(count, runs[p][l].n / interval + 1);
        int rows = maxrows > 0 ? maxrows : maxrows == 0 ? count : 20;
        int size = std::max(1, count > rows ? iter / rows : 1);
        std::map<int, std::vector<std::pair<int, double>>> want; // blocks of each process
        for (int p = 0; p < np; ++p) {
            std::map<int, std::pair<int, double>> m;
            int start = 0;
            for (auto& x : runs[p][l].snaps) {
                auto& e = m[start / size * size];
                e.first += x.first;
                e.second += x.second;
                start += x.first;
            }
            for (auto& e : m)
                want[e.first].push_back(e.second);
        }
        std::string bhead;
        auto        it = want.begin();
        for (size_t i = b + 1; i < out.size() && out[i].compare(0, 9, "Iteration") != 0; ++i) {
            if (out[i].compare(0, 6, "Block ") == 0) {
                bhead = out[i];
                continue;
            }
            if (bhead.empty())
                continue;
            auto w = cells(bhead, out[i], { "Block", "Iterations", "Time (s)", "Iter/s" });
            if (w["Block"].empty())
                continue; // after the last iteration
            CHECK(it != want.end() && w["Block"] == std::to_string(it->first), "the time series shows the blocks of iterations in order");
            int    bi = 0;
            double bt = 0, br = 0;
            for (auto& e : it->second) {
                bi = std::max(bi, e.first);
                bt = std::max(bt, e.second);
                br += e.first / e.second / it->second.size();
            }
            CHECK(w["Iterations"] == std::to_string(bi), "the time series shows the iterations of a block");
            CHECK(shown(w["Time (s)"], bt), "the time series shows the time of a block");
            CHECK(shown(w["Iter/s"], br), "the time series shows the iteration rate of a block");
            ++it;
        }
        CHECK(it == want.end(), "the time series shows all blocks");
    }
    symx_reach("loop");
}

ENTRY(c31_loop)
{
    check_loop_report(1, 1, 4, false);
}

ENTRY(c31_loop_names)
{
    check_loop_report(1, sizeof(NAMES) / sizeof(NAMES[0]), 1, true);
}

ENTRY(c31_loop_procs)
{
    check_loop_report(2, 1, 2, false);
}

// ---------------------------------------------------------------- reports and profiles of regions

namespace
{

struct Reg {
    std::string path;
    double      t = 0, ti = 0; // exclusive and inclusive time (s)
    int         visits = 0;
};

struct RegionRun {
    std::vector<Reg>         regs; // in the order of the first visit
    std::vector<std::string> open;

    Reg& get(const std::string& path)
    {
        for (Reg& r : regs)
            if (r.path == path)
                return r;
        regs.push_back({ path, 0, 0, 0 });
        return regs.back();
    }
    std::string path(size_t n) const
    {
        std::string s;
        for (size_t i = 0; i < n; ++i)
            s.append(i ? "/" : "").append(open[i]);
        return s;
    }
    void spend(int us)
    {
        g_now += 1000 * (uint64_t) us;
        if (open.empty())
            return;
        get(path(open.size())).t += 1e-6 * us;
        for (size_t i = 1; i <= open.size(); ++i)
            get(path(i)).ti += 1e-6 * us;
    }
    void begin(const char* n)
    {
        cali_begin_region(n);
        open.push_back(n);
        ++get(path(open.size())).visits;
    }
    void end()
    {
        std::string n = open.back();
        cali_end_region(n.c_str());
        open.pop_back();
    }
    double total() const
    {
        double s = 0;
        for (const Reg& r : regs)
            s += r.t;
        return s;
    }
    const Reg* find(const std::string& p) const
    {
        for (const Reg& r : regs)
            if (r.path == p)
                return &r;
        return nullptr;
    }
};

const char* RNAMES[] = { "b", "a", "x y" };

// a tree of regions: each step begins a region (up to depth 3), ends one, or goes on for a while
void run_regions(RegionRun& r, int steps, int unit)
{
    r.spend(3 * unit);
    r.begin("main");
    r.spend(unit);
    for (int i = 0; i < steps; ++i) {
        int nopts = (r.open.size() < 3 ? 2 : 0) + (r.open.size() > 1 ? 1 : 0);
        int o     = symx_choose(nopts, "step");
        if (r.open.size() < 3 && o < 2)
            r.begin(RNAMES[o]);
        else
            r.end();
        r.spend(unit * (2 + i * 3));
    }
    while (!r.open.empty()) {
        r.end();
        r.spend(unit * 5);
    }
}

std::string leaf_of(const std::string& path)
{
    size_t p = path.rfind('/');
    return p == std::string::npos ? path : path.substr(p + 1);
}

std::string parent_of(const std::string& path)
{
    size_t p = path.rfind('/');
    return p == std::string::npos ? std::string() : path.substr(0, p);
}

// the region paths in the order in which a tree with sorted siblings lists them
void tree_order(const std::vector<const Reg*>& sorted, const std::string& parent, std::vector<const Reg*>& out)
{
    for (const Reg* r : sorted)
        if (parent_of(r->path) == parent) {
            out.push_back(r);
            tree_order(sorted, r->path, out);
        }
}

} // namespace

// runtime-report prints the tree of regions with their times
ENTRY(c31_runtime)
{
    quiet();
    verif_mpi = false;
    ConfigManager mgr;
    mgr.available_config_specs();
    bool        by_time = symx_choose(2, "order_by_time");
    std::string file    = "c31_runtime.txt";
    CHECK(mgr.add(("runtime-report(output=" + file + (by_time ? ",order_by_time" : "") + ")").c_str()) && !mgr.error(), "the configuration is accepted");
    mgr.start();
    RegionRun r;
    run_regions(r, symx_param("steps", 3), 1000);
    mgr.flush();
    mgr.stop();
    std::vector<std::string> out = lines(file_text(file.c_str()));
    CHECK(!out.empty(), "the report is written");

    std::vector<const Reg*> sorted, want;
    for (const Reg& x : r.regs)
        sorted.push_back(&x);
    if (by_time)
        std::stable_sort(sorted.begin(), sorted.end(), [](const Reg* a, const Reg* b) { return a->t > b->t + 1e-9; });
    tree_order(sorted, "", want);
    CHECK(out.size() == want.size() + 1, "there is one row for each region");
    const std::vector<std::string> cols { "Path", "Time (E)", "Time (I)", "Time % (E)", "Time % (I)" };
    std::vector<bool> seen(want.size(), false);
    for (size_t i = 0; i < want.size(); ++i) {
        const Reg* x = want[i];
        // rows of regions with the same time may be in any order
        auto   w     = cells(out[0], out[i + 1], cols);
        size_t depth = std::count(x->path.begin(), x->path.end(), '/');
        CHECK(w["Path"] == leaf_of(x->path), "the rows are in the requested order");
        CHECK(out[i + 1].find_first_not_of(' ') == 2 * depth, "rows are indented by their depth");
        CHECK(shown(w["Time (E)"], x->t), "the report shows the exclusive time");
        CHECK(shown(w["Time (I)"], x->ti), "the report shows the inclusive time");
        CHECK(shown(w["Time % (E)"], 100 * x->t / r.total()), "the report shows the exclusive share of the time");
        CHECK(shown(w["Time % (I)"], 100 * x->ti / r.total()), "the report shows the inclusive share of the time");
    }
    symx_reach("runtime");
}

namespace
{

// the records of a .cali stream by the labels of their columns
struct Profile {
    struct Rec {
        std::string                        path;
        std::map<std::string, double>      v;     // labelled values
        std::map<std::string, std::string> names; // labels and names of their metrics
        std::map<std::string, std::string> s;     // other values by attribute name
    };
    std::vector<Rec>                   recs;
    std::map<std::string, std::string> globals, units;

    void read(const std::string& text)
    {
        CaliperMetadataDB db;
        Collected         c;
        read_text(text, db, c);
        CHECK(!c.error, "the profile can be read");
        Attribute alias = db.get_attribute("attribute.alias"), unit = db.get_attribute("attribute.unit");
        auto      add   = [&](Rec& r, const Attribute& a, const Variant& v) {
            std::string al = alias ? a.get(alias).to_string() : std::string();
            if (a.is_hidden())
                return;
            if (al.empty()) {
                r.s[a.name()] = v.to_string();
                return;
            }
            CHECK(!r.v.count(al), "a record has one value in each column");
            r.v[al]     = v.to_double();
            r.names[al] = a.name();
            if (unit)
                units[al] = a.get(unit).to_string();
        };
        for (const EntryList& l : c.raw) {
            Rec r;
            for (const Entry& e : l)
                if (e.is_reference()) {
                    for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) {
                        Attribute a = db.get_attribute(n->attribute());
                        if (a.is_nested())
                            r.path = n->data().to_string() + (r.path.empty() ? "" : "/") + r.path;
                        else
                            add(r, a, n->data());
                    }
                } else
                    add(r, db.get_attribute(e.attribute()), e.value());
            recs.push_back(r);
        }
        for (const Entry& e : db.get_globals())
            if (e.is_reference()) {
                for (const Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent())
                    globals[db.get_attribute(n->attribute()).name()] = n->data().to_string();
            } else
                globals[db.get_attribute(e.attribute()).name()] = e.value().to_string();
    }

    // the metrics in this list are the labelled columns of these records
    void check_metrics(const std::string& list, const char* chn)
    {
        std::vector<std::string> names, have;
        std::string              w;
        for (char ch : list + ",")
            if (ch == ',') {
                names.push_back(w);
                w.clear();
            } else
                w.push_back(ch);
        for (const Rec& r : recs)
            if (r.s.count("spot.channel") && r.s.at("spot.channel") == chn)
                for (auto& p : r.names)
                    if (std::find(have.begin(), have.end(), p.second) == have.end())
                        have.push_back(p.second);
        std::sort(names.begin(), names.end());
        std::sort(have.begin(), have.end());
        CHECK(names == have, "the profile lists its metrics");
    }

    const Rec* find(const std::string& path, const char* chn = nullptr)
    {
        const Rec* f = nullptr;
        for (const Rec& r : recs)
            if (r.path == path && (!chn || (r.s.count("spot.channel") && r.s.at("spot.channel") == chn))) {
                CHECK(!f, "each region has one record");
                f = &r;
            }
        return f;
    }
};

bool is_near(const Profile::Rec* r, const char* label, double v)
{
    auto it = r->v.find(label);
    if (it == r->v.end())
        return false;
    double d = it->second - v, e = 1e-9 + 2e-5 * std::fabs(v);
    return d <= e && -d <= e;
}

bool is_near(const J* v, double x)
{
    return v && v->t == 'n' && shown(v->s, x);
}

} // namespace

// runtime-profile records the times of all regions in each of its formats
ENTRY(c31_profile)
{
    quiet();
    verif_mpi = false;
    ConfigManager mgr;
    mgr.available_config_specs();
    int         fmt  = symx_choose(4, "format");
    const char* name[] = { "cali", "hatchet", "json-split", "json" };
    std::string file = std::string("c31_profile") + (fmt < 2 ? ".cali" : ".json");
    CHECK(mgr.add((std::string("runtime-profile(time.inclusive,region.count,output=c31_profile,output.format=") + name[fmt] + ")").c_str()) && !mgr.error(), "the configuration is accepted");
    mgr.start();
    RegionRun r;
    run_regions(r, symx_param("steps", 3), 1000);
    mgr.flush();
    mgr.stop();
    std::string text = file_text(file.c_str());

    if (fmt < 2) {
        Profile p;
        p.read(text);
        int order = -1;
        for (const Reg& x : r.regs) {
            const Profile::Rec* e = p.find(x.path);
            CHECK(!!e, "each region has a record");
            CHECK(is_near(e, "time", x.t), "the profile has the time of each region");
            CHECK(is_near(e, "time (inc)", x.ti), "the profile has the inclusive time of each region");
            CHECK(is_near(e, "Calls", x.visits), "the profile has the number of visits of each region");
            CHECK(e->v.count("Node order") && (int) e->v.at("Node order") > order, "the profile has the order of the regions");
            order = (int) e->v.at("Node order");
        }
        for (const Profile::Rec& e : p.recs)
            CHECK(e.path.empty() || r.find(e.path), "there are no other regions");
        CHECK(p.units["time"] == "sec" && p.units["time (inc)"] == "sec" && p.units["Calls"] == "count", "the columns have units");
        CHECK(p.globals["cali.channel"] == "runtime-profile" && p.globals["opts:time.inclusive"] == "true", "the profile has the options");
    } else {
        J j;
        CHECK(JsonParser::parse(text, j), "the profile is valid JSON");
        std::vector<J>           rows;
        std::vector<std::string> cols, paths;
        if (fmt == 2) {
            CHECK(j.t == 'o' && j.get("data") && j.get("columns") && j.get("nodes"), "the profile has its parts");
            for (const J& c : j.get("columns")->a)
                cols.push_back(c.s);
            for (const J& n : j.get("nodes")->a) {
                const J* par = n.get("parent");
                CHECK(n.get("label") && n.get("column") && n.get("column")->s == "path", "nodes are labelled");
                CHECK(!par || (size_t) atoi(par->s.c_str()) < paths.size(), "parents come first");
                paths.push_back((par ? paths[atoi(par->s.c_str())] + "/" : std::string()) + n.get("label")->s);
            }
            for (const J& d : j.get("data")->a) {
                CHECK(d.a.size() == cols.size(), "each row has all columns");
                J row;
                row.t = 'o';
                for (size_t i = 0; i < cols.size(); ++i) {
                    J v = d.a[i];
                    if (v.t == 'l')
                        continue;
                    if (cols[i] == "path") {
                        CHECK((size_t) atoi(v.s.c_str()) < paths.size(), "rows refer to nodes");
                        v.s = paths[atoi(v.s.c_str())];
                        v.t = 's';
                    }
                    row.o.push_back({ cols[i], v });
                }
                rows.push_back(row);
            }
        } else {
            CHECK(j.t == 'a', "the profile is a list of records");
            rows = j.a;
        }
        for (const Reg& x : r.regs) {
            const J* e = nullptr;
            for (const J& row : rows)
                if (row.get("path") && row.get("path")->s == x.path) {
                    CHECK(!e, "each region has one record");
                    e = &row;
                }
            CHECK(!!e, "each region has a record");
            CHECK(is_near(e->get("time"), x.t), "the profile has the time of each region");
            CHECK(is_near(e->get("time (inc)"), x.ti), "the profile has the inclusive time of each region");
            CHECK(is_near(e->get("Calls"), x.visits), "the profile has the number of visits of each region");
        }
        for (const J& row : rows)
            CHECK(!row.get("path") || r.find(row.get("path")->s), "there are no other regions");
    }
    symx_reach("profile");
}

// spot records the times of all regions and loops of all processes
static void check_spot(int np)
{
    static const int ITER[] = { 1, 3, 4, 5, 8, 43, 2, 6, 7, 9, 10 };
    quiet();
    verif_mpi = false;
    ConfigManager mgr[2];
    for (int p = 0; p < np; ++p)
        mgr[p].available_config_specs();
    bool        series = symx_choose(2, "timeseries");
    std::string opts   = "time.variance";
    int interval = 2, maxrows = 0;
    if (series) {
        if (np == 1)
            interval = 1 + symx_choose(3, "interval");
        maxrows = symx_choose(np == 1 ? 5 : 2, "maxrows") - 1;
        opts += ",timeseries,timeseries.iteration_interval=" + std::to_string(interval);
        if (maxrows >= 0)
            opts += ",timeseries.maxrows=" + std::to_string(maxrows);
    }
    cali::internal::CustomOutputController* ctrl[2];
    RegionRun run[2];
    LoopRun   loop[2], second;
    for (int p = 0; p < np; ++p) {
        CHECK(mgr[p].add(("spot(" + opts + ")").c_str()) && !mgr[p].error(), "the configuration is accepted");
        mgr[p].start();
        ctrl[p] = controller(mgr[p]);
        if (series && (np == 1 || p == 1 || symx_choose(2, "loop"))) {
            int      n   = np == 1 ? ITER[symx_choose(symx_param("iterations", 6), "iterations")] : p == 0 ? 3 : 4;
            uint64_t old = g_now;
            loop[p]      = run_loop("lp", n, interval, 1000 * (p + 1));
            Reg& r       = run[p].get("lp");
            r.t = r.ti = 1e-9 * (g_now - old);
            r.visits   = 1 + n;
            if (np == 1 && maxrows < 1) {
                old    = g_now;
                second = run_loop("second", 2, interval, 3000);
                Reg& r2 = run[p].get("second");
                r2.t = r2.ti = 1e-9 * (g_now - old);
                r2.visits    = 3;
            }
        } else
            run_regions(run[p], symx_param("steps", 2) - (np == 2 && p == 1), 1000 * (p + 1));
        mgr[p].stop();
        // only the channels of one process are active at a time
        Caliper c;
        for (Channel chn : c.get_all_channels())
            c.deactivate_channel(chn);
    }
    Profile prof;
    prof.read(flush_all(ctrl, np));

    std::vector<std::string> paths;
    for (int p = 0; p < np; ++p)
        for (const Reg& x : run[p].regs)
            if (std::find(paths.begin(), paths.end(), x.path) == paths.end())
                paths.push_back(x.path);
    for (const std::string& path : paths) {
        double lo = 1e30, hi = -1, sum = 0, sq = 0, elo = 1e30, ehi = -1, esum = 0, clo = 1e30, chi = -1, csum = 0;
        int    n  = 0;
        for (int p = 0; p < np; ++p)
            if (const Reg* x = run[p].find(path)) {
                lo = std::min(lo, x->ti), hi = std::max(hi, x->ti), sum += x->ti, sq += x->ti * x->ti;
                elo = std::min(elo, x->t), ehi = std::max(ehi, x->t), esum += x->t;
                clo = std::min<double>(clo, x->visits), chi = std::max<double>(chi, x->visits), csum += x->visits;
                ++n;
            }
        const Profile::Rec* e = prof.find(path, "regionprofile");
        CHECK(!!e, "each region has a record");
        CHECK(is_near(e, "Min time/rank", lo) && is_near(e, "Max time/rank", hi) && is_near(e, "Avg time/rank", sum / n) && is_near(e, "Total time", sum), "the profile has the inclusive times of the processes");
        CHECK(is_near(e, "Min time/rank (exc)", elo) && is_near(e, "Max time/rank (exc)", ehi) && is_near(e, "Avg time/rank (exc)", esum / n) && is_near(e, "Total time (exc)", esum), "the profile has the exclusive times of the processes");
        CHECK(is_near(e, "Variance time/rank", sq / n - sum / n * (sum / n)), "the profile has the variance of the processes' times");
        CHECK(is_near(e, "Calls/rank (min)", clo) && is_near(e, "Calls/rank (max)", chi) && is_near(e, "Calls/rank (avg)", (int) csum / n) && is_near(e, "Calls (total)", csum), "the profile has the visits of the processes");
    }
    int count = 0;
    for (const Profile::Rec& e : prof.recs)
        if (e.s.count("spot.channel") && e.s.at("spot.channel") == "regionprofile")
            CHECK(e.path.empty() || std::find(paths.begin(), paths.end(), e.path) != paths.end(), "there are no other regions");
        else
            ++count;
    CHECK(prof.globals["spot.format.version"] == "2" && prof.globals["spot.channels"] == (series ? "regionprofile,timeseries" : "regionprofile") && prof.globals["cali.channel"] == "spot", "the profile describes itself");
    prof.check_metrics(prof.globals["spot.metrics"], "regionprofile");

    // time series: blocks of iterations
    int iter = 0, recs = 0;
    for (int p = 0; p < np; ++p)
        if (loop[p].ran) {
            iter = std::max(iter, loop[p].n);
            recs = std::max(recs, loop[p].n / interval + 1);
        }
    int rows = maxrows > 0 ? maxrows : maxrows == 0 ? recs : 20;
    int size = std::max(1, recs > rows ? iter / rows : 1);
    std::map<int, std::vector<std::pair<int, double>>> want;
    int total = iter > 0;
    for (int p = 0; p < np; ++p) {
        std::map<int, std::pair<int, double>> m;
        int start = 0;
        for (auto& x : loop[p].snaps) {
            auto& e = m[start / size * size];
            e.first += x.first;
            e.second += x.second;
            start += x.first;
        }
        for (auto& e : m)
            want[e.first].push_back(e.second);
    }
    for (auto& w : want) {
        const Profile::Rec* e = nullptr;
        for (const Profile::Rec& r : prof.recs)
            if (r.s.count("spot.channel") && r.s.at("spot.channel") == "timeseries" && r.s.count("block") && r.s.at("block") == std::to_string(w.first)) {
                if (r.path != "lp")
                    continue;
                CHECK(!e, "each block has one record");
                e = &r;
            }
        CHECK(!!e, "each block has a record");
        int    bi = 0;
        double bt = 0, br = 0;
        for (auto& x : w.second) {
            bi = std::max(bi, x.first);
            bt = std::max(bt, x.second);
            br += x.first / x.second / w.second.size();
        }
        CHECK(is_near(e, "Iterations", bi), "the time series has the iterations of a block");
        CHECK(is_near(e, "Time (s)", bt), "the time series has the time of a block");
        CHECK(is_near(e, "Iter/s", br), "the time series has the iteration rate of a block");
    }
    int start2 = 0;
    for (auto& x : second.snaps) {
        const Profile::Rec* e = nullptr;
        for (const Profile::Rec& r : prof.recs)
            if (r.s.count("spot.channel") && r.s.at("spot.channel") == "timeseries" && r.s.count("block") && r.s.at("block") == std::to_string(start2) && r.path == "second") {
                CHECK(!e, "each block has one record");
                e = &r;
            }
        CHECK(!!e && is_near(e, "Iterations", x.first) && is_near(e, "Time (s)", x.second), "each block of each loop has a record");
        start2 += x.first;
    }
    CHECK(count == (int) want.size() + (int) second.snaps.size(), "the time series has all blocks");
    if (total)
        prof.check_metrics(prof.globals["spot.timeseries.metrics"], "timeseries");
    symx_reach("spot");
}

ENTRY(c31_spot)
{
    check_spot(1);
}

ENTRY(c31_spot_procs)
{
    check_spot(2);
}
