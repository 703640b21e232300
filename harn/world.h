// The simulated world around the library: devices, raw clients, user threads,
// the operations they perform and the oracles that watch them.
#ifndef HARN_WORLD_H
#define HARN_WORLD_H
#include "sut.h"
#include <array>
#include <deque>

namespace harn
{
// ------------------------------------------------------------------- case --
#define CFG_FIELDS(X) \
    X(profile, 0) X(salt, 0) X(sched_mode, 0) X(quantum, 400) X(stall_pm, 0) X(stall_us, 0) X(cpu_ns, 0) X(spurious, 0) \
    X(short_read, 0) X(short_write, 0) X(read_eagain, 0) X(write_eagain, 0) X(eintr, 0) X(open_fail, 0) X(bind_fail, 0) \
    X(dns_fail, 0) X(dns_slow, 0) X(accept_emfile, 0) X(accept_abort, 0) X(refuse, 0) X(conn_timeout, 0) X(unreach, 0) \
    X(rst, 0) X(segment, 0) X(partition, 0) X(epoll_subset, 0) X(timer_late, 0) X(lat_us, 50) X(jit_us, 200) \
    X(partition_ms, 500) X(connect_timeout_ms, 3000) X(emfile_ms, 200) X(sndbuf, 65536) X(rcvbuf, 65536) X(timerfd, 1) X(eventfd, 1) \
    X(w_exc, 0) X(w_none, 0) X(w_late, 0) X(w_dup, 0) X(w_wtxn, 0) X(w_wunit, 0) X(w_malf, 0) X(w_proto, 0) X(w_unsol, 0) \
    X(w_partial, 0) X(w_close, 0) X(w_rst, 0) X(w_closeafter, 0) X(w_slow, 0) X(w_coal, 0) X(w_garbage, 0) X(w_len01, 0) \
    X(dev_delay_us, 200) X(slow_us, 20000) X(teardown, 0) X(restart, 0) X(probe_client, 1) X(nap_pm, 0)
struct Cfg
{
#define X(n, d) i64 n = d;
    CFG_FIELDS(X)
#undef X
};
struct CfgField { const char* name; i64 Cfg::*p; i64 def; };
const std::vector<CfgField>& cfg_fields();

enum OpKind
{
    MK_MGR, MK_DEV, MK_DB, MK_CUSTOM, MK_SRV, ADD_SESS, START_SRV, MK_CHAN, MK_SESS,
    REQ, SCHED, SCHED_CTL, TIMER, TIMER_CTL, SESS_SHUT, CHAN_SHUT, SRV_SHUT, MGR_SHUT, DROP, DB_ADD, TXN,
    DEV_CTL, PARTITION, RAW_OPEN, RAW_SEND, RAW_CTL, RAW_WAIT, SLEEP, BARRIER, WALL_CLOCK, RAW_FLOOD, N_OPS
};
const char* op_name(int k);
struct Op
{
    int lane = 0;          // -1 setup, 0.. user threads, 100.. environment lanes
    int kind = 0;
    std::vector<i64> a;    // a[0] = delay in simulated microseconds
};
struct Case
{
    Cfg cfg;
    std::vector<Op> ops;
};

enum Profile { PF_CLIENT, PF_CLEAN, PF_HOSTILE, PF_RECOVERY, PF_SCHED, PF_TIMER, PF_SHUTDOWN, PF_THREADS, PF_ISOLATION, PF_SERVER, PF_FRAMING, PF_SESSIONS, PF_CONNS, PF_BACKPRESSURE, PF_E2E, PF_LIN, PF_WIRE, N_PROFILES };
const char* profile_name(int p);
Case generate(int profile, u64 seed);

// runs inside a fresh process; reports through sim::violation
void run_case(const Case& c);
extern u64 g_sim_time;              // simulated duration of the run
extern std::map<std::string, u64> g_stats;
} // namespace harn
#endif
