// Deterministic simulator core: one seed, one execution.
//
// Everything the system under test (SUT) can observe that is not a pure
// function of its inputs goes through this file: thread scheduling, blocking
// synchronisation, clocks, sockets/epoll/timerfd/eventfd, name resolution and
// the memory it allocates.  The SUT is compiled with -fsanitize=thread but
// linked against the __tsan_* functions of tsanrt.cpp, so every memory access
// is a potential preemption point and feeds the race and lifetime detectors.
#ifndef SIM_CORE_H
#define SIM_CORE_H

#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim
{
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;

constexpr u64 US = 1000ull;
constexpr u64 MS = 1000000ull;
constexpr u64 SEC = 1000000000ull;
constexpr u64 NEVER = ~0ull;

// ---------------------------------------------------------------- choices --
enum Stream { ST_FAULT = 0, ST_SCHED = 1, N_STREAMS = 2 };

// Uniform in [0, n).  0 is always the benign outcome (no fault, no preemption,
// no extra delay), which is what makes zeroing a choice a shrinking step.
u64 choose(Stream s, u64 n);
// 1 with probability num/den, else 0 (recorded as 0/1)
bool chance(Stream s, u64 num, u64 den);

struct Rng
{
    u64 s[4];
    explicit Rng(u64 seed = 1);
    u64 next();
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool one_in(u64 n) { return below(n) == 0; }
    i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
u64 mix64(u64 a, u64 b);

// ----------------------------------------------------------------- faults --
enum FaultKind
{
    F_SHORT_READ, F_SHORT_WRITE, F_READ_EAGAIN, F_WRITE_EAGAIN, F_EINTR,
    F_SOCKET_EMFILE, F_ACCEPT_EMFILE, F_ACCEPT_ABORT, F_BIND_FAIL, F_DNS_FAIL,
    F_CONN_REFUSED, F_CONN_TIMEOUT, F_CONN_UNREACH, F_RST, F_PEER_CLOSE, F_PARTITION,
    F_SEGMENT, F_LATENCY, F_SMALL_BUF, F_EPOLL_SUBSET, F_SPURIOUS_WAKE, F_THREAD_STALL,
    F_SLOW_CPU, F_TIMER_LATE, F_DNS_SLOW, F_SLOW_READER, F_HALF_CLOSE, F_PARTIAL_FRAME,
    F_BAD_FRAME, F_LATE_RESPONSE, F_DUP_RESPONSE, F_NO_RESPONSE, F_WRONG_ID, F_UNSOLICITED,
    F_COALESCE, F_READ_ERR, F_WRITE_ERR, F_OPEN_FAIL, F_CLOCK_JUMP, F_FLOOD, N_FAULTS
};
const char* fault_name(int k);
void count_fault(FaultKind k, u64 n = 1);

// ----------------------------------------------------------------- probes --
// "this rare condition was reached" counters, aggregated over all runs
void probe(const char* name);

// ------------------------------------------------------------------ clock --
u64 now();                                    // monotonic simulated ns
void wall_jump(i64 d);                        // the wall clock (not the monotonic one) is set
void at(u64 when, std::function<void()> fn);  // harness event
inline void after(u64 d, std::function<void()> fn);
void at_cancelable(u64 when, std::function<void()> fn, u64& id);
void cancel_event(u64 id);

// -------------------------------------------------------------- scheduler --
struct SchedCfg
{
    u32 mode = 0;            // 0 cooperative, 1 random quanta, 2 priority change points
    u32 mean_quantum = 400;  // accesses
    u32 stall_permille = 0;  // chance that a preempted fiber is stalled
    u64 stall_max = 50 * MS;
    u32 cpu_ns_per_step = 0; // simulated cost of one memory access (slow CPU)
    u32 spurious_permille = 0;
};
void set_sched(const SchedCfg& c);
int current_fiber();
bool fiber_is_sut(int id);       // created by the library through pthread_create
void sleep_ns(u64 d);            // harness: block the calling fiber
void yield();
// Block the calling fiber until pred() holds (evaluated after every event) or
// the simulated deadline passes.  Returns pred().
bool wait_until(const std::function<bool()>& pred, u64 deadline);
int spawn(const char* name, std::function<void()> fn);
void join(int fiber);
// mark a happens-before edge that the real system has but the simulator
// cannot see (harness rendezvous)
void hb_release(const void* tag);
void hb_acquire(const void* tag);
void set_nprocs(int n);           // what std::thread::hardware_concurrency() says
u64 total_stall_ns();            // simulated ns injected by stalls + CPU cost
u64 steps();
u64 events_seq();
int thread_count();             // every thread and fiber created so far
int live_threads(int lo = 0, int hi = 1 << 30);              // SUT threads (created by pthread_create) not yet finished
void finish_faults();            // from now on choices in ST_FAULT/ST_SCHED are benign

// Harness scope: code inside runs without preemption, race checking or the
// SUT arena
extern int g_depth;
// (out of line where the including file is instrumented)
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define SIM_INSTRUMENTED 1
#endif
#endif
int depth_set(int d);              // returns the previous depth
void depth_add(int d);
#ifdef SIM_INSTRUMENTED
struct Harness
{
    Harness() { depth_add(1); }
    ~Harness() { depth_add(-1); }
};
struct Sut  // temporarily re-enter SUT mode from within a Harness scope
{
    int saved;
    Sut() : saved(depth_set(0)) {}
    ~Sut() { depth_set(saved); }
};
#else
struct Harness
{
    Harness() { ++g_depth; }
    ~Harness() { --g_depth; }
};
#endif

// ------------------------------------------------------------ violations --
// prop: property id, cls: violation class (stable across shrinking),
// msg: human text
void violation(const std::string& prop, const std::string& cls, const std::string& msg);
[[noreturn]] void fatal_violation(const std::string& prop, const std::string& cls, const std::string& msg);
struct Violation { std::string prop, cls, msg; u64 t, seq; };
const std::vector<Violation>& violations();

// ------------------------------------------------------------- event log --
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
u64 log_hash();
void state_hash(u64 h);          // distinct-state measure
void sched_hash(u64 h);

// ----------------------------------------------------------------- memory --
u64 sut_live_bytes();
u64 sut_live_blocks();

// --------------------------------------------------------------- run hooks --
struct RunSpec
{
    u64 seed = 1;
    bool replay = false;
    std::vector<u32> rec[N_STREAMS];   // recorded choices (replay)
};
struct RunResult
{
    std::vector<u32> rec[N_STREAMS];
};
void run_begin(const RunSpec& spec);
void run_body(const std::function<void()>& body);   // runs body as fiber 0
const std::vector<u32>& recorded(Stream s);

inline void after(u64 d, std::function<void()> fn) { at(now() + d, std::move(fn)); }

extern bool g_active;
extern bool g_verbose;
extern bool g_keep_log;
extern u64 g_max_steps;
extern u64 g_fault_counts[N_FAULTS];
extern std::map<std::string, u64> g_probes;
extern std::vector<std::string> g_log;
extern std::set<u64> g_states;
extern u64 g_switches, g_preempts, g_state_hash, g_sched_hash;
[[noreturn]] void run_abort(int code);  // ends the process after flushing results
extern void (*g_on_abort)(int code);
enum { END_OK = 0, END_VIOLATION = 1, END_LIMIT = 2, END_HARNESS = 3 };
extern std::string g_end_reason;
[[noreturn]] void harness_error(const std::string& msg);
std::string backtrace_here(int skip);
void block_current_for_io(const char* why);  // internal
} // namespace sim

#endif
