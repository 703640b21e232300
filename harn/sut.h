// Everything the harness asks of the system under test, in plain types.  The
// implementation (scen/sut.cpp) is the only file that includes the library's
// headers; it is compiled and instrumented like the library.
#ifndef HARN_SUT_H
#define HARN_SUT_H
#include "codec.h"

namespace sut
{
using namespace sim;
using harn::ReqSpec;
enum ResKind { K_OK, K_EXC, K_MALFORMED, K_BADREQ, K_CONN, K_TIMEOUT, K_OTHER };
struct Result
{
    int kind = K_OTHER;
    int exc = 0;
    std::vector<std::pair<u16, u16>> vals;
    std::string text;
};
const char* kind_name(int k);

void mgr_create(int m, int threads, int log);
void mgr_shutdown(int m);
void mgr_destroy(int m);

bool client_create(int c, int m, const std::string& host, u16 port, const std::string& adapter, int level, u16 txn = 0);
void client_shutdown(int c);
void client_drop(int c);
bool session_create(int s, int c, u8 unit, i64 timeout_ns);
void session_shutdown(int s);
void session_drop(int s);
bool request(int s, int rid, const ReqSpec& r, i64 timeout_ns);   // <0: session default
bool schedule(int s, int q, const ReqSpec& r, i64 timeout_ns, i64 freq_ns);
void sched_start(int q);
void sched_stop(int q);
void sched_set_freq(int q, i64 f);
bool sched_running(int q, bool& running, i64& freq);
void sched_drop(int q);
bool timer_start(int s, int t, i64 dur_ns, bool absolute, i64& expires_ns, i64& asked_ns);
void timer_cancel(int t);
i64 timer_expires(int t);
void timer_drop(int t);

bool server_create(int v, int m, const std::string& host, u16 port, unsigned maxc, int level);
void server_start(int v);
void server_shutdown(int v);
void server_drop(int v);
void server_add_db(int v, u8 unit, int db);
void server_add_custom(int v, u8 unit, int custom);
void db_create(int d);
bool db_add(int d, int table, u16 addr, u16 val);
struct TxnStep { bool write; int table; u16 addr; u16 val; bool ok; };
void db_txn(int d, std::vector<TxnStep>& steps, bool throws = false);
void db_drop(int d);
void custom_create(int k);
void custom_drop(int k);

// leak evidence, after everything was dropped: how many user objects handed to
// the library are still alive
int tokens_alive(std::string& what, const std::set<int>& except);
bool object_alive(std::string& what, const std::set<int>& except);   // channels, sessions, servers created by the library
u64 log_lines();
} // namespace sut

// implemented by the harness, called from library threads
namespace harn
{
void on_result(int rid, const sut::Result& r);
void on_sched_result(int q, const sut::Result& r);
void on_timer(int t);
// custom server session: decide the outcome of a request
struct CustomOutcome { int kind = 0; int exc = 0; std::vector<u16> vals; };  // 0 value, 1 modbus exception, 2 other exception, 3 base class
CustomOutcome on_custom(int k, const sut::ReqSpec& r);
void on_custom_shutdown(int k);
void nested(int rid, int what);          // run follow-up operations of a handler
void nested_sched(int q);
void nested_timer(int t);
// one handler at a time runs for each channel
struct Guard { int key; u64 t; explicit Guard(int k); ~Guard(); };
int chan_key_req(int rid);
int chan_key_sched(int q);
int chan_key_timer(int t);
int chan_key_custom(int k);
} // namespace harn
#endif
