// Adapter: the only file of the harness that touches the library's API.
// Compiled and instrumented exactly like the library itself.
#include "harn/sut.h"
#include "sim/core.h"

#include "modbus/IModbusManager.h"
#include "modbus/Ipv4Endpoint.h"
#include "modbus/client/IClientChannel.h"
#include "modbus/client/IClientSession.h"
#include "modbus/client/IScheduledRequest.h"
#include "modbus/ITimer.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/logging/LoggerFactory.h"
#include "modbus/messages/Address.h"
#include "modbus/server/IServerChannel.h"
#include "modbus/server/IServerSession.h"
#include "modbus/server/db/InMemoryDatabase.h"
#include "spdlog/sinks/base_sink.h"

#include <set>

// The transaction identifiers of a channel wrap around after 65536 requests.  Where the
// library still keeps the next one in this member, a run may begin close to the end.
// (This file is compiled with -fno-access-control.)
#if __has_include("client/channel/ClientChannelTcp.h")
#include "client/channel/ClientChannelTcp.h"
template<class C> auto set_next_txn(C* c, uint16_t v, int) -> decltype(c->m_next_transaction_id = modbus::TransactionIdentifier{v}, void()) { if(c) c->m_next_transaction_id = modbus::TransactionIdentifier{v}; }
template<class C> void set_next_txn(C*, uint16_t, long) {}
static void first_txn(const std::shared_ptr<modbus::IClientChannel>& ch, uint16_t v) { set_next_txn(dynamic_cast<modbus::ClientChannelTcp*>(ch.get()), v, 0); }
#else
static void first_txn(const std::shared_ptr<modbus::IClientChannel>&, uint16_t) {}
#endif

using namespace modbus;
using harn::ReqSpec;

namespace sut
{
const char* kind_name(int k)
{
    static const char* n[] = {"ok", "modbus-exception", "malformed-response", "malformed-request", "connection-error", "timeout", "other-error"};
    return n[k];
}

struct CountingSink : spdlog::sinks::base_sink<std::mutex>
{
    uint64_t lines = 0, bytes = 0;
    void sink_it_(const spdlog::details::log_msg& msg) override { ++lines; bytes += msg.payload.size(); }
    void flush_() override {}
};
static std::shared_ptr<CountingSink> g_sink;
u64 log_lines() { return g_sink ? g_sink->lines : 0; }

// Harness-side tables.  Publication of a new object between user threads is
// what a real program would do under its own lock: modelled by hb_release /
// hb_acquire.
template<class T> struct Table
{
    std::map<int, T> m;
    void put(int i, T v) { m[i] = std::move(v); sim::hb_release(this); }
    T get(int i) { sim::hb_acquire(this); auto it = m.find(i); return it == m.end() ? T{} : it->second; }
    bool has(int i) { return m.count(i) != 0; }
};
static Table<std::shared_ptr<IModbusManager>> T_mgr;
static Table<std::shared_ptr<IClientChannel>> T_cli;
static Table<std::shared_ptr<IClientSession>> T_sess;
static Table<std::shared_ptr<IScheduledRequest>> T_sched;
static Table<std::shared_ptr<ITimer>> T_timer;
static Table<std::shared_ptr<IServerChannel>> T_srv;
static Table<std::shared_ptr<InMemoryDatabase>> T_db;
static Table<std::shared_ptr<IServerSession>> T_custom;

struct Weak { std::string what; std::weak_ptr<void> w; int mgr; };
static std::map<int, int> g_mgr_of_sess, g_mgr_of_chan;      // which manager an object belongs to
static std::vector<Weak> g_weak;       // library objects
static std::vector<Weak> g_tokens;     // user objects captured by callbacks

static std::shared_ptr<int> token(const std::string& what, int mgr)
{
    auto t = std::make_shared<int>(1);   // harness scope
    g_tokens.push_back({what, t, mgr});
    return t;
}
int tokens_alive(std::string& what, const std::set<int>& except)
{
    int n = 0;
    for(auto& w : g_tokens) if(!except.count(w.mgr) && !w.w.expired()) { ++n; if(what.size() < 200) what += w.what + " "; }
    return n;
}
bool object_alive(std::string& what, const std::set<int>& except)
{
    bool r = false;
    for(auto& w : g_weak) if(!except.count(w.mgr) && !w.w.expired()) { r = true; what += w.what + " "; }
    return r;
}
// drop a reference in SUT mode (the library's destructors must be observed)
template<class T> static void drop(Table<std::shared_ptr<T>>& t, int i)
{
    auto it = t.m.find(i);
    if(it == t.m.end()) return;
    std::shared_ptr<T> p = std::move(it->second);
    t.m.erase(it);
    sim::hb_acquire(&t);
    sim::Sut s;
    p.reset();
}
template<class T> struct Held    // a temporary reference, released in SUT mode
{
    std::shared_ptr<T> p;
    explicit Held(std::shared_ptr<T> q) : p(std::move(q)) {}
    ~Held() { sim::Sut s; p.reset(); }
    explicit operator bool() const { return (bool)p; }
};
template<class T> static Held<T> hold(Table<std::shared_ptr<T>>& t, int i) { return Held<T>(t.get(i)); }

void mgr_create(int m, int threads, int log)
{
    std::shared_ptr<IModbusManager> p;
    {
        sim::Sut s;
        std::shared_ptr<Logger> lg;
        if(log == 0) lg = LoggerFactory::create_null_logger("null");
        else
        {
            if(!g_sink) g_sink = std::make_shared<CountingSink>();
            lg = LoggerFactory::create_custom_logger(std::make_shared<spdlog::logger>("sim", g_sink), log == 1 ? LoggingLevel::Debug : LoggingLevel::Info);
        }
        if(threads >= 100) { sim::set_nprocs(threads - 100); p = IModbusManager::create(lg); }
        else p = IModbusManager::create(lg, threads);
    }
    T_mgr.put(m, p);
}
void mgr_shutdown(int m)
{
    auto p = hold(T_mgr, m);
    if(!p) return;
    sim::Sut s;
    p.p->shutdown();
}
void mgr_destroy(int m) { drop(T_mgr, m); }

static LoggingLevel lvl(int l) { return l == 0 ? LoggingLevel::Info : l == 1 ? LoggingLevel::Debug : LoggingLevel::Warn; }

bool client_create(int c, int m, const std::string& host, u16 port, const std::string& adapter, int level, u16 txn)
{
    auto p = hold(T_mgr, m);
    if(!p) return false;
    std::shared_ptr<IClientChannel> ch;
    {
        sim::Sut s;
        ch = p.p->create_client_tcp_channel(std::string("client") + std::to_string(c), Ipv4Endpoint{std::string(host.c_str()), port}, std::string(adapter.c_str()), lvl(level));
    }
    if(!ch) return false;
    if(txn) { sim::Sut s; first_txn(ch, txn); }
    g_weak.push_back({"client-channel", ch, m});
    g_mgr_of_chan[c] = m;
    T_cli.put(c, ch);
    sim::Sut s; ch.reset();
    return true;
}
void client_shutdown(int c)
{
    auto p = hold(T_cli, c);
    if(!p) return;
    sim::Sut s;
    p.p->shutdown();
}
void client_drop(int c) { drop(T_cli, c); }
bool session_create(int i, int c, u8 unit, i64 timeout)
{
    auto p = hold(T_cli, c);
    if(!p) return false;
    std::shared_ptr<IClientSession> x;
    { sim::Sut s; x = p.p->create_session(UnitIdentifier{unit}, std::chrono::nanoseconds(timeout)); }
    if(!x) return false;
    g_weak.push_back({"client-session", x, g_mgr_of_chan[c]});
    g_mgr_of_sess[i] = g_mgr_of_chan[c];
    T_sess.put(i, x);
    sim::Sut s; x.reset();
    return true;
}
void session_shutdown(int i)
{
    auto p = hold(T_sess, i);
    if(!p) return;
    sim::Sut s;
    p.p->shutdown();
}
void session_drop(int i) { drop(T_sess, i); }

// ------------------------------------------------------------- conversions --
template<class R> static void vals_of(const R& r, Result& o) { for(auto& v : r.values) o.vals.push_back({v.address, (u16)v.value}); }
static void vals_of(const WriteSingleCoilResponse& r, Result& o) { o.vals.push_back({r.value.address, (u16)r.value.value}); }
static void vals_of(const WriteSingleRegisterResponse& r, Result& o) { o.vals.push_back({r.value.address, r.value.value}); }
static void vals_of(const WriteMultipleCoilsResponse& r, Result& o) { o.vals.push_back({r.starting_address, r.qty_of_coils}); }
static void vals_of(const WriteMultipleRegistersResponse& r, Result& o) { o.vals.push_back({r.starting_address, r.qty_of_registers}); }
static int exc_code(ExceptionType t)
{
    switch(t)
    {
    case ExceptionType::IllegalFunction: return 1;
    case ExceptionType::IllegalDataAddress: return 2;
    case ExceptionType::IllegalDataValue: return 3;
    case ExceptionType::ServerDeviceFailure: return 4;
    case ExceptionType::Acknowledge: return 5;
    case ExceptionType::ServerDeviceBusy: return 6;
    case ExceptionType::MemoryParityError: return 8;
    case ExceptionType::GatewayPathUnavailable: return 10;
    case ExceptionType::GatewayTargetDeviceFailedToRespond: return 11;
    default: return 0;
    }
}
static ExceptionType exc_type(int c)
{
    switch(c)
    {
    case 1: return ExceptionType::IllegalFunction;
    case 2: return ExceptionType::IllegalDataAddress;
    case 3: return ExceptionType::IllegalDataValue;
    case 4: return ExceptionType::ServerDeviceFailure;
    case 5: return ExceptionType::Acknowledge;
    case 6: return ExceptionType::ServerDeviceBusy;
    case 8: return ExceptionType::MemoryParityError;
    case 10: return ExceptionType::GatewayPathUnavailable;
    case 11: return ExceptionType::GatewayTargetDeviceFailedToRespond;
    default: return ExceptionType::Unknown;
    }
}
template<class R> static Result convert(const Expected<R>& e)
{
    Result o;
    if(e.is_valid()) { o.kind = K_OK; vals_of(e.get(), o); return o; }
    if(e.template has_exception<ModbusException>())
    {
        auto x = e.template get_exception<ModbusException>();
        o.kind = K_EXC;
        o.exc = exc_code(x.get_exception_type());
    }
    else if(e.template has_exception<TimeoutException>()) o.kind = K_TIMEOUT;
    else if(e.template has_exception<ConnectionException>()) o.kind = K_CONN;
    else if(e.template has_exception<MalformedModbusResponseException>()) o.kind = K_MALFORMED;
    else if(e.template has_exception<MalformedModbusRequestException>()) o.kind = K_BADREQ;
    else o.kind = K_OTHER;
    return o;
}

// The callback handed to the library: a user object (token) travels with it.
struct Cb
{
    int rid;
    std::shared_ptr<int> tok;
    template<class R> void operator()(const Expected<R>& e) const
    {
        sim::Harness h;
        int id = rid;
        Result r = convert(e);
        harn::Guard g(id >= 0 ? harn::chan_key_req(id) : harn::chan_key_sched(-1 - id));
        if(id >= 0) { harn::on_result(id, r); harn::nested(id, 0); }
        else { harn::on_sched_result(-1 - id, r); harn::nested_sched(-1 - id); }
    }
};
struct TimerCb
{
    int t;
    std::shared_ptr<int> tok;
    void operator()() const
    {
        sim::Harness h;
        int id = t;
        harn::Guard g(harn::chan_key_timer(id));
        harn::on_timer(id);
        harn::nested_timer(id);
    }
};

template<class F> static void with_request(const ReqSpec& r, F&& f)
{
    std::vector<bool> bits;
    std::vector<uint16_t> regs;
    switch(r.type)
    {
    case harn::RC: { ReadCoilsRequest q; q.starting_address = r.addr; q.qty_of_bits = r.qty; f(q); break; }
    case harn::RDI: { ReadDiscreteInputsRequest q; q.starting_address = r.addr; q.qty_of_bits = r.qty; f(q); break; }
    case harn::RHR: { ReadHoldingRegistersRequest q; q.starting_address = r.addr; q.qty_of_registers = r.qty; f(q); break; }
    case harn::RIR: { ReadInputRegistersRequest q; q.starting_address = r.addr; q.qty_of_registers = r.qty; f(q); break; }
    case harn::WSC: { WriteSingleCoilRequest q; q.value = SingleBitValue{r.addr, r.vals[0] != 0}; f(q); break; }
    case harn::WSR: { WriteSingleRegisterRequest q; q.value = RegisterValue{r.addr, r.vals[0]}; f(q); break; }
    case harn::WMC: { WriteMultipleCoilsRequest q; q.starting_address = r.addr; for(u16 v : r.vals) q.values.push_back(v != 0); f(q); break; }
    default: { WriteMultipleRegistersRequest q; q.starting_address = r.addr; for(u16 v : r.vals) q.values.push_back(v); f(q); break; }
    }
}

bool request(int i, int rid, const ReqSpec& r, i64 timeout)
{
    auto p = hold(T_sess, i);
    if(!p) return false;
    auto tok = token("request-handler", g_mgr_of_sess[i]);
    sim::Sut s;
    with_request(r, [&](auto& q) {
        Cb cb{rid, std::move(tok)};
        if(timeout < 0) p.p->send_request(q, cb);
        else p.p->send_request(q, std::chrono::nanoseconds(timeout), cb);
    });
    return true;
}
template<class Q> struct CanSchedule : std::false_type {};
template<> struct CanSchedule<ReadCoilsRequest> : std::true_type {};
template<> struct CanSchedule<ReadDiscreteInputsRequest> : std::true_type {};
template<> struct CanSchedule<ReadHoldingRegistersRequest> : std::true_type {};
template<> struct CanSchedule<ReadInputRegistersRequest> : std::true_type {};
template<class Q> static std::shared_ptr<IScheduledRequest> do_sched(std::true_type, IClientSession& s, Q& q, i64 timeout, i64 freq, Cb cb)
{
    if(timeout < 0) return s.schedule_request(q, std::chrono::nanoseconds(freq), cb);
    return s.schedule_request(q, std::chrono::nanoseconds(timeout), std::chrono::nanoseconds(freq), cb);
}
template<class Q> static std::shared_ptr<IScheduledRequest> do_sched(std::false_type, IClientSession&, Q&, i64, i64, Cb) { return nullptr; }

bool schedule(int i, int q, const ReqSpec& r, i64 timeout, i64 freq)
{
    auto p = hold(T_sess, i);
    if(!p) return false;
    auto tok = token("schedule-handler", g_mgr_of_sess[i]);
    std::shared_ptr<IScheduledRequest> x;
    {
        sim::Sut s;
        with_request(r, [&](auto& req) {
            x = do_sched(CanSchedule<typename std::decay<decltype(req)>::type>{}, *p.p, req, timeout, freq, Cb{-1 - q, std::move(tok)});
        });
    }
    if(!x) return false;
    g_weak.push_back({"scheduled-request", x, g_mgr_of_sess[i]});
    T_sched.put(q, x);
    sim::Sut s; x.reset();
    return true;
}
void sched_start(int q) { auto p = hold(T_sched, q); if(p) { sim::Sut s; p.p->start(); } }
void sched_stop(int q) { auto p = hold(T_sched, q); if(p) { sim::Sut s; p.p->stop(); } }
void sched_set_freq(int q, i64 f) { auto p = hold(T_sched, q); if(p) { sim::Sut s; p.p->set_frequency(std::chrono::nanoseconds(f)); } }
bool sched_running(int q, bool& running, i64& freq)
{
    auto p = hold(T_sched, q);
    if(!p) return false;
    sim::Sut s;
    running = p.p->is_running();
    freq = std::chrono::duration_cast<std::chrono::nanoseconds>(p.p->get_frequency()).count();
    return true;
}
void sched_drop(int q) { drop(T_sched, q); }

bool timer_start(int i, int t, i64 dur, bool absolute, i64& expires, i64& asked)
{
    auto p = hold(T_sess, i);
    if(!p) return false;
    auto tok = token("timer-handler", g_mgr_of_sess[i]);
    std::shared_ptr<ITimer> x;
    {
        sim::Sut s;
        TimerCb cb{t, std::move(tok)};
        if(absolute)
        {
            auto tp = std::chrono::steady_clock::now() + std::chrono::nanoseconds(dur);
            x = p.p->start(tp, cb);
            asked = std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch()).count();
        }
        else x = p.p->start(std::chrono::nanoseconds(dur), cb);
        if(x) expires = std::chrono::duration_cast<std::chrono::nanoseconds>(x->expires_at().time_since_epoch()).count();
    }
    if(!x) return false;
    T_timer.put(t, x);
    sim::Sut s; x.reset();
    return true;
}
void timer_cancel(int t) { auto p = hold(T_timer, t); if(p) { sim::Sut s; p.p->cancel(); } }
i64 timer_expires(int t)
{
    auto p = hold(T_timer, t);
    if(!p) return -1;
    sim::Sut s;
    return std::chrono::duration_cast<std::chrono::nanoseconds>(p.p->expires_at().time_since_epoch()).count();
}
void timer_drop(int t) { drop(T_timer, t); }

// ------------------------------------------------------------------ servers --
bool server_create(int v, int m, const std::string& host, u16 port, unsigned maxc, int level)
{
    auto p = hold(T_mgr, m);
    if(!p) return false;
    std::shared_ptr<IServerChannel> x;
    {
        sim::Sut s;
        try
        {
            x = p.p->create_server_tcp_channel(std::string("server") + std::to_string(v), Ipv4Endpoint{std::string(host.c_str()), port}, maxc, lvl(level));
        }
        catch(const std::exception&) {}
    }
    if(!x) return false;
    g_weak.push_back({"server-channel", x, m});
    T_srv.put(v, x);
    sim::Sut s; x.reset();
    return true;
}
void server_start(int v) { auto p = hold(T_srv, v); if(p) { sim::Sut s; p.p->start(); } }
void server_shutdown(int v) { auto p = hold(T_srv, v); if(p) { sim::Sut s; p.p->shutdown(); } }
void server_drop(int v) { drop(T_srv, v); }
void server_add_db(int v, u8 unit, int d)
{
    auto p = hold(T_srv, v);
    auto b = hold(T_db, d);
    if(p && b) { sim::Sut s; p.p->add_session(UnitIdentifier{unit}, b.p); }
}
void server_add_custom(int v, u8 unit, int k)
{
    auto p = hold(T_srv, v);
    auto b = hold(T_custom, k);
    if(p && b) { sim::Sut s; p.p->add_session(UnitIdentifier{unit}, b.p); }
}
void db_create(int d)
{
    std::shared_ptr<InMemoryDatabase> x;
    { sim::Sut s; x = std::make_shared<InMemoryDatabase>(); }
    g_tokens.push_back({"database-session", x});
    T_db.put(d, x);
    sim::Sut s; x.reset();
}
bool db_add(int d, int table, u16 a, u16 v)
{
    auto p = hold(T_db, d);
    if(!p) return false;
    sim::Sut s;
    switch(table)
    {
    case 0: return p.p->add_coil(a, v != 0);
    case 1: return p.p->add_discrete_input(a, v != 0);
    case 2: return p.p->add_holding_register(a, v);
    default: return p.p->add_input_register(a, v);
    }
}
struct UserError {};
void db_txn(int d, std::vector<TxnStep>& steps, bool throws)
{
    auto p = hold(T_db, d);
    if(!p) return;
    auto tok = token("transaction", -1);
    sim::Sut s;
    auto run = [&] { p.p->execute_transaction([&steps, throws, tok = std::move(tok)](IDatabase& db) {
        size_t n;
        { sim::Harness h; n = steps.size(); }
        for(size_t i = 0; i < n; ++i)
        {
            TxnStep t;
            { sim::Harness h; t = steps[i]; }
            bool b = t.val != 0;
            if(t.write)
                t.ok = t.table == 0 ? db.set_coil(t.addr, b) : t.table == 1 ? db.set_discrete_input(t.addr, b) : t.table == 2 ? db.set_holding_register(t.addr, t.val) : db.set_input_register(t.addr, t.val);
            else
            {
                uint16_t v = 0xEEEE;
                bool x = false;
                t.ok = t.table == 0 ? db.get_coil(t.addr, x) : t.table == 1 ? db.get_discrete_input(t.addr, x) : t.table == 2 ? db.get_holding_register(t.addr, v) : db.get_input_register(t.addr, v);
                t.val = t.table < 2 ? (u16)x : v;
            }
            { sim::Harness h; steps[i] = t; }
        }
        if(throws) throw UserError{};
    }); };
    if(throws) { try { run(); } catch(const UserError&) {} }
    else run();
}
void db_drop(int d) { drop(T_db, d); }

// A user-written session.  It answers a subset of the request types itself and
// leaves the rest to the library's default implementation.
struct CustomSession : IServerSession
{
    int k;
    explicit CustomSession(int kk) : k(kk) {}
    void shutdown() override { sim::Harness h; harn::Guard g(harn::chan_key_custom(k)); harn::on_custom_shutdown(k); }

    template<class Resp, class Req> Expected<Resp> decide(const Req& q, const ReqSpec& spec, bool& base)
    {
        sim::Harness h;
        harn::Guard g(harn::chan_key_custom(k));
        harn::CustomOutcome o = harn::on_custom(k, spec);
        sim::Sut s;
        base = o.kind == 3;
        if(o.kind == 1) return Expected<Resp>::from_exception(ModbusException{exc_type(o.exc)});
        if(o.kind == 2) return Expected<Resp>::from_exception(TimeoutException{});
        Resp r{};
        if(o.kind == 0) fill(r, spec, o.vals);
        return Expected<Resp>{r};
    }
    template<class R> static void fill_bits(R& r, const ReqSpec& q, const std::vector<u16>& v) { for(size_t i = 0; i < v.size(); ++i) r.values.push_back(SingleBitValue{(Address)(q.addr + i), v[i] != 0}); }
    template<class R> static void fill_regs(R& r, const ReqSpec& q, const std::vector<u16>& v) { for(size_t i = 0; i < v.size(); ++i) r.values.push_back(RegisterValue{(Address)(q.addr + i), v[i]}); }
    static void fill(ReadCoilsResponse& r, const ReqSpec& q, const std::vector<u16>& v) { fill_bits(r, q, v); }
    static void fill(ReadDiscreteInputsResponse& r, const ReqSpec& q, const std::vector<u16>& v) { fill_bits(r, q, v); }
    static void fill(ReadHoldingRegistersResponse& r, const ReqSpec& q, const std::vector<u16>& v) { fill_regs(r, q, v); }
    static void fill(ReadInputRegistersResponse& r, const ReqSpec& q, const std::vector<u16>& v) { fill_regs(r, q, v); }
    static void fill(WriteSingleCoilResponse& r, const ReqSpec& q, const std::vector<u16>&) { r.value = SingleBitValue{q.addr, q.vals[0] != 0}; }
    static void fill(WriteSingleRegisterResponse& r, const ReqSpec& q, const std::vector<u16>&) { r.value = RegisterValue{q.addr, q.vals[0]}; }
    static void fill(WriteMultipleCoilsResponse& r, const ReqSpec& q, const std::vector<u16>&) { r.starting_address = q.addr; r.qty_of_coils = q.qty; }
    static void fill(WriteMultipleRegistersResponse& r, const ReqSpec& q, const std::vector<u16>&) { r.starting_address = q.addr; r.qty_of_registers = q.qty; }

    template<class Q> static ReqSpec spec_bits(int t, const Q& q) { ReqSpec r; r.type = t; r.addr = q.starting_address; r.qty = q.qty_of_bits; return r; }
    template<class Q> static ReqSpec spec_regs(int t, const Q& q) { ReqSpec r; r.type = t; r.addr = q.starting_address; r.qty = q.qty_of_registers; return r; }
#define HANDLE(REQ, RESP, SPEC) \
    Expected<RESP> on_request(const REQ& q) override \
    { \
        ReqSpec spec; \
        { sim::Harness h; spec = SPEC; } \
        bool base = false; \
        auto r = decide<RESP>(q, spec, base); \
        { sim::Harness h; spec = ReqSpec(); } \
        if(base) return IServerSession::on_request(q); \
        return r; \
    }
    HANDLE(ReadCoilsRequest, ReadCoilsResponse, spec_bits(harn::RC, q))
    HANDLE(ReadDiscreteInputsRequest, ReadDiscreteInputsResponse, spec_bits(harn::RDI, q))
    HANDLE(ReadHoldingRegistersRequest, ReadHoldingRegistersResponse, spec_regs(harn::RHR, q))
    HANDLE(ReadInputRegistersRequest, ReadInputRegistersResponse, spec_regs(harn::RIR, q))
    static ReqSpec sp(const WriteSingleCoilRequest& q) { ReqSpec r; r.type = harn::WSC; r.addr = q.value.address; r.vals = {(u16)q.value.value}; return r; }
    static ReqSpec sp(const WriteSingleRegisterRequest& q) { ReqSpec r; r.type = harn::WSR; r.addr = q.value.address; r.vals = {q.value.value}; return r; }
    static ReqSpec sp(const WriteMultipleCoilsRequest& q) { ReqSpec r; r.type = harn::WMC; r.addr = q.starting_address; r.qty = (u16)q.values.size(); for(bool b : q.values) r.vals.push_back(b); return r; }
    static ReqSpec sp(const WriteMultipleRegistersRequest& q) { ReqSpec r; r.type = harn::WMR; r.addr = q.starting_address; r.qty = (u16)q.values.size(); for(u16 b : q.values) r.vals.push_back(b); return r; }
    HANDLE(WriteSingleCoilRequest, WriteSingleCoilResponse, sp(q))
    HANDLE(WriteSingleRegisterRequest, WriteSingleRegisterResponse, sp(q))
    HANDLE(WriteMultipleCoilsRequest, WriteMultipleCoilsResponse, sp(q))
    HANDLE(WriteMultipleRegistersRequest, WriteMultipleRegistersResponse, sp(q))
};
void custom_create(int k)
{
    std::shared_ptr<IServerSession> x;
    { sim::Sut s; x = std::make_shared<CustomSession>(k); }
    g_tokens.push_back({"custom-session", x});
    T_custom.put(k, x);
    sim::Sut s; x.reset();
}
void custom_drop(int k) { drop(T_custom, k); }
} // namespace sut
