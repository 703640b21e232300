// The simulated world: devices, raw clients, operations and oracles.
#include "world.h"
#include "lin.h"
#include <algorithm>
#include <cstdio>
#include <cstring>

namespace harn
{
u64 g_sim_time = 0;
std::map<std::string, u64> g_stats;

const std::vector<CfgField>& cfg_fields()
{
    static const std::vector<CfgField> v = {
#define X(n, d) {#n, &Cfg::n, d},
        CFG_FIELDS(X)
#undef X
    };
    return v;
}
static const char* k_ops[N_OPS] = {"MK_MGR", "MK_DEV", "MK_DB", "MK_CUSTOM", "MK_SRV", "ADD_SESS", "START_SRV", "MK_CHAN", "MK_SESS",
    "REQ", "SCHED", "SCHED_CTL", "TIMER", "TIMER_CTL", "SESS_SHUT", "CHAN_SHUT", "SRV_SHUT", "MGR_SHUT", "DROP", "DB_ADD", "TXN",
    "DEV_CTL", "PARTITION", "RAW_OPEN", "RAW_SEND", "RAW_CTL", "RAW_WAIT", "SLEEP", "BARRIER", "WALL_CLOCK", "RAW_FLOOD"};
const char* op_name(int k) { return k_ops[k]; }
static const char* k_prof[N_PROFILES] = {"client", "clean", "hostile", "recovery", "sched", "timer", "shutdown", "threads", "isolation", "server", "framing", "sessions", "conns", "backpressure", "e2e", "lin", "wire"};
const char* profile_name(int p) { return k_prof[p]; }

// ------------------------------------------------------------------ state --
static Cfg C;
// what scheduling may add to any deadline: timer granularity, plus stalls that
// were already in progress when a measurement began
static u64 slack() { return 30 * MS + 4 * (u64)C.stall_us * US + 24 * MS; }
#define SLACK slack()
struct TxFrame
{
    Bytes adu;
    u64 t_sent = 0, t_delivered = 0, end_off = 0;
    u64 idx = 0;
};
struct Dev;
struct DevConn
{
    RawPtr raw;
    Dev* dev = nullptr;
    int chan = -1;
    Bytes in;
    u64 consumed = 0, t_wire = 0, step_wire = 0;   // bytes parsed; when the frame being parsed was written
    bool clean = true;             // the client can still parse our stream exactly
    bool dead = false;
    u64 t_fault = 0;               // FIN/RST by anyone
    std::vector<TxFrame> tx;
    size_t next_delivered = 0;
    int nreq = 0;
    Bytes held;                    // coalesced bytes waiting for the next reply
};
struct Dev
{
    int id = 0;
    u32 ip = 0;
    u16 port = 502;
    bool faulty = false, up = true, paused = false;
    u64 t_down = 0, stall_down = 0;
    u64 faults = 0;                // connection level faults
    std::vector<std::shared_ptr<DevConn>> conns;
};
struct Req
{
    int rid = 0, sess = -1, chan = -1, sched = -1;
    ReqSpec spec;
    u8 unit = 0;
    bool valid = true, issued = false;
    i64 timeout = 0;
    int flags = 0;
    u64 t_call = 0, t_ret = 0, seq_call = 0, seq_ret = 0, stall_call = 0;
    bool after_shut = false;
    int n_done = 0;
    u64 t_done = 0, seq_done = 0, step_done = 0;
    sut::Result res;
    int rx = 0;
    u64 t_rx = 0, seq_rx = 0;
    u16 txn = 0;
    DevConn* conn = nullptr;
    size_t tx_mark = 0;            // frames sent on conn before this request arrived
    bool answer_planned = false;   // the device decided to answer it promptly and correctly
    int lin_db = -1, lin_idx = -1;
    bool lin_own = false;
    bool custom_seen = false;
};
struct Chan
{
    int id = -1, mgr = 0, tkind = 0, tgt = 0, adapter = 0, hostmode = 0;
    std::string host;
    u16 port = 0;
    bool shut = false, strict = false, exists = false, dropped = false;
    u64 t_shut = 0, seq_shut = 0;  // seq_shut: the call of shutdown() has returned
    u32 ip = 0;
    std::vector<int> live;         // outstanding accepted requests
    u64 last_done = 0, last_done_stall = 0;
    u64 conn_err_t = 0, conn_err_faults = 0;
    int conn_errs = 0;
    std::map<u16, int> txns;
    std::vector<int> rx_order;     // rids in the order their frames reached the device
    u64 unissued = 0;
};
struct Sess { int chan = -1; u8 unit = 0; i64 timeout = 0; bool shut = false, dropped = false; };
struct FreqSet { u64 t_call, t_ret; i64 v; };
struct Sch
{
    int sess = -1, chan = -1;
    ReqSpec spec;
    u8 unit = 0;
    i64 timeout = 0;
    bool exists = false;
    std::vector<FreqSet> freqs;
    int credits = 1;
    std::vector<int> results_since_start;   // per credit
    u64 polls = 0, results = 0, starts = 0;
    std::vector<std::pair<u64, u64>> t_results;   // (when, step)
    bool late = false;             // the last outcome was a timeout of a poll that had not reached the device
    bool want_running = true;
    bool ambiguous = false;        // its session or channel was shut down
    bool racy = false, dropped = false;   // controlled by several threads / handle released
    int ctl_fiber = -2;
    u64 t_ctl = 0;
    int last_rid = -1, hflags = 0;
    u64 mark_polls = 0, mark_results = 0;
};
struct Tim
{
    bool exists = false, canceled = false, abs = false, dropped = false;
    int sess = -1, chan = -1, flags = 0;
    u64 t_call = 0, t_ret = 0, stall = 0;
    i64 dur = 0, expires = 0;
    u64 t_cancel = 0;
    int fired = 0;
    u64 t_fired = 0;
};
struct Reg { u64 t; u64 stall; bool setup; int kind; int idx; bool done; };
struct Srv
{
    int mgr = 0;
    u32 ip = 0;
    u16 port = 0;
    unsigned maxc = 16;
    bool exists = false, started = false, shut = false, dropped = false;
    u64 t_start = 0;
    std::map<int, std::vector<Reg>> regs;
    std::vector<int> accepted;     // connection ids in accept order
    std::vector<u64> accept_t;
};
struct Expect
{
    u16 txn = 0;
    u8 unit = 0;
    std::vector<Bytes> alts;       // possible reply PDUs; empty = no reply allowed
    bool maybe_silent = false, any = false;
    bool ok = false, custom = false;   // a well-formed request / one for a user session
    ReqSpec spec;
    int shared = 0;
    std::string what, props;
    int lin_db = -1, lin_idx = -1;
    u64 t = 0;
};
struct Raw
{
    RawPtr p;
    int v = -1;
    bool opened = false, loose = false, half = false, ended = false, paused = false, dead = false, mid = false;
    u16 txn = 0;
    std::deque<Expect> exp;
    Bytes in;
    struct CustomCall { int k; ReqSpec spec; bool optional; };
    std::deque<CustomCall> customs;   // calls of user sessions that are due, in order
    int accept_idx = -1;
    u64 t_ended = 0;               // by us
    u64 t_server_closed = 0;
    bool server_closed = false;
    u64 replies = 0;
};
struct DbS
{
    bool exists = false;
    ModelDb model;
    std::set<int> slices;
    std::map<int, ModelDb> lin_init;                // per slice: state before its first operation
    std::map<int, std::vector<LinOp>> lin;          // per slice history
};
struct Cust { bool exists = false; int regs = 0, shutdowns = 0; u64 calls = 0; };
struct Mgr { bool exists = false, shut = false, shut_returned = false, destroyed = false; int t_lo = 0, t_hi = 0; };

static std::map<int, Mgr> mgrs;
static std::map<int, std::shared_ptr<Dev>> devs;
static std::map<int, Chan> chans;
static std::map<int, Sess> sesss;
static std::vector<std::shared_ptr<Req>> reqs;
static std::map<int, Sch> schs;
static std::map<int, Tim> tims;
static std::map<int, Srv> srvs;
static std::map<int, Raw> raws;
static std::map<int, DbS> dbs;
static std::map<int, Cust> custs;
static std::map<std::tuple<int, int, int>, std::pair<int, int>> attrib;   // (unit, fc, addr) -> (0 rid | 1 sched, id)
static std::map<int, std::vector<int>> nested_tmp;
static bool in_setup = true, finals = false;
static bool callbacks_forbidden = false;
static u64 handler_sleep = 0;
static bool partition_used = false;
static int next_unique = 0;

static u64 stall_now() { return total_stall_ns() + handler_sleep; }
static void exec_op(const Op& o);
static std::map<int, std::vector<int>> g_inside;       // channel -> threads inside its handlers
Guard::Guard(int k) : key(k), t(now())
{
    if(key < 0) return;
    auto& v = g_inside[key];
    for(int f : v) if(f != current_fiber()) { violation("C13", "handlers-overlap", std::string("two handlers of one ") + (key < 2000 ? "client" : "server") + " channel run at the same time on different threads"); break; }
    v.push_back(current_fiber());
    if(C.nap_pm && chance(ST_FAULT, (u64)C.nap_pm, 1000)) { u64 d = (1 + choose(ST_FAULT, 6)) * 100 * US; handler_sleep += d; sleep_ns(d); }
}
Guard::~Guard()
{
    if(key < 0) return;
    auto& v = g_inside[key];
    for(size_t i = v.size(); i-- > 0;) if(v[i] == current_fiber()) { v.erase(v.begin() + i); break; }
}
int chan_key_req(int rid) { return 1000 + reqs[rid]->chan; }
int chan_key_sched(int q) { return 1000 + schs[q].chan; }
int chan_key_timer(int t) { return 1000 + tims[t].chan; }
int chan_key_custom(int k)
{
    int key = -1;
    for(auto& s : srvs)
        for(auto& u : s.second.regs)
            for(auto& r : u.second)
                if(r.kind == 1 && r.idx == k) { if(key >= 0 && key != 2000 + s.first) return -1; key = 2000 + s.first; }
    return key;
}
static std::string ms(u64 t) { char b[32]; snprintf(b, sizeof b, "%.3fms", (double)(i64)t / 1e6); return b; }
static std::string P(const char* s) { return C.profile == PF_ISOLATION ? std::string(s) + ",C17" : s; }
static void stat(const char* k, u64 n = 1) { g_stats[k] += n; }
static bool net_conn_faults_possible()
{
    return C.open_fail || C.bind_fail || C.dns_fail || C.dns_slow || C.accept_emfile || C.accept_abort || C.refuse || C.conn_timeout || C.unreach || C.rst || C.partition;
}
static u64 net_fault_count()
{
    u64 n = 0;
    for(int k : {F_SOCKET_EMFILE, F_ACCEPT_EMFILE, F_ACCEPT_ABORT, F_BIND_FAIL, F_DNS_FAIL, F_CONN_REFUSED, F_CONN_TIMEOUT, F_CONN_UNREACH, F_RST, F_PEER_CLOSE, F_PARTITION, F_READ_ERR, F_WRITE_ERR, F_OPEN_FAIL}) n += g_fault_counts[k];
    return n;
}
static u16 rnd16(u64 a, u64 b) { return (u16)(mix64(mix64(C.salt, a), b) >> 20); }

static ReqSpec make_spec(int type, u16 addr, i64 qty, u64 seed)
{
    ReqSpec r;
    r.type = (int)((u64)type % N_TYPES);
    r.addr = addr;
    r.qty = (u16)qty;
    if(r.type == WSC || r.type == WSR) r.qty = 1;
    if(!is_read(r.type))
        for(i64 i = 0; i < (r.type == WSC || r.type == WSR ? 1 : qty); ++i) { u16 v = rnd16(seed, i + 1); r.vals.push_back(is_bits(r.type) ? v & 1 : v); }
    return r;
}

// ------------------------------------------------------------------ servers model --
static const int SL = 160, SLN = 24;
static int slice_of(u16 addr) { return addr / SL; }
static u16 init_val(int db, int tab, u32 a) { u16 v = rnd16(1000 + db * 7 + tab, a); return tab < 2 ? v & 1 : v; }
static void add_key(int db, int tab, u32 a)
{
    if(a > 0xffff) return;
    u16 v = init_val(db, tab, a);
    bool fresh = !dbs[db].model.t[tab].count((u16)a);
    if(!fresh) return;
    dbs[db].model.t[tab][(u16)a] = v;
    bool ok = sut::db_add(db, tab, (u16)a, v);
    if(!ok) violation("C14", "add-refused", "adding an address that is not in the database was refused (table " + std::to_string(tab) + " address " + std::to_string(a) + ")");
}
static void ensure_slice(int db, int slice)
{
    if(!dbs.count(db) || !dbs[db].exists || !dbs[db].slices.insert(slice).second) return;
    for(int t = 0; t < 4; ++t)
    {
        // the slice that everybody shares holds longer ranges; each has a hole
        int n = slice ? SLN : 110, hole = slice ? 17 : t % 2 ? 50 : 100;
        for(int i = 0; i < (t % 2 ? n / 2 : n); ++i)
            if(i != hole) add_key(db, t, (u32)slice * SL + i);
    }
}
static CustomOutcome custom_plan(int k, const ReqSpec& r)
{
    u64 h = mix64(mix64(C.salt + 17 * k, r.type * 70000ull + r.addr), r.qty);
    for(u16 v : r.vals) h = mix64(h, v);
    CustomOutcome o;
    u64 x = h % 100;
    static const int codes[] = {1, 2, 3, 4, 5, 6, 8, 10, 11};
    if(x < 60) o.kind = 0;
    else if(x < 82) { o.kind = 1; o.exc = codes[(h >> 8) % 9]; }
    else if(x < 88) o.kind = 2;
    else o.kind = 3;
    if(o.kind == 0 && is_read(r.type))
        for(int i = 0; i < r.qty; ++i) { u16 v = (u16)(mix64(h, i) >> 13); o.vals.push_back(is_bits(r.type) ? v & 1 : v); }
    return o;
}
// reply of session (kind, idx) to a well-formed request; empty = silence.
// Applies the effect to the model.
static Bytes session_reply(int kind, int idx, const ReqSpec& r)
{
    if(kind == 0) return dbs[idx].model.apply(r);
    CustomOutcome o = custom_plan(idx, r);
    if(o.kind == 0) return encode_resp(r, o.vals);
    if(o.kind == 1) return exc_pdu(fc_of(r.type), o.exc);
    if(o.kind == 2) return {};
    return exc_pdu(fc_of(r.type), 1);
}
// sessions that may be registered for a unit right now; certain = exactly one answer
static std::vector<std::pair<int, int>> unit_candidates(Srv& s, int unit)
{
    std::vector<std::pair<int, int>> out;
    auto it = s.regs.find(unit);
    if(it == s.regs.end() || it->second.empty()) return {{-1, -1}};
    auto& v = it->second;
    int sure = -1;
    for(int i = 0; i < (int)v.size(); ++i)
        if(v[i].setup || (v[i].done && v[i].t + SLACK + 20 * MS + (stall_now() - v[i].stall) < now())) sure = i;
    if(sure < 0) out.push_back({-1, -1});
    for(int i = std::max(sure, 0); i < (int)v.size(); ++i) out.push_back({v[i].kind, v[i].idx});
    return out;
}
// no registration of that unit was under way since `t`
static bool unit_stable(Srv& s, int unit, u64 t)
{
    auto it = s.regs.find(unit);
    if(it == s.regs.end()) return true;
    for(auto& r : it->second) if(!r.setup && (!r.done || r.t + SLACK + 20 * MS + (stall_now() - r.stall) >= t)) return false;
    return true;
}
static u64 g_order = 0;        // order of harness observations (finer than time)
static u64 tick() { return ++g_order; }

// -------------------------------------------------------------- devices -----
static void dev_respond(DevConn* c, Req& q, u16 txn, const ReqSpec& spec);
static void dev_send(DevConn* c, const Bytes& adu)
{
    if(c->dead || c->raw->closed) return;
    Bytes b = adu;
    if(!c->held.empty()) { b = c->held; b.insert(b.end(), adu.begin(), adu.end()); }
    TxFrame f;
    f.adu = adu;
    f.t_sent = now();
    f.idx = c->tx.size();
    c->held.clear();
    c->raw->send(b);
    f.end_off = c->raw->sent_total;
    c->tx.push_back(f);
}
static void dev_close(DevConn* c, bool rst)
{
    if(c->dead) return;
    c->dead = true;
    c->t_fault = now();
    c->dev->faults++;
    count_fault(rst ? F_RST : F_PEER_CLOSE);
    if(rst) c->raw->reset(); else c->raw->close();
}
static Chan* chan_of(int c) { auto it = chans.find(c); return it == chans.end() ? nullptr : &it->second; }

static std::shared_ptr<Req> new_req()
{
    auto q = std::make_shared<Req>();
    q->rid = (int)reqs.size();
    reqs.push_back(q);
    return q;
}
static i64 sched_min_freq(Sch& s, u64 at)
{
    i64 m = -1;
    for(size_t i = 0; i < s.freqs.size(); ++i)
    {
        bool superseded = false;
        for(size_t j = i + 1; j < s.freqs.size(); ++j)
            if(s.freqs[j].t_ret && s.freqs[j].t_ret + SLACK + 20 * MS + stall_now() < at) superseded = true;
        if(!superseded && (m < 0 || s.freqs[i].v < m)) m = s.freqs[i].v;
    }
    return m < 0 ? 0 : m;
}

static void dev_frame(DevConn* c, const Bytes& f)
{
    u16 txn = g16(f, 0);
    u8 unit = f[6];
    Bytes pdu(f.begin() + 7, f.end());
    ++c->nreq;
    ReqSpec spec;
    int exc = 0;
    PduClass pc = parse_req(pdu, spec, exc);
    if(pc != P_OK)
    {
        violation("C18", "bad-frame-on-wire", "the client sent a frame that is not a valid request: " + hex(f));
        return;
    }
    auto it = attrib.find(std::make_tuple((int)unit, (int)pdu[0], (int)spec.addr));
    if(it == attrib.end())
    {
        violation("C18,C03", "unknown-frame", "the client sent a request nobody issued: unit " + std::to_string(unit) + " " + spec_str(spec));
        return;
    }
    Req* q;
    Sch* s = nullptr;
    if(it->second.first == 0) q = reqs[it->second.second].get();
    else
    {
        s = &schs[it->second.second];
        auto n = new_req();
        n->sess = s->sess;
        n->chan = s->chan;
        n->sched = it->second.second;
        n->spec = s->spec;
        n->unit = s->unit;
        n->timeout = s->timeout;
        n->issued = true;
        n->t_call = n->t_ret = now();
        q = n.get();
    }
    Chan& ch = chans[q->chan];
    stat("frames_checked");
    if(c->chan < 0) c->chan = q->chan;
    else if(c->chan != q->chan) violation("C17,C18", "wrong-connection", "a request of channel " + std::to_string(q->chan) + " arrived on the connection of channel " + std::to_string(c->chan));
    if(ch.tkind == 0 && ch.tgt != c->dev->id) violation("C17,C18", "wrong-device", "a request arrived at a device it was not addressed to");
    if(!s && ch.seq_shut && q->seq_call > ch.seq_shut) violation("C12", "sent-after-shutdown", "request " + spec_str(q->spec) + " was issued after the shutdown of its channel, but sent");
    if(!q->valid) violation("C18", "invalid-sent", "an invalid request reached the wire: " + spec_str(q->spec));
    Bytes want = encode_req(q->spec);
    if(pdu != want || !(spec == q->spec)) violation("C18", "wrong-bytes", "request " + spec_str(q->spec) + " was encoded as " + hex(pdu) + ", expected " + hex(want));
    // adapter
    u32 want_ip = ch.adapter == 1 ? ip4(10, 0, 0, 2) : ip4(10, 0, 0, 1);
    if(ch.adapter == 2 || ch.adapter == 3) violation("C16", "sent-without-adapter", "a channel whose adapter address is unusable sent a request from " + ip_str(c->raw->remote_ip));
    else
    {
        stat("adapter_checked");
        if(c->raw->remote_ip != want_ip) violation("C16", "wrong-adapter", "the connection came from " + ip_str(c->raw->remote_ip) + " instead of " + ip_str(want_ip));
    }
    // transaction ids of a channel are not reused while answers may be around
    if(!s)
    {
        if(++q->rx > 1) violation("C03", "sent-twice", "request " + spec_str(q->spec) + " was sent " + std::to_string(q->rx) + " times");
    }
    else { q->rx = 1; q->rid = (int)reqs.size() - 1; }
    if(ch.txns.count(txn) && ch.txns[txn] != q->rid) violation("C02,C03,C18", "transaction-reused", "transaction id " + std::to_string(txn) + " was used for two requests of one channel");
    ch.txns[txn] = q->rid;
    q->t_rx = now();
    q->seq_rx = tick();
    q->txn = txn;
    // the request is over, another one is outstanding, and now it is put on the wire
    if(!s && q->n_done && q->step_done && q->step_done < c->step_wire)
    {
        stat("late_frames");
        for(int orid : ch.live)
        {
            Req& o = *reqs[orid];
            if(o.rid == q->rid || o.n_done || !o.seq_ret) continue;
            if(o.t_ret + SLACK + 20 * MS + (stall_now() - o.stall_call) < c->t_wire)
                violation("C03", "stale-on-wire", "request " + spec_str(q->spec) + ", which had ended, was put on the wire while " + spec_str(o.spec) + " was outstanding");
        }
    }
    q->conn = c;
    q->tx_mark = c->tx.size();
    // order and one-outstanding, against the earlier frames of this channel
    for(int orid : ch.rx_order)
    {
        Req& o = *reqs[orid];
        if(o.rid == q->rid) continue;
        if(!o.n_done && !o.after_shut && o.sched < 0)
            violation("C03", "pipelined", "request " + spec_str(q->spec) + " was sent while " + spec_str(o.spec) + " was still outstanding");
        if(o.sched < 0 && q->sched < 0 && o.conn == c && q->seq_ret && q->seq_ret < o.seq_call)
            violation("C03", "reordered", "request " + spec_str(q->spec) + " was issued before " + spec_str(o.spec) + " but sent after it");
    }
    stat("order_checked", ch.rx_order.size());
    ch.rx_order.push_back(q->rid);
    if(s)
    {
        ++s->polls;
        // its timeout was reported while the connection was still being made
        auto late_poll = [&] { q->n_done = 1; q->t_done = now(); q->seq_done = tick(); q->res.kind = sut::K_TIMEOUT; stat("late_polls"); };
        if(s->last_rid >= 0)
        {
            // previous poll of this schedule that reached the device
            stat("poll_gaps_checked");
            u64 last = 0;               // the outcome before this poll was sent: there the wait began
            for(auto& r : s->t_results) if(r.second <= c->step_wire) last = r.first;
            i64 fm = sched_min_freq(*s, last);
            if(last && c->t_wire < last + (u64)fm)
            {
                if(s->late) late_poll();
                else if(s->credits > 0) { --s->credits; if(!s->results_since_start.empty()) s->results_since_start.erase(s->results_since_start.begin()); }
                else violation("C11", "poll-too-early", "a poll was sent " + ms(c->t_wire - last) + " after the last outcome although the period is " + ms(fm));
            }
        }
        else if(s->late) late_poll();
        else if(s->credits > 0) { --s->credits; if(!s->results_since_start.empty()) s->results_since_start.erase(s->results_since_start.begin()); }
        s->late = false;
        s->last_rid = q->rid;
        if(s->polls > s->results + 1 + s->starts + 1 ) violation("C11", "too-many-polls", std::to_string(s->polls) + " polls were sent for " + std::to_string(s->results) + " outcomes");
    }
    dev_respond(c, *q, txn, spec);
}

static void dev_data(DevConn* c, const Bytes& b)
{
    if(c->dead) return;
    c->in.insert(c->in.end(), b.begin(), b.end());
    for(;;)
    {
        if(c->in.size() < 7) return;
        u16 proto = g16(c->in, 2), len = g16(c->in, 4);
        if(proto != 0 || len < 2 || len > 254)
        {
            violation("C18,C10", "stream-corrupt", "the client's byte stream is not a sequence of frames: " + hex(c->in));
            c->in.clear();
            dev_close(c, true);
            return;
        }
        if(c->in.size() < (size_t)len + 6) return;
        Bytes f(c->in.begin(), c->in.begin() + len + 6);
        c->in.erase(c->in.begin(), c->in.begin() + len + 6);
        c->raw->peer_write_time(c->consumed, c->t_wire, c->step_wire);
        c->consumed += len + 6;
        dev_frame(c, f);
        if(c->dead) return;
    }
}

static Bytes mutate_resp(const ReqSpec& r, const Bytes& good)
{
    Bytes b = good;
    switch(choose(ST_FAULT, 13))
    {
    case 0: b[0] ^= 1 + (u8)choose(ST_FAULT, 15); break;                        // another function code
    case 1: if(b.size() > 2) b[1] += 1 + (u8)choose(ST_FAULT, 3); break;         // byte count / address
    case 2: b.pop_back(); break;
    case 3: b.push_back(0x5a); break;
    case 4: b = Bytes{(u8)(fc_of(r.type) | 0x80)}; break;                         // exception without code
    case 5: b = Bytes{(u8)(fc_of(r.type) | 0x80), 2, 0}; break;
    case 6: b = Bytes{fc_of(r.type)}; break;
    case 10: { static const u8 fcs[] = {1, 2, 3, 4, 5, 6, 15, 16, 0, 7, 23, 43, 0x7f}; u8 f = fcs[choose(ST_FAULT, 13)]; if(f == fc_of(r.type)) f ^= 0x40; b = Bytes{(u8)(f | 0x80), (u8)(1 + choose(ST_FAULT, 11))}; break; }   // the exception of another function
    case 11: { static const u8 fcs[] = {1, 2, 3, 4, 5, 6, 15, 16}; u8 f = fcs[choose(ST_FAULT, 8)]; if(f == b[0]) f = (u8)(b[0] ^ 0x40); b[0] = f; break; }                                                                  // the answer of another function
    case 12: b = Bytes{(u8)(fc_of(r.type) | 0x80), (u8)choose(ST_FAULT, 256)}; break;                                                                                                    // any exception code
    case 7: if(is_read(r.type) && b.size() > 4) { b[1] -= 2; } else b[b.size() - 1] ^= 0x5a; break;
    case 8: { size_t k = choose(ST_FAULT, b.size()); b[k] ^= (u8)(1 << choose(ST_FAULT, 8)); break; }
    default: { size_t n = 1 + choose(ST_FAULT, 250); b.clear(); for(size_t i = 0; i < n; ++i) b.push_back((u8)choose(ST_FAULT, 256)); b[0] = choose(ST_FAULT, 2) ? fc_of(r.type) : b[0]; break; }
    }
    if(b.empty()) b.push_back(0);
    return b;
}

static std::shared_ptr<DevConn> conn_ptr(DevConn* c)
{
    for(auto& p : c->dev->conns) if(p.get() == c) return p;
    return nullptr;
}
static void dev_send_later(DevConn* c, u64 d, Bytes adu)
{
    auto p = conn_ptr(c);
    after(d, [p, adu] { if(!p->dead) dev_send(p.get(), adu); });
}

static void dev_respond(DevConn* c, Req& q, u16 txn, const ReqSpec& r)
{
    std::vector<u16> vals;
    if(is_read(r.type)) for(int i = 0; i < r.qty; ++i) { u16 v = rnd16(txn + 77777, r.addr * 4096ull + i); vals.push_back(is_bits(r.type) ? v & 1 : v); }
    Bytes good = encode_resp(r, vals.empty() ? r.vals : vals);
    u8 unit = q.unit;
    u64 d = C.dev_delay_us ? (u64)(rnd16(txn, 5) % (C.dev_delay_us + 1)) * US : 0;
    Dev& dev = *c->dev;
    auto exc = [&] { static const int codes[] = {1, 2, 3, 4, 5, 6, 8, 10, 11, 0, 7, 9, 12, 0x55, 0xff}; return exc_pdu(fc_of(r.type), codes[choose(ST_FAULT, 15)]); };
    if(!dev.faulty)
    {
        u64 v = C.w_exc ? choose(ST_FAULT, 1000) : 0;
        Bytes pdu = v && v <= (u64)C.w_exc ? exc() : good;
        q.answer_planned = true;
        dev_send_later(c, d, mbap(txn, unit, pdu));
        return;
    }
    u64 v = choose(ST_FAULT, 1000);
    i64 acc = 0;
    auto hit = [&](i64 w) { if(v == 0) return false; i64 lo = acc; acc += w; return (i64)v - 1 >= lo && (i64)v - 1 < acc; };
    if(hit(C.w_exc)) { q.answer_planned = true; dev_send_later(c, d, mbap(txn, unit, exc())); return; }
    if(hit(C.w_none)) { count_fault(F_NO_RESPONSE); return; }
    if(hit(C.w_late))
    {
        count_fault(F_LATE_RESPONSE);
        u64 late = (u64)q.timeout + choose(ST_FAULT, 40) * MS;
        dev_send_later(c, late, mbap(txn, unit, good));
        return;
    }
    if(hit(C.w_dup)) { count_fault(F_DUP_RESPONSE); q.answer_planned = true; dev_send_later(c, d, mbap(txn, unit, good)); dev_send_later(c, d + choose(ST_FAULT, 30) * MS, mbap(txn, unit, good)); return; }
    if(hit(C.w_wtxn))
    {
        count_fault(F_WRONG_ID);
        u16 w;
        switch(choose(ST_FAULT, 5))
        {
        case 0: w = (u16)(txn - 1 - choose(ST_FAULT, 3)); break;
        case 1: w = (u16)(txn ^ (1u << choose(ST_FAULT, 16))); break;
        case 2: w = (u16)(txn ^ ((1 + choose(ST_FAULT, 255)) << 8)); break;
        case 3: w = (u16)(txn + 1 + choose(ST_FAULT, 2)); break;
        default: w = (u16)(txn ^ (1 + choose(ST_FAULT, 0xffff))); break;
        }
        Bytes other = encode_resp(r, is_read(r.type) ? std::vector<u16>(r.qty, 1) : r.vals);
        dev_send_later(c, d, mbap(w, unit, other));
        if(choose(ST_FAULT, 2) == 0) { q.answer_planned = true; dev_send_later(c, d + 2 * MS, mbap(txn, unit, good)); }
        return;
    }
    if(hit(C.w_wunit))
    {
        count_fault(F_WRONG_ID);
        Bytes other = encode_resp(r, is_read(r.type) ? std::vector<u16>(r.qty, 1) : r.vals);
        u8 wu = (u8)(choose(ST_FAULT, 2) ? unit ^ (1u << choose(ST_FAULT, 8)) : unit + 1 + choose(ST_FAULT, 254));
        switch(choose(ST_FAULT, 6))
        {
        case 0: if(unit) wu = 0; break;                       // a broadcast
        case 1: if(unit != 255) wu = 255; break;              // "the device itself"
        case 2: wu = (u8)(unit + (choose(ST_FAULT, 2) ? 1 : 255)); break;
        default: break;
        }
        dev_send_later(c, d, mbap(txn, wu, other));
        if(choose(ST_FAULT, 2) == 0) { q.answer_planned = true; dev_send_later(c, d + 2 * MS, mbap(txn, unit, good)); }
        return;
    }
    if(hit(C.w_malf)) { count_fault(F_BAD_FRAME); q.answer_planned = true; dev_send_later(c, d, mbap(txn, unit, mutate_resp(r, good))); return; }
    if(hit(C.w_proto))
    {
        count_fault(F_BAD_FRAME);
        Bytes other = encode_resp(r, is_read(r.type) ? std::vector<u16>(r.qty, 1) : r.vals);
        dev_send_later(c, d, mbap(txn, unit, other, choose(ST_FAULT, 3) ? (u16)(1u << choose(ST_FAULT, 16)) : (u16)(1 + choose(ST_FAULT, 0xfffe))));
        if(choose(ST_FAULT, 2) == 0) { q.answer_planned = true; dev_send_later(c, d + 1 * MS, mbap(txn, unit, good)); }
        return;
    }
    if(hit(C.w_unsol))
    {
        count_fault(F_UNSOLICITED);
        if(choose(ST_FAULT, 3) == 0 && q.timeout < (i64)(5 * SEC) && q.timeout >= (i64)(6 * MS))
        {
            // it talks on and on, but never answers
            u64 gap = (u64)q.timeout / 3;
            for(int k = 1; k <= 8; ++k) dev_send_later(c, k * gap, mbap((u16)(txn + 100 + k), unit, good));
            return;
        }
        q.answer_planned = true;
        dev_send_later(c, d, mbap((u16)(txn - 1), unit, good));
        dev_send_later(c, d + 500 * US, mbap(txn, unit, good));
        dev_send_later(c, d + 500 * US + choose(ST_FAULT, 30) * MS, mbap((u16)(txn + 7 + choose(ST_FAULT, 1000)), unit, good));
        return;
    }
    if(hit(C.w_partial))
    {
        count_fault(F_PARTIAL_FRAME);
        Bytes f = mbap(txn, unit, good);
        size_t k = 1 + choose(ST_FAULT, f.size() - 1);
        Bytes head(f.begin(), f.begin() + k);
        auto p = conn_ptr(c);
        u64 mode = choose(ST_FAULT, 3);
        u64 wait = choose(ST_FAULT, 40) * MS;
        after(d, [p, head] { if(!p->dead) p->raw->send(head); });
        if(mode == 2)
        {
            // the rest follows later: nothing else may be sent in between
            p->clean = false;
            Bytes tail(f.begin() + k, f.end());
            after(d + wait, [p, tail] { if(!p->dead) p->raw->send(tail); });
        }
        else { p->clean = false; after(d + wait, [p, mode] { dev_close(p.get(), mode == 1); }); }
        return;
    }
    if(hit(C.w_close)) { auto p = conn_ptr(c); after(d, [p] { dev_close(p.get(), false); }); return; }
    if(hit(C.w_rst)) { auto p = conn_ptr(c); after(d, [p] { dev_close(p.get(), true); }); return; }
    if(hit(C.w_closeafter))
    {
        auto p = conn_ptr(c);
        Bytes f = mbap(txn, unit, good);
        u64 w = choose(ST_FAULT, 5) * 200 * US;
        after(d, [p, f] { if(!p->dead) dev_send(p.get(), f); });
        after(d + w, [p] { dev_close(p.get(), false); });
        return;
    }
    if(hit(C.w_slow)) { count_fault(F_SLOW_READER); dev_send_later(c, d + (u64)C.slow_us * US, mbap(txn, unit, good)); return; }
    if(hit(C.w_coal))
    {
        // several frames in one segment: stale, ours, duplicate
        count_fault(F_COALESCE);
        q.answer_planned = true;
        auto p = conn_ptr(c);
        Bytes a = mbap((u16)(txn - 1), unit, good), b = mbap(txn, unit, good);
        u64 three = choose(ST_FAULT, 2);
        after(d, [p, a, b, three] { if(p->dead) return; dev_send(p.get(), a); dev_send(p.get(), b); if(three) dev_send(p.get(), b); });
        return;
    }
    if(hit(C.w_garbage))
    {
        count_fault(F_BAD_FRAME);
        auto p = conn_ptr(c);
        p->clean = false;
        Bytes g;
        size_t n = 1 + choose(ST_FAULT, 600);
        for(size_t i = 0; i < n; ++i) g.push_back((u8)choose(ST_FAULT, 256));
        after(d, [p, g] { if(!p->dead) p->raw->send(g); });
        return;
    }
    if(hit(C.w_len01))
    {
        count_fault(F_BAD_FRAME);
        auto p = conn_ptr(c);
        p->clean = false;
        Bytes g;
        p16(g, txn); p16(g, 0);
        u64 k = choose(ST_FAULT, 4);
        p16(g, k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 255 + choose(ST_FAULT, 300) : 0xffff);
        g.push_back(unit);
        if(k >= 2) { size_t n = k == 2 ? g16(g, 4) - 1 : 400; for(size_t i = 0; i < n; ++i) g.push_back((u8)i); }
        after(d, [p, g] { if(!p->dead) p->raw->send(g); });
        return;
    }
    q.answer_planned = true;
    dev_send_later(c, d, mbap(txn, unit, good));
}

static void dev_accept(std::shared_ptr<Dev> d, RawPtr raw)
{
    auto c = std::make_shared<DevConn>();
    c->raw = raw;
    c->dev = d.get();
    d->conns.push_back(c);
    std::weak_ptr<DevConn> w = c;
    raw->on_data = [w](RawConn&, const Bytes& b) { if(auto c = w.lock()) dev_data(c.get(), b); };
    raw->on_closed = [w](RawConn& r, bool rst) {
        if(auto c = w.lock()) { c->t_fault = now(); if(rst) { c->dead = true; c->dev->faults++; } else if(!r.closed) { c->dead = true; r.close(); } }
    };
    raw->on_delivered = [w](RawConn& r) {
        auto c = w.lock();
        if(!c) return;
        while(c->next_delivered < c->tx.size() && c->tx[c->next_delivered].end_off <= r.delivered_total) c->tx[c->next_delivered++].t_delivered = now();
    };
    if(d->paused) raw->pause();
}
// every address a name ever had
static std::map<std::string, std::set<u32>> names;
static void name_addr(const std::string& n, const std::vector<u32>& a) { add_dns(n, a); names[n].insert(a.begin(), a.end()); }
static void dev_names(int i, u32 ip)
{
    std::string s = std::to_string(i);
    name_addr("dev" + s, {ip});
    name_addr("slow" + s, {ip});
    name_addr("multi" + s, {ip4(192, 168, 9, 9), ip});
    name_addr("many" + s, {ip4(192, 168, 9, 9), ip4(192, 168, 9, 8), ip4(192, 168, 9, 7), ip, ip4(192, 168, 9, 6)});
    name_addr("mixed" + s, {ip4(192, 168, 8, 9), 1, ip4(192, 168, 9, 9), ip4(192, 168, 6, 9), ip, ip4(192, 168, 9, 6)});
}
static void dev_listen(std::shared_ptr<Dev> d) { raw_listen(d->ip, d->port, [d](RawPtr r) { dev_accept(d, r); }); }

// ------------------------------------------------------ client-side oracle --
static bool outcome_matches(const Req& q, const sut::Result& r, const Resp& e)
{
    if(e.kind == RS_OK) return r.kind == sut::K_OK && r.vals == e.vals;
    if(e.kind == RS_EXC) return r.kind == sut::K_EXC && r.exc == e.exc;
    return r.kind == sut::K_MALFORMED;
}
static std::string res_str(const sut::Result& r)
{
    std::string s = sut::kind_name(r.kind);
    if(r.kind == sut::K_EXC) s += " " + std::to_string(r.exc);
    if(r.kind == sut::K_OK)
    {
        s += "{";
        for(size_t i = 0; i < r.vals.size() && i < 5; ++i) s += (i ? " " : "") + std::to_string(r.vals[i].first) + ":" + std::to_string(r.vals[i].second);
        s += "}x" + std::to_string(r.vals.size());
    }
    return s;
}
// a SUT server's reply, reconstructed from what the SUT client reported
static bool result_to_reply(const Req& q, const sut::Result& r, Bytes& out, std::string& why)
{
    if(r.kind == sut::K_EXC) { out = exc_pdu(fc_of(q.spec.type), r.exc); return true; }
    std::vector<u16> v;
    if(is_read(q.spec.type))
    {
        if(r.vals.size() != q.spec.qty) { why = "wrong number of values"; return false; }
        for(size_t i = 0; i < r.vals.size(); ++i)
        {
            if(r.vals[i].first != (u16)(q.spec.addr + i)) { why = "wrong addresses"; return false; }
            v.push_back(r.vals[i].second);
        }
    }
    else
    {
        u16 want = q.spec.type == WSC || q.spec.type == WSR ? q.spec.vals[0] : q.spec.qty;
        if(r.vals.size() != 1 || r.vals[0].first != q.spec.addr || r.vals[0].second != want) { why = "write echo differs from the request"; return false; }
        v = q.spec.vals;
    }
    out = encode_resp(q.spec, v);
    return true;
}
static bool dev_frames_for(const Req& q, u64 t, std::vector<const TxFrame*>& fr)
{
    // Frames that could have completed q: same transaction, unit and protocol;
    // at most one of them was sent after q's own frame arrived.
    bool clean = true;
    Chan& ch = chans[q.chan];
    auto di = devs.find(ch.tgt);
    if(di == devs.end()) return true;
    for(auto& c : di->second->conns)
    {
        if(c->chan != q.chan) continue;
        if(!c->clean) clean = false;
        bool post = false;
        for(auto& f : c->tx)
        {
            if(f.adu.size() < 8 || g16(f.adu, 2) != 0 || g16(f.adu, 0) != q.txn || f.adu[6] != q.unit) continue;
            if(!f.t_delivered && c->raw->delivered_total < f.end_off) { bool whole = false; if(!whole) continue; }
            if(q.conn == c.get() && f.idx >= q.tx_mark) { if(post) continue; post = true; }
            fr.push_back(&f);
        }
    }
    return clean;
}

static bool guess_fits(const Req& q, const sut::Result& r)
{
    // Only a frame that bears the number of no request received so far can answer a
    // request that the device has not received: a device that answers with a wrong
    // number may have guessed that of a request that is still on its way.
    auto di = devs.find(chans[q.chan].tgt);
    if(di == devs.end()) return false;
    for(auto& c : di->second->conns)
    {
        if(c->chan != q.chan) continue;
        if(!c->clean) return true;
        for(auto& f : c->tx)
        {
            if(f.adu.size() < 8 || g16(f.adu, 2) != 0 || f.adu[6] != q.unit) continue;
            if(!f.t_delivered && c->raw->delivered_total < f.end_off) continue;
            bool known = false;
            for(auto& x : reqs) if(x->chan == q.chan && x->rx && x->txn == g16(f.adu, 0)) known = true;
            if(!known && outcome_matches(q, r, classify_resp(q.spec, Bytes(f.adu.begin() + 7, f.adu.end())))) return true;
        }
    }
    return false;
}

static void sched_result(int qi, const sut::Result& r);

static bool chan_server_quiet(Chan& ch)     // nothing but the library decides the outcome
{
    auto it = srvs.find(ch.tgt);
    if(it == srvs.end()) return false;
    Srv& s = it->second;
    if(s.shut || !s.started || mgrs[s.mgr].shut) return false;
    size_t peers = 0;
    for(auto& c : chans) if(c.second.tkind == 1 && c.second.tgt == ch.tgt) ++peers;
    for(auto& r : raws) if(r.second.v == ch.tgt) ++peers;
    return peers <= s.maxc;
}

static void conn_error_legit(Chan& ch, const char* what)
{
    u64 f = net_fault_count();
    bool ok = false;
    if(ch.tkind == 0) { auto d = devs.find(ch.tgt); if(d != devs.end()) f += d->second->faults; if(net_conn_faults_possible()) {} }
    else if(ch.tkind == 1) { if(!chan_server_quiet(ch)) ok = true; }
    else ok = true;
    if(ch.adapter == 2 || ch.adapter == 3) ok = true;
    if(f != ch.conn_err_faults || ok) { ch.conn_err_faults = f; ch.conn_err_t = now(); return; }
    if(ch.conn_err_t && now() <= ch.conn_err_t + 1 * SEC + stall_now()) return;
    violation(P("C08,C05"), "spurious-connection-error", std::string("a connection error was reported although no connection, resolution or transfer failed") + what);
}

// the request could not but fail with a connection error, and soon
static bool refused_throughout(Chan& ch, const Req& q, u64 T, u64 stall)
{
    if(q.timeout < (i64)(200 * MS) || stall - q.stall_call > 50 * MS || partition_used || finals) return false;
    if(C.dns_slow || C.conn_timeout || C.unreach || C.partition || C.rst) return false;
    for(auto& c : chans) if(c.second.hostmode == 4) return false;
    (void)T;
    if(ch.tkind == 2) return ch.hostmode == 3 || ch.hostmode == 6;
    if(ch.tkind != 0 || ch.hostmode > 1) return false;
    if(ch.adapter == 2 || ch.adapter == 3) return true;
    Dev& d = *devs[ch.tgt];
    if(d.up || !d.t_down || d.t_down + 100 * MS + (stall - d.stall_down) > q.t_call) return false;
    for(auto& c : d.conns) if((c->chan == ch.id || c->chan < 0) && (!c->dead || c->t_fault + 100 * MS > q.t_call)) return false;
    return true;
}

void on_result(int rid, const sut::Result& r)
{
    Req& q = *reqs[rid];
    Chan& ch = chans[q.chan];
    ++q.n_done;
    stat("outcomes");
    logf("result rid %d %s", rid, res_str(r).c_str());
    if(q.n_done > 1) { violation(P("C01"), "completed-twice", "request " + spec_str(q.spec) + " completed twice: " + res_str(q.res) + " then " + res_str(r)); return; }
    if(!fiber_is_sut(current_fiber())) violation("C13", "callback-on-user-thread", "a completion handler ran on the caller's thread");
    if(mgrs[ch.mgr].shut_returned || callbacks_forbidden) violation("C12", "callback-after-shutdown", "a completion handler ran after the manager was shut down");
    if(ch.seq_shut && q.seq_call > ch.seq_shut && q.valid) violation("C12", "completed-after-shutdown", "request " + spec_str(q.spec) + " was issued after the shutdown of its channel, but completed: " + res_str(r));
    u64 T = now();
    q.t_done = T;
    q.seq_done = tick();
    q.step_done = steps();
    q.res = r;
    state_hash(mix64((u64)r.kind * 31 + ch.live.size(), (u64)q.chan * 7 + (u64)ch.conn_errs));
    bool was_live = false;
    for(size_t i = 0; i < ch.live.size(); ++i) if(ch.live[i] == rid) { ch.live.erase(ch.live.begin() + i); was_live = true; break; }
    (void)was_live;
    if(!q.valid)
    {
        if(r.kind != sut::K_BADREQ) violation("C18,C08", "invalid-not-rejected", "an invalid request (" + spec_str(q.spec) + ") was answered with " + res_str(r));
        return;
    }
    if(r.kind == sut::K_BADREQ) { violation("C18,C08", "valid-rejected", "the valid request " + spec_str(q.spec) + " was rejected as invalid"); return; }
    if(r.kind == sut::K_OTHER) { violation("C08", "unknown-outcome", "the outcome of " + spec_str(q.spec) + " is none of the documented kinds"); return; }

    // ---- timing -------------------------------------------------------------
    u64 stall = stall_now();
    {
        u64 base = q.t_ret ? q.t_ret : q.t_call, sb = q.stall_call;
        i64 mx = q.timeout;
        for(int o : ch.live)
        {
            Req& x = *reqs[o];
            mx = std::max(mx, x.timeout);
            u64 b = x.t_ret ? x.t_ret : x.t_call;
            if(b < base) { base = b; sb = x.stall_call; }
        }
        for(auto& x : schs) if(x.second.chan == q.chan) mx = std::max(mx, x.second.timeout);
        if(ch.last_done > base) { base = ch.last_done; sb = ch.last_done_stall; }
        stat("latency_checked");
        if(T > base + (u64)mx + SLACK + (stall - sb))
            violation(P("C04"), "late-outcome", "no outcome for " + ms(T - base) + " although the longest timeout of the outstanding requests is " + ms(mx));
    }
    if(r.kind == sut::K_TIMEOUT)
    {
        stat("timeouts_checked");
        if(T < q.t_call + (u64)q.timeout) violation(P("C04"), "early-timeout", "request " + spec_str(q.spec) + " timed out " + ms(T - q.t_call) + " after it was issued; its timeout is " + ms(q.timeout));
        else if(ch.last_done && T < ch.last_done + (u64)q.timeout)
            violation(P("C04"), "early-timeout", "request " + spec_str(q.spec) + " timed out only " + ms(T - ch.last_done) + " after the previous request of its channel completed; its timeout is " + ms(q.timeout));
    }
    ch.last_done = T;
    ch.last_done_stall = stall;
    // order: requests issued strictly earlier have completed (connection errors flush the queue)
    if(r.kind != sut::K_CONN)
        for(int o : ch.live)
        {
            Req& x = *reqs[o];
            if(x.seq_ret && x.seq_ret < q.seq_call) { violation("C03", "completed-out-of-order", "request " + spec_str(q.spec) + " completed (" + res_str(r) + ") before the earlier request " + spec_str(x.spec)); break; }
        }

    if(r.kind == sut::K_CONN) { ++ch.conn_errs; conn_error_legit(ch, (" (request " + spec_str(q.spec) + ")").c_str()); }

    // ---- content ------------------------------------------------------------
    if(ch.tkind == 0)
    {
        std::vector<const TxFrame*> fr;
        bool clean = q.rx ? dev_frames_for(q, T, fr) : true;
        if(r.kind == sut::K_OK || r.kind == sut::K_EXC || r.kind == sut::K_MALFORMED)
        {
            stat("responses_checked");
            if(!q.rx)
            {
                if(!guess_fits(q, r)) violation(P("C02"), "outcome-without-request", "request " + spec_str(q.spec) + " reported " + res_str(r) + " although the device never received it");
            }
            else
            {
                bool ok = false;
                std::string seen;
                for(auto* f : fr)
                {
                    Resp e = classify_resp(q.spec, Bytes(f->adu.begin() + 7, f->adu.end()));
                    if(outcome_matches(q, r, e)) ok = true;
                    seen += " " + hex(f->adu);
                }
                if(!ok && clean) violation(P(r.kind == sut::K_EXC || r.kind == sut::K_MALFORMED ? "C02,C08" : "C02"), "wrong-outcome", "request " + spec_str(q.spec) + " (transaction " + std::to_string(q.txn) + ") reported " + res_str(r) + "; the matching frames the device sent:" + (seen.empty() ? " none" : seen));
                if(!ok && !clean && r.kind == sut::K_OK)
                {
                    bool shape = is_read(q.spec.type) ? r.vals.size() == q.spec.qty : r.vals.size() == 1;
                    if(is_read(q.spec.type)) for(size_t i = 0; i < r.vals.size(); ++i) if(r.vals[i].first != (u16)(q.spec.addr + i)) shape = false;
                    if(!shape) violation("C02,C19", "wrong-shape", "request " + spec_str(q.spec) + " reported " + res_str(r));
                }
            }
        }
        else
        {
            // a matching frame that reached the client in time must have been used
            if(r.kind == sut::K_TIMEOUT && q.rx && clean && q.conn && !q.conn->raw->peer_rst && C.rst == 0 && C.partition == 0)
            {
                for(auto* f : fr)
                    if(f->idx >= q.tx_mark && f->t_delivered && f->t_delivered >= q.t_rx && f->t_delivered + SLACK + (stall - q.stall_call) < T)
                    {
                        violation(P("C02"), "response-lost", "request " + spec_str(q.spec) + " timed out although its response " + hex(f->adu) + " arrived " + ms(T - f->t_delivered) + " earlier");
                        break;
                    }
            }
            if(r.kind == sut::K_TIMEOUT && q.rx && q.conn)
            {
                u64 tl = q.conn->raw->peer_lost();
                stat("losses_checked");
                if(tl && T > std::max(tl, q.t_call) + SLACK + (stall - q.stall_call))
                    violation(P("C08"), "loss-not-reported", "request " + spec_str(q.spec) + " timed out although its connection had been lost " + ms(T - tl) + " earlier");
            }
            if(r.kind == sut::K_TIMEOUT && !q.rx && refused_throughout(ch, q, T, stall))
                violation(P(ch.adapter == 2 || ch.adapter == 3 ? "C08,C16" : "C08"), "refusal-not-reported", "request " + spec_str(q.spec) + " ended in a timeout after " + ms(T - q.t_call) + " although no connection could be made all along");
            if(ch.strict && !ch.shut && !finals && q.timeout >= (i64)(500 * MS) && stall - q.stall_call < 200 * MS)
            {
                Dev& d = *devs[ch.tgt];
                if(!d.faulty && d.faults == 0)
                    violation(P("C02"), "failed-without-fault", "request " + spec_str(q.spec) + " reported " + res_str(r) + " although nothing failed");
            }
        }
    }
    else if(ch.tkind == 1)
    {
        Srv& s = srvs[ch.tgt];
        auto cand = unit_candidates(s, q.unit);
        if(!unit_stable(s, q.unit, q.t_call)) cand = {{-1, -1}, {-1, -1}};
        bool custom = cand.size() == 1 && cand[0].first == 1;
        bool none = cand.size() == 1 && cand[0].first == -1;
        if(r.kind == sut::K_MALFORMED) violation("C06,C08", "malformed-from-own-server", "the library's client calls the library's server's answer to " + spec_str(q.spec) + " malformed");
        else if(r.kind == sut::K_OK || r.kind == sut::K_EXC)
        {
            stat("e2e_checked");
            Bytes rep;
            std::string why;
            if(none) violation("C08,C20", "answer-from-unknown-unit", "unit " + std::to_string(q.unit) + " has no session but answered " + res_str(r));
            else if(!result_to_reply(q, r, rep, why)) violation("C06", "wrong-outcome-e2e", "request " + spec_str(q.spec) + " reported " + res_str(r) + ": " + why);
            else if(custom)
            {
                CustomOutcome o = custom_plan(cand[0].second, q.spec);
                Bytes want = o.kind == 0 ? encode_resp(q.spec, o.vals.empty() ? q.spec.vals : o.vals) : o.kind == 1 ? exc_pdu(fc_of(q.spec.type), o.exc) : o.kind == 3 ? exc_pdu(fc_of(q.spec.type), 1) : Bytes{};
                if(rep != want) violation("C08,C20,C06", "wrong-custom-answer", "request " + spec_str(q.spec) + " to a user session reported " + res_str(r) + "; the session's answer encodes as " + hex(want));
            }
            else if(q.lin_idx >= 0)
            {
                auto& o = dbs[q.lin_db].lin[slice_of(q.spec.addr)][q.lin_idx];
                o.res = q.seq_done;
                o.reply = rep;
            }
            else if(cand.size() == 1)
            {
                Bytes want = session_reply(cand[0].first, cand[0].second, q.spec);
                if(rep != want) violation("C06", "wrong-answer-e2e", "request " + spec_str(q.spec) + " reported " + res_str(r) + "; expected " + hex(want));
            }
        }
        else if(ch.strict && !finals && !ch.shut && chan_server_quiet(ch) && q.timeout >= (i64)(500 * MS) && stall - q.stall_call < 200 * MS)
        {
            bool silent = none || cand.size() != 1;
            if(custom && custom_plan(cand[0].second, q.spec).kind == 2) silent = true;
            if(q.t_call < s.t_start + 100 * MS) silent = true;
            if(!silent) violation("C06", "failed-without-fault-e2e", "request " + spec_str(q.spec) + " to the library's server reported " + res_str(r) + " although nothing failed");
        }
    }
    else if(r.kind == sut::K_TIMEOUT && refused_throughout(ch, q, T, stall))
        violation(P("C08"), "refusal-not-reported", "request " + spec_str(q.spec) + " to a name that does not exist ended in a timeout");
    else if(r.kind != sut::K_TIMEOUT && r.kind != sut::K_CONN)
        violation("C02", "outcome-from-nowhere", "request " + spec_str(q.spec) + " to an unreachable host reported " + res_str(r));
}

void on_sched_result(int qi, const sut::Result& r)
{
    Sch& s = schs[qi];
    Chan& ch = chans[s.chan];
    stat("outcomes");
    logf("sched %d result %s", qi, res_str(r).c_str());
    if(!fiber_is_sut(current_fiber())) violation("C13", "callback-on-user-thread", "a completion handler ran on the caller's thread");
    if(mgrs[ch.mgr].shut_returned || callbacks_forbidden) violation("C12", "callback-after-shutdown", "a polling handler ran after the manager was shut down");
    state_hash(mix64(900 + r.kind, s.credits));
    ++s.results;
    s.t_results.push_back({now(), steps()});
    // attribute to the oldest poll on the wire that has no outcome yet
    Req* q = nullptr;
    for(auto& x : reqs) if(x->sched == qi && !x->n_done) { q = x.get(); break; }
    s.late = !q && r.kind == sut::K_TIMEOUT;
    if(q && (r.kind == sut::K_OK || r.kind == sut::K_EXC || r.kind == sut::K_MALFORMED || r.kind == sut::K_TIMEOUT))
    {
        q->n_done = 1;
        q->t_done = now();
        q->seq_done = tick();
        q->res = r;
        if(r.kind != sut::K_TIMEOUT && ch.tkind == 0)
        {
            std::vector<const TxFrame*> fr;
            bool clean = dev_frames_for(*q, now(), fr), ok = false;
            stat("responses_checked");
            for(auto* f : fr) if(outcome_matches(*q, r, classify_resp(q->spec, Bytes(f->adu.begin() + 7, f->adu.end())))) ok = true;
            // a poll whose frame never arrived may have timed out before; try the other open ones
            if(!ok && clean)
            {
                for(auto& x : reqs)
                    if(x->sched == qi && x.get() != q && x->t_done == 0)
                    {
                        fr.clear();
                        dev_frames_for(*x, now(), fr);
                        for(auto* f : fr) if(outcome_matches(*x, r, classify_resp(x->spec, Bytes(f->adu.begin() + 7, f->adu.end())))) ok = true;
                    }
                if(!ok && !guess_fits(*q, r)) violation("C02,C11", "wrong-poll-outcome", "a poll of " + spec_str(s.spec) + " reported " + res_str(r) + ", which no frame of the device explains");
            }
        }
    }
    else if(q) { q->n_done = 1; q->t_done = now(); q->seq_done = tick(); }
    if(r.kind == sut::K_CONN) conn_error_legit(ch, " (poll)");
    if(r.kind == sut::K_OTHER) violation("C08", "unknown-outcome", "the outcome of a poll is none of the documented kinds");
    ch.last_done = now();
    ch.last_done_stall = stall_now();
    for(int& x : s.results_since_start) ++x;
    while(!s.results_since_start.empty() && s.results_since_start.front() >= 3) { s.results_since_start.erase(s.results_since_start.begin()); if(s.credits > 0) --s.credits; }
}

void on_timer(int t)
{
    Tim& x = tims[t];
    ++x.fired;
    x.t_fired = now();
    stat("timers_fired");
    logf("timer %d fired", t);
    state_hash(mix64(700, t));
    if(!fiber_is_sut(current_fiber())) violation("C13,C15", "callback-on-user-thread", "a timer handler ran on the caller's thread");
    int mgr = chans[x.chan].mgr;
    if(mgrs[mgr].shut_returned || callbacks_forbidden) violation("C12,C15", "callback-after-shutdown", "a timer handler ran after the manager was shut down");
    if(x.fired > 1) { violation("C15", "timer-fired-twice", "a one-shot timer fired twice"); return; }
    if(now() < x.t_call + (u64)std::max<i64>(x.dur, 0)) violation("C15", "timer-early", "a timer of " + ms(x.dur) + " fired after " + ms(now() - x.t_call));
    if(x.canceled && x.t_cancel < x.t_call + (u64)std::max<i64>(x.dur, 0)) violation("C15", "canceled-timer-fired", "a timer canceled before its expiry fired");
}

CustomOutcome on_custom(int k, const ReqSpec& r)
{
    CustomOutcome o = custom_plan(k, r);
    ++custs[k].calls;
    stat("custom_calls");
    state_hash(mix64(500 + k, r.type));
    if(!fiber_is_sut(current_fiber())) violation("C13", "callback-on-user-thread", "a session handler ran on the caller's thread");
    if(callbacks_forbidden) violation("C12", "callback-after-shutdown", "a session handler ran after shutdown");
    int sl = slice_of(r.addr);
    // once a raw client sends garbage, the server may read any request out of it
    bool garbage = false;
    for(auto& w : raws) if(w.second.loose) garbage = true;
    if(sl >= 1 && sl < 100 && raws.count(sl - 1))
    {
        Raw& w = raws[sl - 1];
        bool next = false;
        for(auto& c : w.customs) { next = c.k == k && c.spec == r; if(next || !c.optional) break; }
        if(!w.loose && (next || !garbage))
        {
            stat("custom_calls_checked");
            while(!w.customs.empty() && w.customs.front().optional && !(w.customs.front().k == k && w.customs.front().spec == r)) w.customs.pop_front();
            if(w.customs.empty()) violation("C20", "unrequested-call", "a session was called with " + spec_str(r) + " which no client sent");
            else if(w.customs.front().k != k || !(w.customs.front().spec == r))
                violation("C20", "wrong-call", "session " + std::to_string(k) + " was called with " + spec_str(r) + "; the next request of that connection is " + spec_str(w.customs.front().spec) + " for session " + std::to_string(w.customs.front().k));
            else w.customs.pop_front();
        }
    }
    else if(sl >= 100 && sl < 200)
    {
        bool found = false, again = false;
        for(auto& q : reqs)
            if(q->chan == sl - 100 && q->valid && q->issued && q->spec == r)
            {
                auto cand = unit_candidates(srvs[chans[q->chan].tgt], q->unit);
                bool mine = false;
                for(auto& c : cand) if(c.first == 1 && c.second == k) mine = true;
                if(!mine) continue;
                if(q->custom_seen) { again = true; continue; }
                q->custom_seen = true;
                found = true;
                break;
            }
        if(!found && !garbage) violation("C20,C03", again ? "called-twice" : "unrequested-call", "session " + std::to_string(k) + " was called with " + spec_str(r) + (again ? " again" : " which no client sent to it"));
    }
    return o;
}
void on_custom_shutdown(int k)
{
    Cust& c = custs[k];
    ++c.shutdowns;
    if(c.shutdowns > c.regs) violation("C12,C20", "session-shutdown-twice", "a server session was shut down " + std::to_string(c.shutdowns) + " times, it was registered " + std::to_string(c.regs) + " times");
}

// ------------------------------------------------------------- operations --
static i64 arg(const Op& o, size_t i, i64 d = 0) { return i < o.a.size() ? o.a[i] : d; }

static int issue(int s, int type, i64 qty, i64 timeout_us, u64 seed, i64 addr, int flags)
{
    auto si = sesss.find(s);
    if(si == sesss.end() || si->second.dropped) return -1;
    Sess& se = si->second;
    Chan& ch = chans[se.chan];
    auto qp = new_req();
    Req& q = *qp;
    q.sess = s;
    q.chan = se.chan;
    q.unit = se.unit;
    q.flags = flags;
    q.timeout = timeout_us < 0 ? se.timeout : timeout_us * (i64)US;
    u16 a;
    bool srv = ch.tkind == 1;
    if(!srv) { a = (u16)(next_unique++ * 257 + C.salt); }
    else if(addr == -1) a = (u16)((100 + se.chan) * SL + seed % 30);
    else if(addr == -2) a = (u16)(seed % 30);
    else a = (u16)addr;
    // calls of user sessions are told apart by the address range of their channel
    if(srv && srvs.count(ch.tgt)) for(auto& c : unit_candidates(srvs[ch.tgt], q.unit)) if(c.first == 1) a = (u16)((100 + se.chan) * SL + seed % 30);
    q.spec = make_spec(type, a, qty, seed);
    q.valid = q.spec.valid();
    if(!srv) attrib[std::make_tuple((int)q.unit, (int)fc_of(q.spec.type), (int)a)] = {0, q.rid};
    q.t_call = now();
    q.stall_call = stall_now();
    q.seq_call = tick();
    q.after_shut = ch.shut || mgrs[ch.mgr].shut;
    q.issued = true;
    if(q.valid && !q.after_shut) ch.live.push_back(q.rid);
    if(srv && q.valid)
    {
        auto cand = unit_candidates(srvs[ch.tgt], q.unit);
        int sl = slice_of(a);
        if(cand.size() == 1 && cand[0].first == 0 && (sl == 0 || sl == 100 + se.chan))
        {
            DbS& d = dbs[cand[0].second];
            auto& h = d.lin[sl];
            LinOp o;
            o.inv = q.seq_call;
            o.req = q.spec;
            o.who = "client " + std::to_string(se.chan);
            q.lin_db = cand[0].second;
            q.lin_idx = (int)h.size();
            h.push_back(o);
        }
    }
    stat("requests");
    logf("issue rid %d sess %d %s timeout %lld", q.rid, s, spec_str(q.spec).c_str(), (long long)q.timeout);
    if(!sut::request(s, q.rid, q.spec, timeout_us < 0 ? -1 : q.timeout))
    {
        // the session handle was dropped meanwhile: nothing was issued
        auto& lv = chans[qp->chan].live;
        lv.erase(std::remove(lv.begin(), lv.end(), qp->rid), lv.end());
        qp->issued = false;
        return -1;
    }
    qp->t_ret = now();
    qp->seq_ret = tick();
    return qp->rid;
}

// reference exchange on one raw connection
static void raw_reply(Raw& w, int r, const Bytes& f)
{
    u16 txn = g16(f, 0);
    u8 unit = f[6];
    Bytes pdu(f.begin() + 7, f.end());
    ++w.replies;
    if(w.loose) return;
    while(!w.exp.empty() && w.exp.front().txn != txn)
    {
        Expect& e = w.exp.front();
        if(!e.alts.empty() && !e.maybe_silent)
        {
            bool later = false;
            for(auto& x : w.exp) if(x.txn == txn) later = true;
            violation(e.props, later ? "missing-reply" : "unexpected-reply", later ? "no reply to " + e.what + " but a later request was answered: " + hex(f) : "unexpected frame " + hex(f) + " while waiting for the reply to " + e.what);
            w.loose = true;
            return;
        }
        w.exp.pop_front();
    }
    if(w.exp.empty()) { violation("C06,C07", "unexpected-reply", "the server sent a frame that answers nothing: " + hex(f)); w.loose = true; return; }
    Expect e = w.exp.front();
    w.exp.pop_front();
    stat("replies_checked");
    if(e.any) return;
    if(e.alts.empty()) { violation(e.props, "answered-silent", "the server answered " + e.what + " with " + hex(f) + " although no answer is due"); w.loose = true; return; }
    if(unit != e.unit) { violation(e.props, "wrong-unit", "reply to " + e.what + " carries unit " + std::to_string(unit)); return; }
    if(e.lin_idx >= 0)
    {
        auto& o = dbs[e.lin_db].lin[0][e.lin_idx];
        o.res = tick();
        o.reply = pdu;
        return;
    }
    for(auto& a : e.alts) if(a == pdu) return;
    std::string alts;
    for(auto& a : e.alts) alts += " " + hex(a);
    violation(e.props, "wrong-reply", "reply to " + e.what + " is " + hex(pdu) + ", expected" + alts);
    w.loose = true;
}
static void raw_data(int r, const Bytes& b)
{
    Raw& w = raws[r];
    w.in.insert(w.in.end(), b.begin(), b.end());
    while(w.in.size() >= 7)
    {
        u16 proto = g16(w.in, 2), len = g16(w.in, 4);
        if(proto != 0 || len < 2 || len > 254)
        {
            violation("C07,C10", "reply-stream-corrupt", "the server's byte stream is not a sequence of frames: " + hex(w.in));
            w.in.clear();
            w.loose = true;
            return;
        }
        if(w.in.size() < (size_t)len + 6) return;
        Bytes f(w.in.begin(), w.in.begin() + len + 6);
        w.in.erase(w.in.begin(), w.in.begin() + len + 6);
        raw_reply(w, r, f);
    }
}
static void raw_send_op(const Op& o)
{
    int r = (int)arg(o, 1);
    auto it = raws.find(r);
    if(it == raws.end()) return;
    Raw& w = it->second;
    if(!w.opened || w.ended || w.half || !w.p->connected || w.dead) return;
    Srv& s = srvs[w.v];
    int unit = (int)(arg(o, 2) & 0xff), type = (int)((u64)arg(o, 3) % N_TYPES), mut = (int)arg(o, 7), split = (int)arg(o, 8);
    i64 qty = arg(o, 5);
    u64 seed = (u64)arg(o, 6);
    i64 off = arg(o, 4);
    bool shared = off >= 1000 && off < 2000;
    if(!s.exists || s.shut) w.loose = true;
    auto cand = unit_candidates(s, unit);
    bool uncertain = cand.size() != 1, may_custom = false;
    for(auto& c : cand) if(c.first == 1) may_custom = true;
    if((uncertain || may_custom) && off >= 1000) { off = off % SLN; shared = false; }
    u16 addr = shared ? (u16)(off - 1000) : off >= 2000 ? (u16)off : (u16)((1 + r) * SL + off);
    for(auto& c : cand) if(c.first == 0) ensure_slice(c.second, shared ? 0 : 1 + r);
    if(w.ended || w.half || w.dead) return;
    ReqSpec spec = make_spec(type, addr, mut == 3 ? 0 : qty, seed);
    if(mut == 4 && type != WSC && type != WSR) spec.qty = (u16)(max_qty(type) + 1 + seed % 1000);
    if(uncertain && !is_read(type)) return;
    {
        // the setup above may have taken time: a registration that began meanwhile makes the unit uncertain
        auto again = unit_candidates(s, unit);
        if(again != cand) return;
    }
    // `spec` with an out-of-range quantity is encoded by hand
    Bytes pdu;
    if(spec.vals.size() > 200 && !is_bits(type)) spec.vals.resize(123);
    if(!is_read(type) && spec.type != WSC && spec.type != WSR && (mut == 3 || mut == 4))
    {
        pdu = Bytes{fc_of(type)};
        p16(pdu, spec.addr);
        p16(pdu, spec.qty);
        size_t n = std::min<size_t>(type == WMC ? (spec.qty + 7) / 8 : 2 * spec.qty, 246);
        pdu.push_back((u8)n);
        for(size_t i = 0; i < n; ++i) pdu.push_back((u8)i);
    }
    else
    {
        if(!is_read(type) && spec.type != WSC && spec.type != WSR && spec.qty > max_qty(type)) spec = make_spec(type, addr, max_qty(type), seed);
        pdu = encode_req(spec);
    }
    u16 proto = 0;
    Bytes tail;
    bool loose_after = false, any = false;
    int len_override = -1;
    switch(mut)
    {
    case 1: pdu.resize(1 + seed % (pdu.size() > 1 ? pdu.size() - 1 : 1)); break;
    case 2: for(u64 i = 0; i <= seed % 5 && pdu.size() < 253; ++i) pdu.push_back((u8)(seed >> i)); break;
    case 5: if(type == WMC || type == WMR) pdu[5] += 1 + seed % 200; break;
    case 6: if(type == WSC) { pdu[3] = (u8)(1 + seed % 250); pdu[4] = (u8)(seed >> 8); } break;
    case 7: pdu[0] = (u8)seed; break;
    case 8: { static const u16 ps[] = {1, 0x0100, 0x8000, 0xff00, 2, 0xffff}; proto = seed % 3 ? ps[(seed >> 8) % 6] : (u16)(1 + seed % 65535); break; }
    case 9: pdu.clear(); loose_after = true; break;
    case 10: len_override = 0; pdu.clear(); loose_after = true; break;
    case 11: { int n = 255 + (int)(seed % 700); while((int)pdu.size() < n - 1) pdu.push_back((u8)pdu.size()); any = true; loose_after = true; break; }
    case 12: { loose_after = true; any = true; break; }
    case 13: { loose_after = true; break; }
    default: break;
    }
    if(pdu.size() > 253 && mut != 11) pdu.resize(253);
    u16 txn = ++w.txn;
    Bytes f = mbap(txn, (u8)unit, pdu, proto);
    if(len_override >= 0) { f[4] = (u8)(len_override >> 8); f[5] = (u8)len_override; }
    if(mut == 12) { Bytes g; for(u64 i = 0; i < 1 + seed % 500; ++i) g.push_back((u8)rnd16(seed, i)); f = g; }
    if(mut == 13) f.resize(1 + seed % (f.size() - 1));
    // expectation
    Expect e;
    e.txn = txn;
    e.unit = (u8)unit;
    e.t = now();
    e.any = any;
    ReqSpec got;
    int exc = 0;
    PduClass pc = parse_req(pdu, got, exc);
    if(off >= 2000 && pc == P_OK && !is_read(got.type)) return;     // these addresses are read by several lanes
    e.what = std::string("unit ") + std::to_string(unit) + " " + (pc == P_OK ? spec_str(got) : "frame " + hex(f));
    e.props = mut == 0 ? "C06" : "C07";
    if(proto != 0 || pdu.empty()) pc = P_SILENT;
    bool lin = false;
    if(!any && mut != 13)
        for(auto& c : cand)
        {
            if(c.first < 0) { e.props = "C08,C20"; if(cand.size() > 1) e.maybe_silent = true; continue; }
            if(pc == P_SILENT) continue;
            if(pc == P_EXC) { if(!pdu.empty()) e.alts.push_back(exc_pdu(pdu[0], exc)); e.props = "C07,C08"; continue; }
            if(cand.size() > 1) e.props = "C20";
            else if(c.first == 1) e.props = "C20,C08";
            if(c.first == 0 && shared && cand.size() == 1)
            {
                auto& h = dbs[c.second].lin[0];
                LinOp lo;
                lo.inv = tick();
                lo.req = got;
                lo.who = "raw " + std::to_string(r);
                e.lin_db = c.second;
                e.lin_idx = (int)h.size();
                h.push_back(lo);
                lin = true;
                e.alts.push_back({});
                continue;
            }
            Bytes rep = session_reply(c.first, c.second, got);
            if(c.first == 1 && !w.loose) { w.customs.push_back({c.second, got, uncertain}); e.custom = true; }
            if(!rep.empty()) e.alts.push_back(rep);
            else if(cand.size() > 1) e.maybe_silent = true;
        }
    e.ok = pc == P_OK && !any && mut != 13;
    e.spec = got;
    e.shared = shared;
    if(s.regs.count(unit) && s.regs[unit].size() > 1 && e.props == "C06") e.props = "C06,C20";
    if(w.mid) w.loose = true;
    if(any) e.maybe_silent = true;
    (void)lin;
    if(!w.loose) w.exp.push_back(e);
    stat("raw_sent");
    logf("raw %d send %s", r, hex(f).c_str());
    auto p = w.p;
    if(split > 0 && f.size() > 1)
    {
        size_t k = 1 + (size_t)split % (f.size() - 1);
        Bytes a(f.begin(), f.begin() + k), b(f.begin() + k, f.end());
        p->send(a);
        sleep_ns((u64)(split % 7) * 300 * US);
        p->send(b);
    }
    else p->send(f);
    if(loose_after) raws[r].loose = true;
    if(mut == 13) raws[r].mid = true;
}

static void exec(const Op& o);
void nested(int rid, int)
{
    Req& q = *reqs[rid];
    int f = q.flags;
    if(!f || finals) return;
    if(f & 1) { q.flags = 0; issue(q.sess, (q.spec.type + 1) % N_TYPES, 1 + rid % 7, -1, rid * 31 + 5, -1, (f & 128) ? 1 : 0); }
    if(f & 2)
    {
        int ns = 1000 + rid;
        int c = q.chan;
        u8 unit = (u8)(q.unit + 1);
        if(chans[c].tkind == 0 && !chans[c].shut && sut::session_create(ns, c, unit, (i64)(200 * MS)))
        {
            Sess s;
            s.chan = c;
            s.unit = unit;
            s.timeout = 200 * MS;
            sesss[ns] = s;
            issue(ns, RHR, 2, -1, rid + 99, -1, 0);
        }
    }
    if(f & 4) { Op o; o.kind = SESS_SHUT; o.a = {0, q.sess}; exec(o); }
    if(f & 8) { Op o; o.kind = CHAN_SHUT; o.a = {0, q.chan}; exec(o); }
    if(f & 16) { Op o; o.kind = TIMER; o.a = {0, 500 + rid, q.sess, 5000, 0}; exec(o); }
    if(f & 32) { u64 d = (1 + rid % 5) * 4 * MS; handler_sleep += d; sleep_ns(d); }
    if(f & 64) for(auto& s : schs) if(s.second.exists && s.second.chan == q.chan) { Op o; o.kind = SCHED_CTL; o.a = {0, s.first, rid % 2, 0}; exec(o); break; }
}

// what the handler of a schedule does besides: bits 1 stop, 2 stop and start, 4 new period, 8 drop the handle, 16 a request
void nested_sched(int qi)
{
    Sch& s = schs[qi];
    if(!s.hflags || finals || !s.exists || s.dropped || s.results % 3) return;
    auto ctl = [qi](i64 what, i64 val) { Op o; o.kind = SCHED_CTL; o.a = {0, qi, what, val, 1}; exec(o); };
    int f = s.hflags, sess = s.sess;
    if(f & 4) ctl(2, 20000 + 10000 * (i64)(s.results % 4));
    if(f & 1) ctl(0, 0);
    if(f & 2) { ctl(0, 0); ctl(1, 0); }
    if(f & 8) ctl(4, 0);
    if(f & 16) issue(sess, RHR, 2, -1, s.results, -1, 0);
}
// bits 2 start another timer, 4 cancel itself, 8 drop its handle, 16 send a request
void nested_timer(int t)
{
    int f = tims[t].flags;
    if(!f || finals) return;
    Op o;
    if(f & 4) { o.kind = TIMER_CTL; o.a = {0, t, 0, 0}; exec(o); }
    if(f & 8) { o.kind = TIMER_CTL; o.a = {0, t, 1, 0}; exec(o); }
    if(f & 2) { o.kind = TIMER; o.a = {0, 700 + t, tims[t].sess, 3000, (i64)(t & 1)}; exec(o); }
    if(f & 16) issue(tims[t].sess, RIR, 1, -1, t, -1, 0);
}

static void chan_set_strict(Chan& c)
{
    bool slow = C.w_slow && C.slow_us > 100000;
    c.strict = !net_conn_faults_possible() && !slow && c.adapter != 2 && c.adapter != 3 && c.hostmode != 3 && c.hostmode != 4;
}

// what is posted after the threads of a manager ended stays in its queue: nothing is promised about it
static std::set<int> late_use;         // the managers that happened to
static bool late_server = false;
static u64 t_lanes = 0;                // when the lanes started
static int posts_to(const Op& o)
{
    auto of_chan = [](int c) { return chans.count(c) ? chans[c].mgr : -1; };
    auto of_sess = [&](int s) { return sesss.count(s) ? of_chan(sesss[s].chan) : -1; };
    auto of_srv = [](int v) { return srvs.count(v) ? srvs[v].mgr : -1; };
    auto of_tim = [&](int t) { return tims.count(t) ? of_chan(tims[t].chan) : -1; };
    int i = (int)arg(o, 1);
    switch(o.kind)
    {
    case REQ: case SCHED: case SESS_SHUT: return of_sess(i);
    case SCHED_CTL: return schs.count(i) ? of_chan(schs[i].chan) : -1;
    case TIMER: case TIMER_CTL: return of_tim(i);
    case CHAN_SHUT: return of_chan(i);
    case SRV_SHUT: case ADD_SESS: case START_SRV: return of_srv(i);
    case MK_CHAN: case MK_SRV: return (int)arg(o, 2);
    case DROP: return arg(o, 1) == 4 ? of_tim((int)arg(o, 2)) : -1;
    default: return -1;
    }
}
static void exec(const Op& o)
{
    exec_op(o);
    int m = posts_to(o);
    if(m >= 0 && mgrs.count(m) && mgrs[m].shut) late_use.insert(m);
}
// A session is about to replace (or to join) those of a unit.  From here on only
// reads are sent to it; writes that are under way are waited for, so that the
// models stay exact; answers to reads under way may come from the new session.
static void begin_registration(int v, int unit, int kind, int idx)
{
    auto busy = [v, unit] {
        for(auto& x : raws)
        {
            Raw& w = x.second;
            if(w.v != v || w.loose || w.dead || w.ended) continue;
            for(auto& e : w.exp) if(e.unit == unit && e.ok && (!is_read(e.spec.type) || e.lin_idx >= 0) && (!e.alts.empty() || e.custom)) return true;
        }
        for(auto& c : chans)
            if(c.second.tkind == 1 && c.second.tgt == v)
                for(int r : c.second.live) if(reqs[r]->unit == unit) return true;
        return false;
    };
    // (silent requests have no observable end)
    if(wait_until([&] { return !busy(); }, now() + 1 * SEC)) {}
    sleep_ns(20 * MS + SLACK);
    std::vector<int> old;
    for(auto& r : srvs[v].regs[unit]) if(r.kind == 0 && !(kind == 0 && r.idx == idx)) old.push_back(r.idx);
    for(auto& x : raws)
    {
        Raw& w = x.second;
        if(w.v != v) continue;
        for(auto& e : w.exp)
        {
            if(e.unit != unit || !e.ok) continue;
            if(!is_read(e.spec.type) || e.lin_idx >= 0) { if(!e.alts.empty() || e.custom) w.loose = true; continue; }
            if(w.loose) continue;
            if(kind == 0) ensure_slice(idx, 1 + x.first);
            for(auto& c : w.customs) if(c.spec == e.spec) c.optional = true;
            if(kind == 1) { w.customs.push_back({idx, e.spec, true}); }
            Bytes rep = session_reply(kind, idx, e.spec);
            e.maybe_silent = true;
            if(!rep.empty()) e.alts.push_back(rep);
        }
    }
    // operations of the old databases that never completed may reach the new one
    if(kind == 0)
        for(int o : old)
            for(auto& sl : dbs[o].lin)
            {
                std::vector<LinOp> pend;
                for(auto& op : sl.second) if(op.res == ~0ull && !op.txn && !op.add) pend.push_back(op);
                for(auto& op : pend) dbs[idx].lin[sl.first].push_back(op);
            }
}

static bool probe_server(int v);
static void reopen_server(int v);
static void exec_op(const Op& o)
{
    if(arg(o, 0) > 0) sleep_ns((u64)arg(o, 0) * US);
    int i = (int)arg(o, 1);
    switch(o.kind)
    {
    case MK_MGR:
        if(mgrs[i].exists) return;
        mgrs[i].exists = true;
        mgrs[i].t_lo = thread_count();
        sut::mgr_create(i, (int)arg(o, 2), (int)arg(o, 3));
        mgrs[i].t_hi = thread_count();
        if(mgrs[i].t_hi == mgrs[i].t_lo) violation("C01,C13", "no-threads", "the manager has no background thread");
        break;
    case MK_DEV:
    {
        if(devs.count(i)) return;
        auto d = std::make_shared<Dev>();
        d->id = i;
        d->ip = ip4(192, 168, 1, 1 + i);
        d->faulty = arg(o, 2);
        d->port = (u16)arg(o, 3, 502);
        devs[i] = d;
        dev_names(i, d->ip);
        dev_listen(d);
        break;
    }
    case MK_DB:
        if(dbs[i].exists) return;
        dbs[i].exists = true;
        sut::db_create(i);
        ensure_slice(i, 0);
        if(arg(o, 2) & 1) for(int t = 0; t < 4; ++t) for(u32 a = 0; a < (t < 2 ? 2000u : 126u); ++a) add_key(i, t, 40000 + a);
        // a long range with an occasional hole
        if(arg(o, 2) & 4) for(int t = 0; t < 4; ++t) for(u32 a = 0; a < (t < 2 ? 2100u : 300u); ++a) if(a % (t < 2 ? 701 : 67) != 40) add_key(i, t, 45000 + a);
        if(arg(o, 2) & 2) for(int t = 0; t < 4; ++t) for(u32 a = 65530; a < 65536; ++a) add_key(i, t, a);
        break;
    case MK_CUSTOM:
        if(custs[i].exists) return;
        custs[i].exists = true;
        sut::custom_create(i);
        break;
    case MK_SRV:
    {
        int m = (int)arg(o, 2);
        if(srvs[i].exists || !mgrs[m].exists || mgrs[m].shut) return;
        Srv& s = srvs[i];
        s.mgr = m;
        s.ip = arg(o, 6) ? (arg(o, 6) == 1 ? ip4(127, 0, 0, 1) : ip4(10, 0, 0, 1)) : i % 2 ? ip4(127, 0, 0, 1) : ip4(10, 0, 0, 1);
        s.port = (u16)(arg(o, 5, 5000) + i);
        s.maxc = (unsigned)std::max<i64>(1, arg(o, 3, 16));
        bool made = sut::server_create(i, m, ip_str(s.ip), s.port, s.maxc, (int)arg(o, 4));
        srvs[i].exists = made;
        if(mgrs[m].shut) { srvs[i].shut = true; late_server = true; }
        break;
    }
    case ADD_SESS:
    {
        auto it = srvs.find(i);
        if(it == srvs.end() || !it->second.exists) return;
        int unit = (int)arg(o, 2) & 0xff, kind = (int)arg(o, 3), idx = (int)arg(o, 4);
        if(kind == 0 ? !(dbs.count(idx) && dbs[idx].exists) : !(custs.count(idx) && custs[idx].exists)) return;
        // registrations of one unit follow each other: their order is what the user knows
        while(std::any_of(srvs[i].regs[unit].begin(), srvs[i].regs[unit].end(), [](const Reg& x) { return !x.done; })) sleep_ns(1 * MS);
        Reg r{now(), stall_now(), in_setup && !it->second.started, kind, idx, false};
        it->second.regs[unit].push_back(r);
        size_t k = it->second.regs[unit].size() - 1;
        if(kind == 1) custs[idx].regs++;
        if(!r.setup && !it->second.shut) begin_registration(i, unit, kind, idx);
        if(kind == 0) sut::server_add_db(i, (u8)unit, idx); else sut::server_add_custom(i, (u8)unit, idx);
        srvs[i].regs[unit][k].t = now();
        srvs[i].regs[unit][k].stall = stall_now();
        srvs[i].regs[unit][k].done = true;
        break;
    }
    case START_SRV:
    {
        auto it = srvs.find(i);
        if(it == srvs.end() || !it->second.exists || it->second.started || it->second.shut) return;
        it->second.started = true;
        it->second.t_start = now();
        sut::server_start(i);
        break;
    }
    case MK_CHAN:
    {
        int m = (int)arg(o, 2);
        if(chans[i].exists || !mgrs[m].exists || mgrs[m].shut) { return; }
        Chan& c = chans[i];
        c.id = i;
        c.mgr = m;
        c.tkind = (int)arg(o, 3);
        c.tgt = (int)arg(o, 4);
        c.hostmode = (int)arg(o, 5);
        c.adapter = (int)arg(o, 6);
        std::string host;
        u16 port = 502;
        if(c.tkind == 0)
        {
            if(!devs.count(c.tgt)) return;
            static const char* forms[] = {"", "dev", "multi", "", "slow", "many", "mixed"};
            host = forms[c.hostmode % 7];
            host = host.empty() ? ip_str(devs[c.tgt]->ip) : host + std::to_string(c.tgt);
            c.ip = devs[c.tgt]->ip;
            port = devs[c.tgt]->port;
        }
        else if(c.tkind == 1)
        {
            if(!srvs.count(c.tgt) || !srvs[c.tgt].exists) return;
            host = ip_str(srvs[c.tgt].ip);
            port = srvs[c.tgt].port;
            c.ip = srvs[c.tgt].ip;
            c.adapter = 0;
        }
        else host = c.hostmode == 3 ? "nowhere.invalid" : c.hostmode == 6 ? "nobody" : "192.168.7.7";
        c.host = host;
        c.port = port;
        static const char* ads[] = {"", "10.0.0.2", "10.0.0.9", "not-an-address", "0.0.0.0"};
        chan_set_strict(c);
        bool made = sut::client_create(i, m, host, port, ads[c.adapter % 5], (int)arg(o, 7), (u16)arg(o, 8));
        chans[i].exists = made;
        if(mgrs[m].shut) chans[i].shut = true;           // its manager was shut down meanwhile
        break;
    }
    case MK_SESS:
    {
        int c = (int)arg(o, 2);
        if(sesss.count(i) || !chans.count(c) || !chans[c].exists) return;
        Sess s;
        s.chan = c;
        s.unit = (u8)arg(o, 3);
        s.timeout = arg(o, 4, 1000000) * (i64)US;
        if(sut::session_create(i, c, s.unit, s.timeout)) sesss[i] = s;
        else if(!chans[c].shut && !mgrs[chans[c].mgr].shut) violation("C01", "no-session", "an open channel refused to create a session");
        break;
    }
    case REQ: issue(i, (int)arg(o, 2), arg(o, 3), arg(o, 4, -1), (u64)arg(o, 5), arg(o, 6, -1), (int)arg(o, 7)); break;
    case SCHED:
    {
        int q = (int)arg(o, 6);
        auto si = sesss.find(i);
        if(si == sesss.end() || si->second.dropped || schs[q].t_ctl || chans[si->second.chan].tkind != 0) return;
        Sch& s = schs[q];
        s.sess = i;
        s.chan = si->second.chan;
        s.unit = si->second.unit;
        s.timeout = arg(o, 4, -1) < 0 ? si->second.timeout : arg(o, 4) * (i64)US;
        u16 a = (u16)(next_unique++ * 257 + C.salt);
        s.spec = make_spec((int)((u64)arg(o, 2) % 4), a, std::max<i64>(1, arg(o, 3)), 0);
        attrib[std::make_tuple((int)s.unit, (int)fc_of(s.spec.type), (int)a)] = {1, q};
        s.freqs.push_back({now(), now(), arg(o, 5) * (i64)US});
        s.results_since_start = {0};
        s.hflags = (int)arg(o, 7);
        s.t_ctl = now();
        bool shut = chans[s.chan].shut || mgrs[chans[s.chan].mgr].shut || si->second.shut;
        s.exists = sut::schedule(i, q, s.spec, arg(o, 4, -1) < 0 ? -1 : s.timeout, arg(o, 5) * (i64)US);
        Sch& s2 = schs[q];
        if(mgrs[chans[s2.chan].mgr].shut) s2.racy = true;
        if(shut || chans[s2.chan].shut || sesss[i].shut) { s2.want_running = false; s2.ambiguous = true; }
        break;
    }
    case SCHED_CTL:
    {
        auto it = schs.find(i);
        if(it == schs.end() || !it->second.exists || it->second.dropped) return;
        Sch& s = it->second;
        if(arg(o, 2) <= 1)
        {
            int who = arg(o, 4) ? -100 : current_fiber();          // its own handler, or a thread
            if(s.ctl_fiber != -2 && s.ctl_fiber != who) s.racy = true;
            s.ctl_fiber = who;
            if(mgrs[chans[s.chan].mgr].shut && arg(o, 2) == 1) s.racy = true;
        }
        switch(arg(o, 2))
        {
        case 0:
            s.want_running = false;
            s.t_ctl = now();
            sut::sched_stop(i);
            schs[i].t_ctl = now();
            break;
        case 1:
            ++s.starts;
            ++s.credits;
            s.results_since_start.push_back(-(int)s.results_since_start.size());
            s.want_running = !(chans[s.chan].shut || sesss[s.sess].shut);
            if(!s.want_running) { s.ambiguous = true; stat("starts_after_shutdown"); }
            s.t_ctl = now();
            sut::sched_start(i);
            schs[i].t_ctl = now();
            if(mgrs[chans[schs[i].chan].mgr].shut) schs[i].racy = true;
            break;
        case 2:
        {
            size_t k = s.freqs.size();
            s.freqs.push_back({now(), 0, std::max<i64>(1000, arg(o, 3)) * (i64)US});
            sut::sched_set_freq(i, s.freqs[k].v);
            schs[i].freqs[k].t_ret = now();
            break;
        }
        case 3:
        {
            bool run = false;
            i64 f = 0;
            if(sut::sched_running(i, run, f))
            {
                bool known = false;
                for(auto& x : schs[i].freqs) if(x.v == f) known = true;
                if(!known) violation("C11", "unknown-frequency", "the polling period reads back as " + ms(f) + ", which was never set");
            }
            break;
        }
        default: s.dropped = true; sut::sched_drop(i); break;
        }
        break;
    }
    case TIMER:
    {
        int s = (int)arg(o, 2);
        if(tims[i].t_call || !sesss.count(s) || sesss[s].dropped) return;
        Tim& t = tims[i];
        t.sess = s;
        t.chan = sesss[s].chan;
        t.dur = arg(o, 3) * (i64)US;
        t.abs = arg(o, 4) & 1;
        t.flags = (int)arg(o, 4) & ~1;
        t.t_call = now();
        t.stall = stall_now();
        i64 e = 0;
        i64 asked = 0;
        bool ok = sut::timer_start(s, i, t.dur, t.abs, e, asked);
        Tim& t2 = tims[i];
        t2.exists = ok;
        t2.expires = e;
        t2.t_ret = now();
        if(ok && t2.abs && e != asked) violation("C15", "wrong-expiry", "a timer for the time " + std::to_string(asked) + " reports " + std::to_string(e));
        if(ok && (e < (i64)t2.t_call + t2.dur || e > (i64)(t2.t_ret + (stall_now() - t2.stall)) + t2.dur))
            violation("C15", "wrong-expiry", "a timer of " + ms(t2.dur) + " reports expiry " + ms((u64)(e - (i64)t2.t_call)) + " after it was started");
        break;
    }
    case TIMER_CTL:
    {
        auto it = tims.find(i);
        if(it == tims.end() || !it->second.exists || it->second.dropped) return;
        if(arg(o, 2) == 0)
        {
            sut::timer_cancel(i);
            Tim& t = tims[i];
            if(!t.canceled) { t.canceled = true; t.t_cancel = now(); }
        }
        else if(arg(o, 2) == 1) { tims[i].dropped = true; sut::timer_drop(i); }
        else
        {
            i64 e = sut::timer_expires(i);
            if(e != -1 && e != tims[i].expires) violation("C15", "wrong-expiry", "the expiration of a timer reads " + ms((u64)e) + " after it read " + ms((u64)tims[i].expires));
        }
        break;
    }
    case SESS_SHUT:
        if(!sesss.count(i) || sesss[i].dropped) return;
        sesss[i].shut = true;
        for(auto& s : schs) if(s.second.sess == i) { s.second.want_running = false; s.second.ambiguous = true; }
        sut::session_shutdown(i);
        break;
    case CHAN_SHUT:
    {
        auto it = chans.find(i);
        if(it == chans.end() || !it->second.exists || it->second.dropped) return;
        it->second.shut = true;
        it->second.t_shut = now();
        for(auto& s : schs) if(s.second.chan == i) { s.second.want_running = false; s.second.ambiguous = true; }
        sut::client_shutdown(i);
        if(!chans[i].seq_shut) chans[i].seq_shut = tick();
        break;
    }
    case SRV_SHUT:
    {
        auto it = srvs.find(i);
        if(it == srvs.end() || !it->second.exists || it->second.dropped) return;
        it->second.shut = true;
        for(auto& r : raws) if(r.second.v == i) r.second.loose = true;
        sut::server_shutdown(i);
        break;
    }
    case MGR_SHUT:
    {
        if(!mgrs[i].exists || mgrs[i].destroyed) return;
        mgrs[i].shut = true;
        for(auto& c : chans) if(c.second.mgr == i) c.second.shut = true;
        for(auto& s : schs) if(s.second.exists && chans[s.second.chan].mgr == i) { s.second.want_running = false; s.second.ambiguous = true; }
        for(auto& s : srvs) if(s.second.mgr == i) { s.second.shut = true; for(auto& r : raws) if(r.second.v == s.first) r.second.loose = true; }
        hb_acquire(&mgrs[i]);
        sut::mgr_shutdown(i);
        hb_release(&mgrs[i]);
        mgrs[i].shut_returned = true;
        break;
    }
    case DROP:
        switch(arg(o, 1))
        {
        case 0: if(sesss.count((int)arg(o, 2))) { sesss[(int)arg(o, 2)].dropped = true; sut::session_drop((int)arg(o, 2)); } break;
        case 1: if(chans.count((int)arg(o, 2))) { chans[(int)arg(o, 2)].dropped = true; sut::client_drop((int)arg(o, 2)); } break;
        case 2: if(srvs.count((int)arg(o, 2))) { srvs[(int)arg(o, 2)].dropped = true; sut::server_drop((int)arg(o, 2)); } break;
        case 3: if(schs.count((int)arg(o, 2))) { schs[(int)arg(o, 2)].dropped = true; sut::sched_drop((int)arg(o, 2)); } break;
        default: if(tims.count((int)arg(o, 2))) { tims[(int)arg(o, 2)].dropped = true; sut::timer_drop((int)arg(o, 2)); } break;
        }
        break;
    case DB_ADD:
    {
        // [_, d, table, offset, shared]: user thread adds an address of its own, or one to the range everybody shares
        if(!dbs.count(i) || !dbs[i].exists) return;
        int t = (int)((u64)arg(o, 2) % 4);
        if(arg(o, 4))
        {
            u16 at = (u16)((u64)arg(o, 3) % SL), av = (u16)(init_val(i, t, at) ^ (t < 2 ? 1 : 0x1234));
            auto& h = dbs[i].lin[0];
            size_t k = h.size();
            LinOp lo;
            lo.inv = tick();
            lo.add = true;
            lo.who = "addition";
            lo.steps.push_back({true, t, at, av, false});
            h.push_back(lo);
            stat("db_adds_shared");
            bool ok = sut::db_add(i, t, at, av);
            auto& h2 = dbs[i].lin[0][k];
            h2.steps[0].ok = ok;
            h2.res = tick();
            break;
        }
        u16 a = (u16)(60000 + arg(o, 3) % 2000);
        // concurrent additions of one address: exactly one of them takes effect
        struct Group { int running = 0, wins = 0; bool had = false; };
        static std::map<std::tuple<int, int, int>, Group> groups;
        Group& gr = groups[{i, t, a}];
        if(!gr.running++) { gr.wins = 0; gr.had = dbs[i].model.t[t].count(a); }
        if(!gr.had) dbs[i].model.t[t][a] = init_val(i, t, a);
        u16 v = gr.had ? (u16)(init_val(i, t, a) ^ 1) : init_val(i, t, a);
        stat("db_adds");
        if(sut::db_add(i, t, a, v)) ++gr.wins;
        if(!--gr.running && gr.wins != !gr.had) violation("C14", "add-result", std::to_string(gr.wins) + " additions of an address that " + (gr.had ? "exists" : "does not exist") + " returned true");
        {
            // nobody writes there: it keeps the value it was first added with
            std::vector<sut::TxnStep> st(1);
            st[0] = {false, t, a, 0, false};
            u16 want = init_val(i, t, a);
            sut::db_txn(i, st);
            stat("adds_read_back");
            if(!st[0].ok || st[0].val != want) violation("C14", "add-lost", "an address that was added " + std::string(st[0].ok ? "has another value after it was added again" : "is not there"));
        }
        break;
    }
    case TXN:
    {
        if(!dbs.count(i) || !dbs[i].exists) return;
        std::vector<sut::TxnStep> st;
        u64 seed = (u64)arg(o, 2);
        Rng g(mix64(C.salt, seed));
        // [_, d, seed, steps, focus, what]: steps >= 20 pass over a whole range; bits of what: 1 throws at its end, 2 writes
        int n = (int)std::max<i64>(1, arg(o, 3, 3)), focus = (int)(arg(o, 4) % 5);
        bool all = n >= 20, wr = g.one_in(2) || (arg(o, 5) & 2);
        int tab = (int)g.below(4);
        for(int k = 0; k < n; ++k)
        {
            sut::TxnStep x;
            x.write = all ? wr : g.one_in(2);
            x.table = focus ? (focus - 1) : all ? tab : (int)g.below(4);
            x.addr = all ? (u16)k : (u16)g.below(g.one_in(8) ? 120 : 6);
            x.val = (u16)(x.table < 2 ? g.below(2) : g.next());
            x.ok = false;
            st.push_back(x);
        }
        auto& h = dbs[i].lin[0];
        size_t idx = h.size();
        LinOp lo;
        lo.inv = tick();
        lo.txn = true;
        lo.who = "user thread";
        for(auto& x : st) lo.steps.push_back({x.write, x.table, x.addr, x.val, x.ok});
        h.push_back(lo);
        stat("transactions");
        sut::db_txn(i, st, arg(o, 5) & 1);
        auto& h2 = dbs[i].lin[0][idx];
        h2.res = tick();
        h2.steps.clear();
        for(auto& x : st) h2.steps.push_back({x.write, x.table, x.addr, x.val, x.ok});
        break;
    }
    case DEV_CTL:
    {
        auto it = devs.find(i);
        if(it == devs.end()) return;
        auto d = it->second;
        switch(arg(o, 2))
        {
        case 0: for(auto& c : d->conns) dev_close(c.get(), false); break;
        case 1: for(auto& c : d->conns) dev_close(c.get(), true); break;
        case 2: if(d->up) { d->up = false; d->t_down = now(); d->stall_down = stall_now(); ++d->faults; raw_unlisten(d->ip, d->port); for(auto& c : d->conns) dev_close(c.get(), arg(o, 3)); } break;
        case 3: if(!d->up) { d->up = true; ++d->faults; dev_listen(d); } break;
        case 4: d->paused = true; ++d->faults; for(auto& c : d->conns) { c->raw->pause(); } break;
        case 5: d->paused = false; ++d->faults; for(auto& c : d->conns) c->raw->resume(); break;
        case 7:
        {
            // a flood of well-formed frames that answer nothing
            u64 t = 0;
            count_fault(F_FLOOD);
            for(i64 k = 0, n = std::min<i64>(arg(o, 3), 4000); k < n; ++k)
                for(auto& c : d->conns)
                {
                    if(c->dead) continue;
                    Bytes f = mbap((u16)(40000 + k), 99, Bytes{3, 4, 1, 2, 3, 4});
                    std::weak_ptr<DevConn> w = c;
                    after(t += 20 * US, [w, f] { auto c = w.lock(); if(c && !c->dead && c->raw->unsent() < 4096) dev_send(c.get(), f); });
                }
            break;
        }
        default: if(d->up) { d->up = false; d->t_down = now(); d->stall_down = stall_now(); ++d->faults; raw_unlisten(d->ip, d->port); } break;
        }
        break;
    }
    case PARTITION: partition_used = true; net_partition_all((u64)arg(o, 1) * MS); for(auto& c : chans) c.second.strict = false; break;
    case RAW_OPEN:
    {
        int v = (int)arg(o, 2);
        if(i < 0 || i >= 98 || raws.count(i) || !srvs.count(v) || !srvs[v].exists) return;
        Raw& w = raws[i];
        w.v = v;
        w.opened = true;
        w.txn = (u16)rnd16(i, 4242);
        w.p = raw_connect(srvs[v].ip, srvs[v].port, ip4(10, 0, 0, 77));
        if(net_conn_faults_possible()) w.p->tag = 1;
        w.p->on_data = [i](RawConn&, const Bytes& b) { raw_data(i, b); };
        w.p->on_closed = [i](RawConn&, bool rst) {
            Raw& w = raws[i];
            w.dead = true;
            if(!w.server_closed) { w.server_closed = true; w.t_server_closed = now(); }
            logf("raw %d closed by server%s", i, rst ? " (reset)" : "");
            (void)rst;
        };
        wait_until([&w] { return w.p->connected || w.p->failed; }, now() + 500 * MS);
        break;
    }
    case RAW_SEND: raw_send_op(o); break;
    case RAW_CTL:
    {
        auto it = raws.find(i);
        if(it == raws.end() || it->second.ended) return;
        Raw& w = it->second;
        switch(arg(o, 2))
        {
        case 0: w.ended = true; w.t_ended = now(); w.p->close(); break;
        case 1: w.ended = true; w.t_ended = now(); w.p->reset(); break;
        case 2: if(!w.half) { w.half = true; w.t_ended = now(); count_fault(F_HALF_CLOSE); w.p->shutdown_wr(); for(auto& e : w.exp) e.maybe_silent = true; } break;
        case 3: w.paused = true; count_fault(F_SLOW_READER); w.p->pause(); break;
        case 4: w.paused = false; w.p->resume(); break;
        }
        break;
    }
    case RAW_WAIT:
    {
        auto it = raws.find(i);
        if(it == raws.end()) return;
        int n = i;
        wait_until([n] { Raw& w = raws[n]; if(w.loose || w.dead || w.ended) return true; for(auto& e : w.exp) if(!e.alts.empty() && !e.maybe_silent) return false; return true; }, now() + 2 * SEC);
        break;
    }
    case WALL_CLOCK: wall_jump(arg(o, 1) * (i64)SEC); break;
    case RAW_FLOOD:
    {
        // [_, r, unit, n]: a client pipelines n large reads and reads no reply
        auto it = raws.find(i);
        if(it == raws.end() || it->second.ended || it->second.dead || it->second.loose || !it->second.p->connected) return;
        int v = it->second.v;
        i64 n = std::min<i64>(arg(o, 3), 1000);
        it->second.paused = true;
        it->second.p->pause();
        count_fault(F_FLOOD);
        u64 m1 = 0;
        for(i64 k = 0; k < n; ++k)
        {
            Op p;
            p.kind = RAW_SEND;
            p.a = {0, i, arg(o, 2), RHR, 40000, 125, k, 0, 0};
            exec(p);
            if(k == n / 4) { sleep_ns(300 * MS + SLACK); m1 = sut_live_bytes(); }
        }
        sleep_ns(500 * MS + SLACK);
        u64 m2 = sut_live_bytes();
        stat("floods_checked");
        logf("flood: %llu -> %llu bytes", (unsigned long long)m1, (unsigned long long)m2);
        if(m2 > m1 + (u64)n * 3 / 4 * 130) violation("C10,C21", "unbounded-buffer", "the memory of the library grew from " + std::to_string(m1) + " to " + std::to_string(m2) + " bytes while a client sent " + std::to_string(n * 3 / 4) + " requests without reading the replies");
        if(!net_conn_faults_possible() && srvs[v].started && !srvs[v].shut && !probe_server(v)) violation("C10,C17,C07", "server-held-up", "while one client does not read, another one got no service");
        raws[i].paused = false;
        raws[i].p->resume();
        wait_until([i] { Raw& w = raws[i]; if(w.loose || w.dead || w.ended) return true; for(auto& e : w.exp) if(!e.alts.empty() && !e.maybe_silent) return false; return true; }, now() + 120 * SEC);
        break;
    }
    case SLEEP:
        // [_, us, absolute]
        if(!arg(o, 2)) sleep_ns((u64)arg(o, 1) * US);
        else if(now() < t_lanes + (u64)arg(o, 1) * US) sleep_ns(t_lanes + (u64)arg(o, 1) * US - now());
        break;
    case BARRIER:
        wait_until([] { for(auto& c : chans) if(!c.second.live.empty() && !c.second.shut) return false; return true; }, now() + (u64)std::max<i64>(1, arg(o, 1, 5000)) * MS);
        break;
    default: break;
    }
}

// -------------------------------------------------------------- final phase --
static int g_final_id = 5000;
static int g_probe_rid = -1;
static bool probe_chan(int c)
{
    g_probe_rid = -1;
    // a session of its own, generous timeout
    int s = ++g_final_id;
    Chan& ch = chans[c];
    u8 unit = 9;
    if(ch.tkind == 1)
    {
        unit = 0;
        bool found = false;
        for(auto& r : srvs[ch.tgt].regs) { auto cand = unit_candidates(srvs[ch.tgt], r.first); if(cand.size() == 1 && cand[0].first == 0) { unit = (u8)r.first; found = true; break; } }
        if(!found) return true;
    }
    else for(auto& x : sesss) if(x.second.chan == c) { unit = x.second.unit; break; }
    if(ch.dropped) return true;
    if(!sut::session_create(s, c, unit, (i64)(2 * SEC))) { violation("C05", "no-session", "an open channel refused to create a session"); return true; }
    Sess se;
    se.chan = c;
    se.unit = unit;
    se.timeout = 2 * SEC;
    sesss[s] = se;
    int rid = g_probe_rid = issue(s, RHR, 3, -1, 0, -1, 0);
    wait_until([rid] { return reqs[rid]->n_done > 0; }, now() + 3 * SEC);
    Req& q = *reqs[rid];
    if(!q.n_done) { violation(P("C01,C05"), "never-completed", "a request issued after all faults ended never completed"); return true; }
    return q.res.kind == sut::K_OK;
}
static bool probe_server(int v)
{
    Srv& s = srvs[v];
    int r = 60 + (g_final_id++ % 30);
    while(raws.count(r)) ++r;
    if(r >= 98) return true;
    Op o;
    o.kind = RAW_OPEN;
    o.a = {0, r, v};
    exec(o);
    Raw& w = raws[r];
    if(!w.p->connected) return false;
    u64 sent = 0;
    std::vector<int> units;
    for(auto& x : s.regs) units.push_back(x.first);
    for(int unit : units)
    {
        auto cand = unit_candidates(s, unit);
        if(cand.size() != 1 || cand[0].first != 0) continue;
        Op p;
        p.kind = RAW_SEND;
        p.a = {0, r, unit, RHR, 1, 4, 7, 0, 0};
        exec(p);
        ++sent;
        if(sent >= 3) break;
    }
    bool ok = wait_until([&w, sent] { return w.replies >= sent || w.dead; }, now() + 2 * SEC);
    bool good = ok && !w.dead;
    Op c;
    c.kind = RAW_CTL;
    c.a = {0, r, 0};
    exec(c);
    sleep_ns(20 * MS);
    return good;
}

static void check_raws_settled()
{
    for(auto& x : raws)
    {
        Raw& w = x.second;
        if(!w.opened) continue;
        Srv& s = srvs[w.v];
        for(size_t i = 0; i < s.accepted.size(); ++i) if(s.accepted[i] == w.p->id) w.accept_idx = (int)i;
    }
    for(auto& x : raws)
    {
        Raw& w = x.second;
        if(!w.opened || !w.p->connected) continue;
        Srv& s = srvs[w.v];
        if(s.shut || !s.started) continue;
        bool natural = w.ended || w.half || w.loose || w.p->tag || net_conn_faults_possible();
        bool evicted = w.server_closed && !natural;
        if(evicted)
        {
            stat("evictions_checked");
            // the server may only drop it because at least max newer connections were accepted
            if(w.accept_idx < 0) violation("C09", "dropped-unaccepted", "a connection was dropped by the server before it was accepted");
            else
            {
                size_t newer = 0;
                for(size_t i = w.accept_idx + 1; i < s.accepted.size(); ++i) if(s.accept_t[i] <= w.t_server_closed) ++newer;
                if(newer < s.maxc) violation("C09,C07", "dropped-without-need", "the server dropped a healthy connection although only " + std::to_string(newer) + " newer connections were accepted (limit " + std::to_string(s.maxc) + ")");
                for(auto& y : raws)
                {
                    Raw& z = y.second;
                    if(&z == &w || z.v != w.v || z.accept_idx < 0 || z.accept_idx >= w.accept_idx || z.loose) continue;
                    bool open_then = (!z.server_closed || z.t_server_closed > w.t_server_closed + 500 * MS) && (!z.t_ended || z.t_ended > w.t_server_closed + 500 * MS);
                    if(open_then) violation("C09", "wrong-victim", "the server dropped a connection although an older one was still open");
                }
            }
        }
        if(!natural && !w.server_closed && !w.paused)
        {
            stat("raw_streams_checked");
            for(auto& e : w.exp)
                if(!e.alts.empty() && !e.maybe_silent)
                {
                    violation(e.props, "no-reply", "the server never answered " + e.what);
                    break;
                }
            for(auto& cc : w.customs)
                if(!cc.optional) { violation("C20", "request-not-delivered", "a request for user session " + std::to_string(cc.k) + " never reached it: " + spec_str(cc.spec)); break; }
        }
    }
    for(auto& x : srvs)
    {
        Srv& s = x.second;
        if(!s.exists || s.shut || !s.started) continue;
        size_t open = 0;
        for(auto& y : raws) if(y.second.v == x.first && y.second.accept_idx >= 0 && y.second.p->peer_open() && !y.second.ended && !y.second.half) ++open;
        stat("limits_checked");
        if(open > s.maxc) violation("C09", "limit-exceeded", std::to_string(open) + " connections stay open on a server limited to " + std::to_string(s.maxc));
    }
}

static void check_lin()
{
    for(auto& d : dbs)
        for(auto& sl : d.second.lin)
        {
            auto& h = sl.second;
            if(h.empty()) continue;
            ModelDb init;
            for(int t = 0; t < 4; ++t)
                for(int i = 0; i < SL; ++i)
                {
                    u16 a = (u16)(sl.first * SL + i);
                    if(d.second.model.t[t].count(a)) init.t[t][a] = init_val(d.first, t, a);
                }
            std::string why;
            LinVerdict v = lin_check(init, h, 60000, why);
            stat(v == LIN_UNKNOWN ? "lin_undecided" : "lin_checked");
            stat("lin_ops", h.size());
            if(v == LIN_VIOLATION) violation(sl.first == 0 ? "C14,C06" : "C06", "not-linearizable", "database " + std::to_string(d.first) + " slice " + std::to_string(sl.first) + ": " + why);
        }
}

// a schedule on a healthy connection, step by step: stop, period, start, chain, new period
static void schedule_phase(int qi)
{
    auto ctl = [qi](i64 what, i64 val) { Op o; o.kind = SCHED_CTL; o.a = {0, qi, what, val}; schs[qi].ctl_fiber = -2; exec(o); };
    auto q = [qi]() -> Sch& { return schs[qi]; };
    bool was = q().want_running, run = false;
    i64 f = 0;
    const u64 F = 800 * MS, G = 300 * MS;
    u64 fmax = 0;
    for(auto& x : q().freqs) fmax = std::max<u64>(fmax, (u64)x.v);
    u64 slow = 0;                         // one outcome of every schedule of the channel may come first
    for(auto& s : schs) if(s.second.exists && s.second.chan == q().chan) slow += 20 * MS;
    auto lost = [st = stall_now()] { return stall_now() - st; };
    stat("schedule_scripts");
    ctl(0, 0);
    sleep_ns((u64)q().timeout + G);
    u64 p0 = q().polls;
    sleep_ns(2 * fmax + G);
    if(q().polls != p0) { violation("C11", "polls-after-stop", "a schedule kept polling after it was stopped"); return; }
    if(sut::sched_running(qi, run, f) && run) violation("C11", "running-after-stop", "a stopped schedule reports running");
    ctl(2, (i64)(F / US));
    sleep_ns(G);
    if(sut::sched_running(qi, run, f) && f != (i64)F) violation("C11", "period-not-applied", "the polling period reads back as " + ms(f) + " after it was set to " + ms(F));
    if(q().polls != p0) violation("C11", "polls-after-stop", "setting the period of a stopped schedule started it");
    // a fresh start polls at once, then in the period
    u64 r0 = q().results, last = now(), st = stall_now();
    ctl(1, 0);
    for(int k = 0; k < 4; ++k)
    {
        u64 r = r0 + (u64)k;
        u64 due = k ? F : 0;
        wait_until([&] { return q().results > r; }, last + due + G + slow + lost());
        u64 gap = now() - last, more = stall_now() - st;
        if(q().results <= r) { violation("C11", k ? "poll-late" : "start-without-poll", k ? "the next outcome of a schedule took more than " + ms(gap) + " at a period of " + ms(F) : std::string("starting a schedule does not poll")); return; }
        if(k && gap + more < F) violation("C11", "poll-too-early", "two outcomes of a schedule came " + ms(gap) + " apart at a period of " + ms(F));
        last = now();
        st = stall_now();
        sut::sched_running(qi, run, f);
        if(!k && !run) violation("C11", "not-running", "a schedule that was started reports not running");
    }
    // starting what runs changes nothing
    ctl(1, 0);
    ctl(1, 0);
    sleep_ns(G);
    u64 r1 = q().results, lo = lost();
    if(r1 > r0 + 5) violation("C11", "second-chain", "starting a running schedule polled again at once");
    sleep_ns(4 * F);
    lo = lost() - lo;
    if(q().results - r1 > 5 + lo / F) violation("C11", "second-chain", "a schedule that was started twice polled " + std::to_string(q().results - r1) + " times in four periods");
    if(q().results - r1 < 3 && lo < 50 * MS) violation("C11", "schedule-died", "a schedule that was started twice polled " + std::to_string(q().results - r1) + " times in four periods");
    // a new period holds from the next wait on
    const u64 F2 = 400 * MS;
    ctl(2, (i64)(F2 / US));
    sleep_ns(F + G);
    u64 r2 = q().results;
    lo = lost();
    sleep_ns(10 * F2);
    lo = lost() - lo;
    u64 n = q().results - r2;
    if(n > 11 || (n < 7 && lo < 50 * MS)) violation("C11", "period-not-applied", std::to_string(n) + " outcomes in " + ms(10 * F2) + " after the period was set to " + ms(F2));
    // stop and start in a row: one chain
    ctl(0, 0);
    ctl(1, 0);
    ctl(0, 0);
    ctl(1, 0);
    sleep_ns(G + slow);
    u64 r3 = q().results;
    sleep_ns(8 * F2);
    n = q().results - r3;
    if(n > 9) violation("C11", "second-chain", "a schedule that was stopped and started polled " + std::to_string(n) + " times in eight periods");
    if(!was) { ctl(0, 0); sleep_ns((u64)q().timeout + G); }
    schs[qi].ctl_fiber = -2;
}

// the device moves: its names resolve to another address
static void rename_phase(int di)
{
    auto d = devs[di];
    u32 old = d->ip, ip = ip4(192, 168, 2, 1 + di);
    raw_listen(ip, d->port, [d](RawPtr r) { dev_accept(d, r); });
    dev_names(di, ip);
    bool gone = C.salt / 11 % 2;
    for(auto& c : chans) if(c.second.exists && !c.second.shut && c.second.tkind == 0 && c.second.tgt == di && (c.second.hostmode == 0 || c.second.hostmode == 3)) gone = false;
    if(gone) raw_unlisten(old, d->port);
    for(int k = 0; k < 2; ++k)
    {
        sleep_ns(100 * MS);              // connections under way
        for(auto& c : d->conns) if(c->raw->local_ip == old) dev_close(c.get(), C.salt / 13 % 2);
    }
    sleep_ns(50 * MS);
    for(auto& c : chans)
    {
        Chan& ch = c.second;
        bool named = ch.hostmode == 1 || ch.hostmode == 2 || ch.hostmode >= 5;
        if(!ch.exists || ch.shut || ch.dropped || ch.tkind != 0 || ch.tgt != di || !named || ch.adapter == 2 || ch.adapter == 3) continue;
        stat("renames_checked");
        if(!probe_chan(c.first) && !probe_chan(c.first)) { violation(P("C05,C16"), "not-recovered", "after the device moved to another address, two consecutive requests of a channel failed"); continue; }
        if(g_probe_rid < 0) continue;
        auto& q = *reqs[g_probe_rid];
        if(q.conn && q.conn->raw->local_ip != ip) violation("C16", "wrong-address", "after the name changed to " + ip_str(ip) + ", a channel connected to " + ip_str(q.conn->raw->local_ip));
    }
}

// what was shut down accepts nothing any more
static void refusal_phase()
{
    bool any = false;
    std::vector<int> qs;
    for(auto& c : chans)
    {
        Chan& ch = c.second;
        if(!ch.exists || !ch.seq_shut || ch.dropped || mgrs[ch.mgr].shut) continue;
        stat("refusals_checked");
        any = true;
        int id = ++g_final_id;
        if(sut::session_create(id, c.first, 3, (i64)SEC)) { violation("C12", "session-after-shutdown", "a client channel that was shut down created a session"); sut::session_drop(id); }
        for(auto& s : sesss)
            if(s.second.chan == c.first && !s.second.dropped)
            {
                issue(s.first, RHR, 2, 300000, 5, -1, 0);
                issue(s.first, WSR, 1, 300000, 6, -1, 0);
                if(ch.tkind == 0)
                {
                    Op o;
                    o.kind = SCHED;
                    int q = 900 + s.first;
                    o.a = {0, s.first, RIR, 2, 100000, 50000, q, 0};
                    exec(o);
                    if(schs.count(q) && schs[q].exists) { schs[q].racy = false; qs.push_back(q); }
                }
                break;
            }
    }
    for(auto& v : srvs)
    {
        Srv& s = v.second;
        if(!s.exists || !s.shut || s.dropped || mgrs[s.mgr].shut) continue;
        any = true;
        stat("refusals_checked");
        sut::server_start(v.first);
        for(auto& d : dbs) if(d.second.exists) { sut::server_add_db(v.first, 200, d.first); break; }
    }
    if(!any) return;
    sleep_ns(800 * MS);
    for(int q : qs) if(schs[q].polls || schs[q].results) violation("C12,C11", "polls-after-stop", "a schedule made on a channel that was shut down polls");
    for(auto& v : srvs)
        if(v.second.exists && v.second.shut && sut_listening(v.second.ip, v.second.port)) violation("C12", "still-listening", "a server that was shut down still listens");
}

// frames that answer nothing, without end, leave nothing behind
static void flood_phase(int c)
{
    Chan& ch = chans[c];
    DevConn* d = nullptr;
    for(auto& x : devs[ch.tgt]->conns) if(!x->dead && x->chan == c && x->clean) d = x.get();
    int s = -1;
    for(auto& x : sesss) if(x.second.chan == c && x.first >= 5000 && !x.second.shut) s = x.first;
    if(!d || s < 0) return;
    auto flood = [&](i64 n) { Op o; o.kind = DEV_CTL; o.a = {0, ch.tgt, 7, n}; exec(o); sleep_ns((u64)n * 20 * US + 200 * MS); };
    flood(300);
    u64 m1 = sut_live_bytes();
    flood(900);
    u64 m2 = sut_live_bytes();
    stat("floods_checked");
    logf("flood: %llu -> %llu bytes", (unsigned long long)m1, (unsigned long long)m2);
    if(m2 > m1 + 8192) violation("C21", "memory-grows", "900 frames that answer nothing leave " + std::to_string(m2 - m1) + " bytes behind");
    Op o;
    o.kind = DEV_CTL;
    o.a = {0, ch.tgt, 7, 500};
    exec(o);
    int rid = issue(s, RHR, 2, 1000000, 1, -1, 0);
    wait_until([rid] { return reqs[rid]->n_done > 0; }, now() + 3 * SEC);
    if(!reqs[rid]->n_done) violation(P("C01"), "never-completed", "a request to a device that floods the connection never completed");
    else if(reqs[rid]->res.kind != sut::K_OK) violation(P("C02,C05"), "response-lost", "a request to a device that also sends frames answering nothing reported " + res_str(reqs[rid]->res));
}

static void settle()
{
    finals = true;
    finish_faults();
    net_heal();
    // user threads keep running with benign scheduling; the environment heals
    for(auto& d : devs)
    {
        d.second->faulty = false;
        if(!d.second->up) { d.second->up = true; dev_listen(d.second); }
        if(d.second->paused) { d.second->paused = false; for(auto& c : d.second->conns) c->raw->resume(); }
        for(auto& c : d.second->conns)
            if(!c->dead && (C.restart || !c->clean)) dev_close(c.get(), C.restart == 2);
    }
    for(auto& w : raws) if(w.second.paused) { w.second.paused = false; w.second.p->resume(); }
    // everything outstanding completes in bounded time
    u64 bound = 0;
    for(auto& c : chans)
    {
        u64 b = 0;
        for(int r : c.second.live) b += (u64)reqs[r]->timeout + 2 * SLACK;
        bound = std::max(bound, b);
    }
    i64 smax = 0;
    for(auto& s : schs) if(s.second.exists) smax = std::max(smax, s.second.timeout);
    bound += (u64)smax * (schs.size() + 1) + 1 * SEC + handler_sleep;
    wait_until([] { for(auto& c : chans) if(!c.second.live.empty() && !c.second.shut) return false; return true; }, now() + bound * 2);
    for(auto& c : chans)
        if(!c.second.shut)
            for(int r : c.second.live) { violation(P("C01"), "never-completed", "request " + spec_str(reqs[r]->spec) + " (issued " + ms(now() - reqs[r]->t_call) + " ago, timeout " + ms(reqs[r]->timeout) + ") never completed"); break; }
    for(auto& c : chans) stat("channels_drained");
    wait_until([] {
        for(auto& q : reqs) if(!q->valid && q->issued && !q->n_done && !q->after_shut && !chans[q->chan].shut) return false;
        return true;
    }, now() + 1 * SEC + handler_sleep);
    for(auto& q : reqs)
        if(!q->valid && q->issued && !q->n_done && !q->after_shut && !chans[q->chan].shut)
            violation("C01,C18", "never-completed", "the invalid request " + spec_str(q->spec) + " was neither rejected nor completed");
    wait_until([] { return net_dns_pending() == 0; }, now() + 60 * SEC);   // asio resolves names one after the other
    if(net_conn_faults_possible()) sleep_ns((u64)C.connect_timeout_ms * MS + 200 * MS);
    else sleep_ns(200 * MS);
    // schedules
    u64 maxper = 0;
    bool anysched = false;
    for(auto& s : schs)
        if(s.second.exists)
        {
            i64 f = 0;
            for(auto& x : s.second.freqs) f = std::max(f, x.v);
            if((u64)f > 4 * SEC) f = 20 * MS;           // schedules of minutes or hours are not waited for
            maxper = std::max<u64>(maxper, (u64)f + (u64)s.second.timeout);
            anysched = true;
        }
    if(anysched)
    {
        sleep_ns(maxper + 200 * MS);           // grace: last outcomes of stopped schedules
        for(auto& s : schs) { s.second.mark_polls = s.second.polls; s.second.mark_results = s.second.results; }
        sleep_ns(3 * maxper * (schs.size() + 1) + 200 * MS);
        for(auto& s : schs)
        {
            Sch& q = s.second;
            if(!q.exists) continue;
            bool chan_dead = chans[q.chan].shut || chans[q.chan].tkind != 0 || chans[q.chan].adapter == 2 || chans[q.chan].adapter == 3;
            u64 dp = q.polls - q.mark_polls, dr = q.results - q.mark_results;
            if(q.racy) continue;
            stat("schedules_checked");
            if(!q.want_running && !q.ambiguous)
            {
                if(dp || dr) violation("C11", "polls-after-stop", "a stopped schedule kept polling: " + std::to_string(dp) + " polls, " + std::to_string(dr) + " outcomes");
                bool run = false; i64 f = 0;
                if(sut::sched_running(s.first, run, f) && run) violation("C11", "running-after-stop", "a stopped schedule reports running");
            }
            else if(q.ambiguous)
            {
                if(!q.want_running && (dp || dr)) violation("C11,C12", "polls-after-stop", "a schedule kept polling after its session or channel was shut down");
                bool run = false; i64 f = 0;
                if(!q.want_running && sut::sched_running(s.first, run, f) && run) violation("C11,C12", "running-after-stop", "a schedule reports running after its session or channel was shut down");
            }
            else if(!chan_dead)
            {
                bool slow = false;
                for(auto& x : q.freqs) if((u64)x.v > 4 * SEC) slow = true;
                if(dr < 2 && !slow) violation("C11,C05", "schedule-died", "a running schedule produced " + std::to_string(dr) + " outcomes in " + std::to_string((3 * maxper * (schs.size() + 1) + 200 * MS) / MS) + " ms");
                bool run = true; i64 f = 0;
                if(sut::sched_running(s.first, run, f) && !run) violation("C11", "stopped-by-itself", "a schedule that was not stopped reports not running");
            }
        }
    }
    // timers that were not cancelled fire
    u64 tmax = 0;
    for(auto& t : tims) if(t.second.exists && !t.second.canceled && !t.second.fired && t.second.dur < (i64)(20 * SEC)) tmax = std::max<u64>(tmax, (u64)std::max<i64>(0, t.second.dur));
    if(tmax) sleep_ns(tmax + 200 * MS);
    for(auto& t : tims)
    {
        Tim& x = t.second;
        if(!x.exists) continue;
        stat("timers_checked");
        if(chans[x.chan].shut) continue;
        if(!x.fired && !x.canceled && x.dur < (i64)(20 * SEC)) violation("C15", "timer-lost", "a timer of " + ms(x.dur) + " never fired");
        if(x.fired && x.t_fired > x.t_call + (u64)std::max<i64>(0, x.dur) + SLACK + (stall_now() - x.stall) + 200 * MS) violation("C15", "timer-late", "a timer of " + ms(x.dur) + " fired after " + ms(x.t_fired - x.t_call));
    }
    sleep_ns(100 * MS);
    check_raws_settled();
    // recovery
    for(auto& c : chans)
    {
        Chan& ch = c.second;
        if(!ch.exists || ch.shut || ch.tkind >= 2 || ch.adapter == 2 || ch.adapter == 3) continue;
        if(ch.tkind == 1 && (srvs[ch.tgt].shut || !srvs[ch.tgt].started)) continue;
        if(!C.probe_client) continue;
        bool ok = probe_chan(c.first) || probe_chan(c.first);
        stat("recovery_checked");
        if(!ok && ch.tkind == 1 && !chan_server_quiet(ch)) ok = probe_chan(c.first);
        if(!ok) violation(P(ch.tkind == 1 ? "C05,C09" : "C05"), "not-recovered", "after every fault ended, two consecutive requests of a channel failed");
    }
    for(auto& s : srvs)
    {
        if(!s.second.exists || s.second.shut || !s.second.started) continue;
        stat("recovery_checked");
        int v = s.first;
        if(!probe_server(v)) violation("C05,C09", "server-not-accepting", "after every fault ended, a fresh connection to the server got no service");
    }
    // reconnect cycles: resources stay bounded
    if(C.restart && C.probe_client)
    {
        std::vector<u64> blocks, socks;
        for(int k = 0; k < 5; ++k)
        {
            for(auto& d : devs) for(auto& c : d.second->conns) dev_close(c.get(), C.restart == 2);
            sleep_ns(50 * MS);
            for(auto& c : chans)
            {
                if(!c.second.exists || c.second.shut || c.second.tkind != 0 || c.second.adapter == 2 || c.second.adapter == 3) continue;
                int s = -1;
                for(auto& x : sesss) if(x.second.chan == c.first && x.first >= 5000) s = x.first;
                if(s < 0) continue;
                int rid = issue(s, RIR, 2, -1, k, -1, 0);
                wait_until([rid] { return reqs[rid]->n_done > 0; }, now() + 3 * SEC);
                if(!reqs[rid]->n_done) violation(P("C01,C05"), "never-completed", "a request issued after a reconnect never completed");
                else if(reqs[rid]->res.kind != sut::K_OK) violation(P("C05"), "not-recovered", "a request on a fresh connection reported " + std::string(sut::kind_name(reqs[rid]->res.kind)));
            }
            sleep_ns(20 * MS);
            blocks.push_back(sut_live_blocks());
            socks.push_back((u64)sut_open_sockets());
        }
        stat("resource_cycles");
        bool grow = true, sgrow = true;
        for(size_t i = 2; i < blocks.size(); ++i) { if(blocks[i] <= blocks[i - 1]) grow = false; if(socks[i] <= socks[i - 1]) sgrow = false; }
        bool sched_running = false;
        for(auto& s : schs) if(s.second.exists && s.second.want_running) sched_running = true;
        if(blocks.size() == 5 && grow && !sched_running) violation("C21", "memory-grows", "every reconnect leaves memory behind: " + std::to_string(blocks[1]) + " -> " + std::to_string(blocks[4]) + " blocks over 3 reconnects");
        if(socks.size() == 5 && sgrow) violation("C21", "sockets-grow", "every reconnect leaves a socket behind");
    }
    // the same for connections that come to a server and go
    for(auto& sv : srvs)
    {
        Srv& s = sv.second;
        if(!s.exists || s.shut || !s.started || (C.salt / 2) % 3) continue;
        bool busy = false;
        for(auto& q : schs) if(q.second.exists && q.second.want_running) busy = true;
        if(busy) continue;
        std::vector<u64> blocks, socks;
        for(int k = 0; k < 6; ++k)
        {
            for(int j = 0; j < 2; ++j)
            {
                u16 txn = 1;
                auto got = std::make_shared<int>(0);
                RawPtr p = raw_connect(s.ip, s.port, ip4(10, 0, 0, 78));
                p->on_data = [got](RawConn&, const Bytes& b) { *got += (int)b.size(); };
                wait_until([&] { return p->connected || p->failed; }, now() + 500 * MS);
                int unit = -1;
                for(auto& u : s.regs) { auto c = unit_candidates(s, u.first); if(c.size() == 1 && c[0].first == 0) unit = u.first; }
                ReqSpec r = make_spec(RHR, 1, 1, 0);
                if(unit >= 0 && p->connected) { p->send(mbap(txn, (u8)unit, encode_req(r))); wait_until([&] { return *got > 0; }, now() + 500 * MS); }
                if(k % 2 && j) p->reset(); else p->close();
                sleep_ns(20 * MS);
            }
            blocks.push_back(sut_live_blocks());
            socks.push_back((u64)sut_open_sockets());
        }
        stat("server_cycles");
        bool grow = true, sgrow = true;
        for(size_t i = 2; i < blocks.size(); ++i) { if(blocks[i] <= blocks[i - 1]) grow = false; if(socks[i] <= socks[i - 1]) sgrow = false; }
        if(grow) violation("C21", "memory-grows", "every connection to a server leaves memory behind: " + std::to_string(blocks[1]) + " -> " + std::to_string(blocks[5]) + " blocks over 8 connections");
        if(sgrow) violation("C21,C09", "sockets-grow", "every connection to a server leaves a socket behind");
    }
    refusal_phase();
    if((C.salt / 17) % 2 == 0)
    {
        std::set<int> moved;
        for(auto& c : chans)
            if(c.second.exists && !c.second.shut && c.second.tkind == 0 && (c.second.hostmode == 1 || c.second.hostmode == 2 || c.second.hostmode >= 5) && C.probe_client) moved.insert(c.second.tgt);
        for(int d : moved) rename_phase(d);
    }
    bool quiet = true;
    for(auto& s : schs) if(s.second.exists && (s.second.want_running || s.second.racy)) quiet = false;
    if((C.salt / 3) % 4 == 0 && quiet)
        for(auto& c : chans)
            if(c.second.exists && !c.second.shut && !c.second.dropped && c.second.tkind == 0 && c.second.adapter != 2 && c.second.adapter != 3) { flood_phase(c.first); break; }
    if((C.salt / 5) % 2 == 0)
        for(auto& s : schs)
        {
            Sch& q = s.second;
            if(!q.exists || q.racy || q.ambiguous || q.dropped || q.hflags) continue;
            bool slow = false;
            for(auto& x : q.freqs) if((u64)x.v > 4 * SEC) slow = true;
            if(slow) continue;
            Chan& ch = chans[q.chan];
            if(!ch.exists || ch.shut || ch.tkind != 0 || ch.adapter == 2 || ch.adapter == 3 || sesss[q.sess].shut || mgrs[ch.mgr].shut) continue;
            schedule_phase(s.first);
            break;
        }
    // a long time in which nothing happens
    bool waiting = false;
    for(auto& t : tims) if(t.second.exists && !t.second.fired && !t.second.canceled) waiting = true;
    if((C.salt / 7) % 5 == 0 && quiet && !waiting)
    {
        stat("idle_hours");
        sleep_ns(3600 * SEC);
        for(auto& c : chans)
        {
            Chan& ch = c.second;
            if(!ch.exists || ch.shut || ch.tkind >= 2 || ch.adapter == 2 || ch.adapter == 3 || !C.probe_client) continue;
            if(ch.tkind == 1 && (srvs[ch.tgt].shut || !srvs[ch.tgt].started)) continue;
            if(!probe_chan(c.first) && !probe_chan(c.first)) violation(P("C05,C01"), "not-recovered", "after an idle hour, two consecutive requests of a channel failed");
        }
        for(auto& s : srvs)
            if(s.second.exists && !s.second.shut && s.second.started && !probe_server(s.first)) violation("C05,C09", "server-not-accepting", "after an idle hour, a fresh connection to the server got no service");
    }
    {
        std::vector<int> gone;
        for(auto& s : srvs) if(s.second.exists && s.second.shut && !s.second.dropped) gone.push_back(s.first);
        for(int v : gone) reopen_server(v);
    }
    sleep_ns(100 * MS);
    // open sockets: one per live channel, one per listener, one per connection within the limit
    {
        int bound = 0, n = sut_open_sockets();
        for(auto& c : chans) if(c.second.exists) ++bound;
        for(auto& s : srvs)
            if(s.second.exists)
            {
                bound += 1;
                size_t peers = 0;
                for(auto& r : raws) if(r.second.v == s.first && r.second.p->connected && !r.second.ended) ++peers;
                for(auto& c : chans) if(c.second.tkind == 1 && c.second.tgt == s.first) ++peers;
                bound += (int)std::min<size_t>(peers, s.second.maxc);
            }
        stat("socket_bounds_checked");
        if(n > bound) violation("C21,C09", "socket-leak", std::to_string(n) + " sockets are open, at most " + std::to_string(bound) + " are accounted for");
    }
    check_lin();
}

// shutdown waits for the callbacks that are queued, the name lookups under way and the user's own timers
// the port of a server that was shut down can be used again at once
static void reopen_server(int v)
{
    Srv& old = srvs[v];
    int nv = v + 60, nd = v + 80;
    if(!old.exists || !old.shut || !mgrs[old.mgr].exists || mgrs[old.mgr].shut || srvs[nv].exists || srvs[nv].shut || dbs[nd].exists) return;
    for(auto& s : srvs) if(s.first != v && s.second.exists && !s.second.shut && s.second.ip == old.ip && s.second.port == old.port) return;
    for(auto& c : chans) if(c.second.exists && !c.second.shut && c.second.tkind == 1 && c.second.tgt == v) return;
    auto op = [](int kind, std::vector<i64> a) { a.insert(a.begin(), 0); Op o; o.kind = kind; o.a = a; exec(o); };
    int m = old.mgr;
    op(MK_DB, {nd, 0});
    op(MK_SRV, {nv, m, 4, 0, (i64)old.port - nv, old.ip == ip4(10, 0, 0, 1) ? 2 : 1});
    stat("servers_reopened");
    if(!srvs[nv].exists) { violation("C12,C21", "address-still-in-use", "a server cannot listen on the address of one that was shut down"); return; }
    op(ADD_SESS, {nv, 1, 0, nd});
    op(START_SRV, {nv});
    if(!probe_server(nv)) violation("C12,C09", "server-not-accepting", "a server on the address of one that was shut down gives no service");
}
static u64 shutdown_bound(int m)
{
    bool slow = C.dns_slow;
    for(auto& c : chans) if(c.second.hostmode == 4) slow = true;
    u64 b = 2 * SEC + (slow ? 11 * SEC * (chans.size() + 1) : 0) + C.connect_timeout_ms * MS + handler_sleep;
    u64 left = 0;
    for(auto& t : tims)
    {
        Tim& x = t.second;
        if(!x.exists || x.fired || x.canceled || chans[x.chan].mgr != m) continue;
        u64 e = x.t_ret + (u64)std::max<i64>(0, x.dur);
        if(e > now()) left = std::max(left, e - now());
    }
    return b + left;
}
static void no_threads(int m)
{
    int n = live_threads(mgrs[m].t_lo, mgrs[m].t_hi);
    if(n) violation("C12", "thread-survives", std::to_string(n) + " background threads are still running after the manager was shut down");
}
static void teardown()
{
    u64 t0 = now();
    std::vector<int> ms_;
    for(auto& m : mgrs) if(m.second.exists && !m.second.destroyed) ms_.push_back(m.first);
    i64 mode = C.teardown % 6;
    logf("teardown mode %lld", (long long)mode);
    if(mode == 4 || mode == 5)
    {
        // requests in flight while the manager goes away
        finals = false;
        std::vector<int> ss;
        for(auto& s : sesss) if(!chans[s.second.chan].shut) ss.push_back(s.first);
        // sometimes to devices that have gone silent, with plenty of patience
        bool silent = C.salt % 2;
        if(silent) for(auto& d : devs) { d.second->paused = true; ++d.second->faults; for(auto& c : d.second->conns) c->raw->pause(); }
        for(size_t i = 0; i < ss.size() && i < 4; ++i) issue(ss[i], (int)(i % N_TYPES), 1, silent ? 90000000 : -1, i + 3, -1, 0);
        finals = true;
        if(mode == 5) sleep_ns(silent ? 5 * MS : 300 * US);
    }
    auto shut_mark = [&](int m) {
        mgrs[m].shut = true;
        for(auto& c : chans) if(c.second.mgr == m) c.second.shut = true;
        for(auto& s : srvs) if(s.second.mgr == m) s.second.shut = true;
    };
    auto drop_all = [&] {
        for(auto& s : schs) sut::sched_drop(s.first);
        for(auto& t : tims) sut::timer_drop(t.first);
        for(auto& s : sesss) sut::session_drop(s.first);
        for(auto& c : chans) sut::client_drop(c.first);
        for(auto& s : srvs) sut::server_drop(s.first);
    };
    if(mode == 1) drop_all();
    if(mode == 3)
    {
        std::vector<int> cs, vs;
        for(auto& c : chans) if(c.second.exists && !mgrs[c.second.mgr].shut) cs.push_back(c.first);
        for(auto& s : srvs) if(s.second.exists && !mgrs[s.second.mgr].shut) vs.push_back(s.first);
        for(int c : cs) { chans[c].shut = true; sut::client_shutdown(c); }
        for(int v : vs) { srvs[v].shut = true; sut::server_shutdown(v); }
        sleep_ns(200 * MS);
        for(auto& w : raws)
            if(w.second.opened && w.second.p->connected && !w.second.ended && w.second.p->peer_open() && srvs[w.second.v].shut && !late_server)
                violation("C12", "connection-survives-shutdown", "a connection to a server that was shut down is still open");
        for(int v : vs) if(sut_listening(srvs[v].ip, srvs[v].port)) violation("C12", "still-listening", "a server that was shut down still listens");
        if(C.salt % 3)
            for(int v : vs)
            {
                reopen_server(v);
                // and this one goes as well
                if(srvs.count(v + 60) && srvs[v + 60].exists) { srvs[v + 60].shut = true; sut::server_shutdown(v + 60); }
            }
    }
    if(mode == 0 || mode == 3)
        for(int m : ms_)
        {
            shut_mark(m);
            u64 t1 = now(), bound = shutdown_bound(m);
            sut::mgr_shutdown(m);
            mgrs[m].shut_returned = true;
            no_threads(m);
            if(now() > t1 + bound) violation("C12", "shutdown-slow", "shutdown took " + ms(now() - t1));
        }
    if(mode == 0 || mode == 3) { sleep_ns(100 * MS); if(mode == 3) for(int m : ms_) sut::mgr_shutdown(m); }
    for(int m : ms_)
    {
        shut_mark(m);
        u64 t1 = now(), bound = shutdown_bound(m);
        sut::mgr_destroy(m);
        mgrs[m].destroyed = true;
        mgrs[m].shut_returned = true;
        no_threads(m);
        if(now() > t1 + bound) violation("C12", "shutdown-slow", "destroying the manager took " + ms(now() - t1));
    }
    callbacks_forbidden = true;
    stat("teardowns");
    (void)t0;

    if(mode != 1) drop_all();
    // a little later nothing happens any more
    sleep_ns(100 * MS);
    for(auto& d : dbs) sut::db_drop(d.first);
    for(auto& k : custs) sut::custom_drop(k.first);
    if(sut_open_sockets() && !late_server) violation("C12,C21", "socket-survives", std::to_string(sut_open_sockets()) + " sockets survive the manager");
    sleep_ns(50 * MS);
    for(auto& w : raws)
        if(w.second.opened && w.second.p->connected && !w.second.ended && w.second.p->peer_open() && !late_server)
            violation("C12", "connection-survives-shutdown", "a connection to a destroyed server is still open");
    std::string what;
    if(sut::object_alive(what, late_use)) violation("C12,C21", "object-leak", "library objects survive the manager and every user reference: " + what);
    what.clear();
    int n = sut::tokens_alive(what, late_use);
    if(n) violation("C12,C21", "callback-leak", std::to_string(n) + " user objects handed to the library are never released: " + what);
    for(auto& k : custs)
        if(k.second.exists && k.second.regs == 1 && k.second.shutdowns == 0)
        {
            // its server was shut down while it was registered (unless it was replaced)
            bool current = false;
            for(auto& s : srvs) for(auto& u : s.second.regs) if(!u.second.empty() && u.second.back().kind == 1 && u.second.back().idx == k.first && u.second.size() == 1) current = true;
            if(current) violation("C12,C20", "session-not-shut-down", "a registered server session was never shut down");
        }
}

static void apply_cfg()
{
    NetCfg n;
    n.short_read = C.short_read; n.short_write = C.short_write; n.read_eagain = C.read_eagain; n.write_eagain = C.write_eagain; n.eintr = C.eintr;
    n.open_fail = C.open_fail; n.bind_fail = C.bind_fail; n.dns_fail = C.dns_fail; n.dns_slow = C.dns_slow;
    n.accept_emfile = C.accept_emfile; n.accept_abort = C.accept_abort; n.refuse = C.refuse; n.conn_timeout = C.conn_timeout; n.unreach = C.unreach;
    n.rst = C.rst; n.segment = C.segment; n.partition = C.partition; n.epoll_subset = C.epoll_subset; n.timer_late = C.timer_late;
    n.lat_min = (u64)C.lat_us * US; n.lat_jitter = (u64)C.jit_us * US; n.partition_max = (u64)C.partition_ms * MS; n.connect_timeout = (u64)C.connect_timeout_ms * MS;
    n.emfile_window = (u64)C.emfile_ms * MS; n.sndbuf = (u32)C.sndbuf; n.rcvbuf = (u32)C.rcvbuf; n.timerfd = C.timerfd; n.eventfd = C.eventfd;
    g_net = n;
    if(C.sndbuf < 4096 || C.rcvbuf < 4096) count_fault(F_SMALL_BUF);
    SchedCfg s;
    s.mode = (u32)C.sched_mode; s.mean_quantum = (u32)C.quantum; s.stall_permille = (u32)C.stall_pm; s.stall_max = (u64)C.stall_us * US;
    s.cpu_ns_per_step = (u32)C.cpu_ns; s.spurious_permille = (u32)C.spurious;
    set_sched(s);
}

void run_case(const Case& cs)
{
    C = cs.cfg;
    apply_cfg();
    u64 start = now();
    name_addr("nobody", {ip4(192, 168, 9, 5), ip4(192, 168, 8, 5), 1});
    g_on_connect_attempt = [](const char* src, u32 ip, u16 port) {
        bool asked = false;
        for(auto& c : chans)
        {
            Chan& ch = c.second;
            if(ch.host.empty() || ch.port != port || ch.adapter == 2 || ch.adapter == 3) continue;
            auto n = names.find(ch.host);
            if(n != names.end() ? !n->second.count(ip) : ip_str(ip) != ch.host) continue;
            bool auto_src = strcmp(src, "10.0.0.1") == 0 || strncmp(src, "127.", 4) == 0;
            if(ch.adapter == 1 ? strcmp(src, "10.0.0.2") == 0 : auto_src) asked = true;
        }
        stat("attempts_checked");
        if(!asked) violation("C16", "wrong-address", std::string("a connection was attempted from ") + src + " to " + ip_str(ip) + ":" + std::to_string(port) + ", which no channel was asked to use");
        for(auto& d : devs) if(d.second->ip == ip && d.second->port == port && !d.second->up) ++d.second->faults;
    };
    g_on_sut_accept = [](int id, u16 port) {
        for(auto& s : srvs) if(s.second.port == port) { s.second.accepted.push_back(id); s.second.accept_t.push_back(now()); }
    };
    std::map<int, std::vector<const Op*>> lanes;
    for(auto& o : cs.ops)
    {
        if(o.lane < 0) exec(o);
        else lanes[o.lane].push_back(&o);
    }
    // slices of end-to-end channels
    for(auto& c : chans)
        if(c.second.tkind == 1 && srvs.count(c.second.tgt))
            for(auto& u : srvs[c.second.tgt].regs) for(auto& r : u.second) if(r.kind == 0) ensure_slice(r.idx, 100 + c.first);
    in_setup = false;
    t_lanes = now();
    std::vector<int> ids;
    for(auto& l : lanes)
    {
        auto* v = &l.second;
        ids.push_back(spawn(l.first >= 100 ? "env" : "user", [v] {
            Harness h;
            for(auto* o : *v) exec(*o);
        }));
    }
    for(int id : ids) join(id);
    logf("lanes done");
    settle();
    teardown();
    g_sim_time = now() - start;
}
} // namespace harn
