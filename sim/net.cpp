// Simulated OS surface.  Not instrumented.
#include "net.h"
#include "internal.h"

#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <set>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <unistd.h>
#include <unordered_map>

namespace sim
{
NetCfg g_net;
std::function<void(const char*, u32, u16)> g_on_connect_attempt;
std::function<void(int, u16)> g_on_sut_accept;
constexpr int FD0 = 1000;

static bool fault(FaultKind k, u32 permille)
{
    if(!permille) return false;
    if(!chance(ST_FAULT, permille, 1000)) return false;
    count_fault(k);
    logf("fault %s", fault_name(k));
    return true;
}

std::string hex(const Bytes& b, size_t max)
{
    std::string s;
    char t[4];
    for(size_t i = 0; i < b.size() && i < max; ++i) { snprintf(t, sizeof t, "%02x", b[i]); s += t; }
    if(b.size() > max) s += "..(" + std::to_string(b.size()) + ")";
    return s;
}
std::string ip_str(u32 ip)
{
    char b[32];
    snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255);
    return b;
}

// ------------------------------------------------------------------ files --
struct Epoll;
struct EpItem
{
    struct File* file;
    Epoll* ep;
    int fd;
    u32 events;
    epoll_data_t data;
    bool ready;
};
enum FileKind { K_SOCK, K_EPOLL, K_EVENTFD, K_TIMERFD, K_PIPE_R, K_PIPE_W };
struct File
{
    FileKind kind;
    int fd = -1;
    bool nonblock = false;
    std::vector<EpItem*> items;
    std::vector<Fiber*> waiters;     // blocking callers
    virtual ~File() {}
    virtual u32 mask() = 0;
    void notify(u32 ev);
};
struct Epoll : File
{
    std::map<int, EpItem*> members;
    std::vector<EpItem*> ready;
    std::vector<Fiber*> sleepers;
    Epoll() { kind = K_EPOLL; }
    u32 mask() override { return 0; }
    void make_ready(EpItem* it)
    {
        if(!it->ready) { it->ready = true; ready.push_back(it); }
        if(!sleepers.empty())
        {
            u64 k = choose(ST_SCHED, sleepers.size());
            Fiber* f = sleepers[k];
            sleepers.erase(sleepers.begin() + k);
            wake(f);
        }
    }
};
void File::notify(u32 ev)
{
    for(EpItem* it : items)
        if(it->events & (ev | EPOLLERR | EPOLLHUP) & (ev)) it->ep->make_ready(it);
    auto w = waiters;
    for(Fiber* f : w) wake(f);
}
struct EventFd : File
{
    u64 count = 0;
    EventFd() { kind = K_EVENTFD; }
    u32 mask() override { return (count ? EPOLLIN : 0) | EPOLLOUT; }
};
struct TimerFd : File
{
    u64 expirations = 0, interval = 0, next = 0, ev = 0;
    clockid_t clock = CLOCK_MONOTONIC;
    TimerFd() { kind = K_TIMERFD; }
    ~TimerFd() { cancel_event(ev); }
    u32 mask() override { return expirations ? EPOLLIN : 0; }
    void arm(u64 when)
    {
        cancel_event(ev);
        ev = 0;
        next = when;
        if(!when) return;
        u64 late = 0;
        if(fault(F_TIMER_LATE, g_net.timer_late)) late = (choose(ST_FAULT, 50) + 1) * 100 * US;
        at_cancelable(when + late, [this] {
            ev = 0;
            ++expirations;
            notify(EPOLLIN);
            if(interval) arm(next + interval);
        }, ev);
    }
};
struct PipeBuf { std::deque<u8> q; struct PipeR* r = nullptr; struct PipeW* w = nullptr; };
struct PipeR : File
{
    std::shared_ptr<PipeBuf> b;
    PipeR() { kind = K_PIPE_R; }
    u32 mask() override { return (b->q.empty() ? 0 : EPOLLIN) | (b->w ? 0 : EPOLLHUP); }
};
struct PipeW : File
{
    std::shared_ptr<PipeBuf> b;
    PipeW() { kind = K_PIPE_W; }
    u32 mask() override { return EPOLLOUT; }
};

// -------------------------------------------------------------------- TCP --
struct Sock;
struct End
{
    int id = 0;
    End* peer = nullptr;
    Sock* sock = nullptr;           // SUT side
    std::weak_ptr<RawConn> raw;     // harness side
    bool is_raw = false;
    u32 lip = 0, rip = 0;
    u16 lport = 0, rport = 0;
    std::deque<u8> sndq;            // accepted from us, not yet delivered to peer
    u64 in_flight_cut = 0;
    bool fin_queued = false, fin_sent = false;
    std::deque<u8> rcvq;            // delivered to us, not yet read
    bool fin_rcvd = false;
    bool rst = false;               // connection reset (seen by us)
    int err = 0;
    bool wr_shut = false, rd_shut = false, closed = false;
    bool established = false;
    bool nospace = false;
    bool pump_scheduled = false;
    u64 stalled_until = 0;
    u64 t_lost = 0;                 // when FIN or RST of the peer arrived
    size_t sndcap = 65536, rcvcap = 65536;
    bool paused = false;            // raw only
    u64 base_lat = 0;
    u64 written = 0;
    struct Write { u64 total, t, step; };
    std::vector<Write> writes;      // SUT side
};
struct Listener
{
    u32 ip;
    u16 port;
    Sock* sock = nullptr;
    std::function<void(RawPtr)> raw_accept;
    std::deque<End*> queue;
    size_t backlog = 128;
    bool closed = false;
};
struct Sock : File
{
    int family = AF_INET;
    u32 lip = 0;
    u16 lport = 0;
    bool bound = false;
    bool reuse = false;             // SO_REUSEADDR
    Listener* lis = nullptr;
    End* end = nullptr;
    bool connecting = false;
    int so_error = 0;
    bool conn_failed = false;
    u64 conn_ev = 0;
    Sock() { kind = K_SOCK; }
    size_t space() const { return end->sndq.size() >= end->sndcap ? 0 : end->sndcap - end->sndq.size(); }
    u32 mask() override
    {
        u32 m = 0;
        if(lis) return lis->queue.empty() ? 0 : EPOLLIN;
        if(connecting) return 0;
        if(!end) return EPOLLOUT | EPOLLHUP | (so_error ? EPOLLERR | EPOLLIN : 0);
        End* e = end;
        if(!e->rcvq.empty() || e->fin_rcvd || e->rst || e->rd_shut) m |= EPOLLIN;
        if(e->fin_rcvd || e->rd_shut) m |= EPOLLRDHUP;
        if(e->wr_shut || e->rst || space() * 3 >= e->sndcap) m |= EPOLLOUT;
        if(e->rst) m |= EPOLLHUP | EPOLLERR;
        if(e->fin_rcvd && e->wr_shut) m |= EPOLLHUP;
        return m;
    }
};

struct Net
{
    std::map<int, File*> fds;
    std::vector<Listener*> listeners;
    std::vector<End*> ends;
    struct TimeWait { u32 ip; u16 port; u64 until; bool reuse; };
    std::vector<TimeWait> time_wait;
    std::set<u32> local;
    std::map<std::string, std::vector<u32>> dns;
    int dns_pending = 0;
    u16 eph = 40000;
    int next_conn = 0;
    u64 delivered = 0;
    u64 emfile_until = 0;
    u64 partition_until = 0;
    std::vector<RawPtr> raws;
};
static Net* N;
void net_reset()
{
    N = new Net();
    N->local = {ip4(10, 0, 0, 1), ip4(10, 0, 0, 2)};
}
void add_local_addr(u32 ip) { N->local.insert(ip); }
void add_dns(const std::string& n, const std::vector<u32>& a) { N->dns[n] = a; }
u64 net_bytes_delivered() { return N->delivered; }
u64 net_conns() { return N->next_conn; }
int net_dns_pending() { return N->dns_pending; }
static bool is_local(u32 ip) { return ip == 0 || (ip >> 24) == 127 || N->local.count(ip); }

static int new_fd(File* f)
{
    int fd = FD0;
    while(N->fds.count(fd)) ++fd;
    f->fd = fd;
    N->fds[fd] = f;
    return fd;
}
static File* get(int fd)
{
    if(fd < FD0 || !N) return nullptr;
    auto it = N->fds.find(fd);
    return it == N->fds.end() ? nullptr : it->second;
}
static Sock* get_sock(int fd)
{
    File* f = get(fd);
    if(!f) { errno = EBADF; return nullptr; }
    if(f->kind != K_SOCK) { errno = ENOTSOCK; return nullptr; }
    return (Sock*)f;
}
static Listener* find_listener(u32 ip, u16 port)
{
    for(Listener* l : N->listeners) if(!l->closed && l->port == port && (l->ip == ip || l->ip == 0)) return l;
    return nullptr;
}
bool sut_listening(u32 ip, u16 port) { Listener* l = find_listener(ip, port); return l && l->sock; }
int sut_open_sockets() { int n = 0; for(auto& p : N->fds) if(p.second->kind == K_SOCK) ++n; return n; }
int sut_open_fds() { return (int)N->fds.size(); }

static u64 latency(End* e)
{
    u64 l = e->base_lat;
    if(g_net.lat_jitter)
    {
        u64 j = choose(ST_FAULT, 16);
        if(j) count_fault(F_LATENCY);
        l += g_net.lat_jitter * j / 16;
    }
    return l;
}

static void raw_deliver(End* e);
static void schedule_pump(End* e, u64 delay);

static void peer_wake_in(End* p)
{
    if(p->sock) p->sock->notify(EPOLLIN | EPOLLRDHUP);
    else if(p->is_raw) raw_deliver(p);
}
static void do_reset(End* e)   // e learns that the connection is reset
{
    if(e->rst || e->closed) return;
    e->rst = true;
    if(!e->t_lost) e->t_lost = now();
    e->err = ECONNRESET;
    e->sndq.clear();
    logf("conn %d reset at %s:%u", e->id, ip_str(e->lip).c_str(), e->lport);
    if(e->sock) { if(!e->sock->so_error) e->sock->so_error = ECONNRESET; e->sock->notify(EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP); }
    else if(e->is_raw)
        if(RawPtr r = e->raw.lock())
        {
            if(!r->peer_rst && !r->closed) { r->peer_rst = true; if(!r->t_peer_closed) r->t_peer_closed = now(); if(r->on_closed) r->on_closed(*r, true); }
        }
}
static void reset_both(End* e)
{
    End* p = e->peer;
    do_reset(e);
    if(p) do_reset(p);
}

// move bytes from e->sndq to e->peer->rcvq
static void pump(End* e)
{
    e->pump_scheduled = false;
    if(e->rst) return;
    End* p = e->peer;
    if(!p) return;
    u64 hold = std::max(e->stalled_until, N->partition_until);
    if(hold > now()) { schedule_pump(e, hold - now()); return; }
    if(fault(F_PARTITION, g_net.partition))
    {
        u64 d = (choose(ST_FAULT, 100) + 1) * (g_net.partition_max / 100);
        e->stalled_until = p->stalled_until = now() + d;
        logf("conn %d partitioned for %llu ms", e->id, (unsigned long long)(d / MS));
        schedule_pump(e, d);
        return;
    }
    if(e->sndq.size() && fault(F_RST, g_net.rst)) { reset_both(e); return; }
    if(p->closed)
    {
        // data to a closed socket: RST comes back
        if(!e->sndq.empty()) do_reset(e);
        return;
    }
    size_t room = p->rcvcap > p->rcvq.size() ? p->rcvcap - p->rcvq.size() : 0;
    size_t n = std::min(room, e->sndq.size());
    bool more = false;
    if(n > 1 && fault(F_SEGMENT, g_net.segment))
    {
        // a segment boundary anywhere in the stream
        size_t k = choose(ST_FAULT, 3) == 0 ? 1 + choose(ST_FAULT, n - 1) : 1 + choose(ST_FAULT, std::min<size_t>(n - 1, 16));
        n = std::min(n, k);
        more = true;
    }
    if(n)
    {
        p->rcvq.insert(p->rcvq.end(), e->sndq.begin(), e->sndq.begin() + n);
        e->sndq.erase(e->sndq.begin(), e->sndq.begin() + n);
        N->delivered += n;
        logf("conn %d deliver %zu bytes to %s:%u", e->id, n, ip_str(p->lip).c_str(), p->lport);
        if(e->is_raw)
            if(RawPtr r = e->raw.lock()) { r->delivered_total += n; if(r->on_delivered) r->on_delivered(*r); }
        peer_wake_in(p);
        // write space
        if(e->sock && e->nospace && (e->sock->space() * 3 >= e->sndcap)) { e->nospace = false; e->sock->notify(EPOLLOUT); }
    }
    if(!e->sndq.empty())
    {
        if(more) schedule_pump(e, latency(e));
        else if(p->rcvq.size() < p->rcvcap) schedule_pump(e, latency(e));
        // else: window closed, resumed when the receiver reads
    }
    else if(e->fin_queued && !e->fin_sent)
    {
        e->fin_sent = true;
        p->fin_rcvd = true;
        if(!p->t_lost) p->t_lost = now();
        logf("conn %d FIN to %s:%u", e->id, ip_str(p->lip).c_str(), p->lport);
        if(p->sock) p->sock->notify(EPOLLIN | EPOLLRDHUP | EPOLLHUP);
        else if(p->is_raw) raw_deliver(p);
    }
}
static void schedule_pump(End* e, u64 delay)
{
    if(e->pump_scheduled) return;
    e->pump_scheduled = true;
    after(delay, [e] { pump(e); });
}
static void kick(End* e)
{
    if(!e->sndq.empty() || (e->fin_queued && !e->fin_sent)) schedule_pump(e, latency(e));
}
static void reader_freed(End* e)   // e read bytes: its peer may send more
{
    End* p = e->peer;
    if(p && (!p->sndq.empty() || (p->fin_queued && !p->fin_sent))) schedule_pump(p, 10 * US);
}

static void end_close(End* e)
{
    if(e->closed) return;
    e->closed = true;
    e->sock = nullptr;
    End* p = e->peer;
    if(e->rst || !p) return;
    if(!e->rcvq.empty() && !e->is_raw)
    {
        // unread data at close: Linux sends RST instead of FIN
        logf("conn %d closed with unread data: RST", e->id);
        u64 l = latency(e);
        after(l, [p] { do_reset(p); });
        return;
    }
    e->wr_shut = true;
    if(!e->fin_queued) { e->fin_queued = true; kick(e); }
}

static End* make_pair(u32 cip, u16 cport, u32 sip, u16 sport)
{
    End* c = new End();
    End* s = new End();
    c->id = s->id = ++N->next_conn;
    c->peer = s;
    s->peer = c;
    c->lip = s->rip = cip;
    c->lport = s->rport = cport;
    c->rip = s->lip = sip;
    c->rport = s->lport = sport;
    c->base_lat = s->base_lat = g_net.lat_min;
    c->sndcap = s->sndcap = g_net.sndbuf;
    c->rcvcap = s->rcvcap = g_net.rcvbuf;
    N->ends.push_back(c);
    N->ends.push_back(s);
    return c;
}

// --------------------------------------------------------------- raw side --
static void raw_deliver(End* e)
{
    RawPtr r = e->raw.lock();
    if(!r || r->closed) return;
    if(e->paused) return;
    if(!e->rcvq.empty())
    {
        Bytes b(e->rcvq.begin(), e->rcvq.end());
        e->rcvq.clear();
        reader_freed(e);
        if(r->on_data) r->on_data(*r, b);
    }
    if(e->fin_rcvd && !r->peer_fin)
    {
        r->peer_fin = true;
        if(!r->t_peer_closed) r->t_peer_closed = now();
        if(r->on_closed) r->on_closed(*r, false);
    }
}
static RawPtr make_raw(End* e)
{
    auto r = std::make_shared<RawConn>();
    r->end = e;
    r->id = e->id;
    r->local_ip = e->lip;
    r->remote_ip = e->rip;
    r->local_port = e->lport;
    r->remote_port = e->rport;
    e->raw = r;
    e->is_raw = true;
    N->raws.push_back(r);
    return r;
}
void RawConn::send(const Bytes& b)
{
    if(closed || !end || end->rst || end->wr_shut) return;
    end->sndq.insert(end->sndq.end(), b.begin(), b.end());
    sent_total += b.size();
    kick(end);
}
void RawConn::shutdown_wr()
{
    if(closed || !end || end->wr_shut) return;
    end->wr_shut = true;
    end->fin_queued = true;
    kick(end);
}
void RawConn::close()
{
    if(closed) return;
    closed = true;
    if(end) end_close(end);
}
void RawConn::reset()
{
    if(closed || !end) return;
    closed = true;
    end->closed = true;
    End* p = end->peer;
    end->sndq.clear();
    if(p) do_reset(p);
}
void RawConn::pause() { if(end) end->paused = true; }
void RawConn::resume()
{
    if(!end || !end->paused) return;
    end->paused = false;
    End* e = end;
    after(1, [e] { raw_deliver(e); });
}
u64 RawConn::unsent() const { return end ? end->sndq.size() : 0; }
u64 RawConn::unread_by_peer() const { return end && end->peer ? end->peer->rcvq.size() : 0; }
void RawConn::peer_write_time(u64 off, u64& t, u64& step) const
{
    t = now();
    step = steps();
    if(end && end->peer) for(auto& w : end->peer->writes) if(w.total > off) { t = w.t; step = w.step; return; }
}
u64 RawConn::peer_lost() const { return end && end->peer ? end->peer->t_lost : 0; }
bool RawConn::peer_open() const { return end && end->peer && !end->peer->closed && !end->rst && !end->peer->rst && !end->fin_rcvd; }

// complete a connection attempt towards l.  Returns the client End.
static void establish(End* c, Listener* l)
{
    End* s = c->peer;
    c->established = s->established = true;
    if(l->sock)
    {
        l->queue.push_back(s);
        l->sock->notify(EPOLLIN);
    }
    else
    {
        RawPtr r = make_raw(s);
        r->connected = true;
        r->t_connected = now();
        l->raw_accept(r);
    }
}

RawPtr raw_connect(u32 dst, u16 port, u32 src)
{
    End* c = make_pair(src, N->eph++, dst, port);
    RawPtr r = make_raw(c);
    after(latency(c), [c, dst, port, r] {
        if(r->closed) return;
        Listener* l = find_listener(dst, port);
        if(!l || l->queue.size() >= l->backlog)
        {
            r->failed = true;
            if(r->on_closed) r->on_closed(*r, true);
            return;
        }
        establish(c, l);
        r->connected = true;
        r->t_connected = now();
        if(r->on_connected) r->on_connected(*r);
    });
    return r;
}
void raw_listen(u32 ip, u16 port, std::function<void(RawPtr)> f)
{
    auto* l = new Listener();
    l->ip = ip;
    l->port = port;
    l->raw_accept = std::move(f);
    N->listeners.push_back(l);
}
void raw_unlisten(u32 ip, u16 port)
{
    for(Listener* l : N->listeners) if(!l->sock && l->ip == ip && l->port == port) l->closed = true;
}
void net_reset_all_connections(bool)
{
    for(End* e : N->ends) if(e->established && !e->rst && !e->closed) do_reset(e);
}
void net_partition_all(u64 d) { N->partition_until = std::max(N->partition_until, now() + d); count_fault(F_PARTITION); logf("partition all %llu ms", (unsigned long long)(d / MS)); }
void net_heal()
{
    N->partition_until = 0;
    N->emfile_until = 0;
    for(End* e : N->ends) { e->stalled_until = 0; if(e->established && !e->rst) { if(!e->sndq.empty() || (e->fin_queued && !e->fin_sent)) { e->pump_scheduled = false; schedule_pump(e, 1 * MS); } } }
    NetCfg c;
    c.lat_min = g_net.lat_min;
    c.lat_jitter = 0;
    c.sndbuf = g_net.sndbuf;
    c.rcvbuf = g_net.rcvbuf;
    c.timerfd = g_net.timerfd;
    c.eventfd = g_net.eventfd;
    g_net = c;
}
std::string net_dump()
{
    std::string s;
    for(auto& p : N->fds) s += std::to_string(p.first) + ":" + std::to_string(p.second->kind) + " ";
    return s;
}

// ------------------------------------------------------------ SUT sockets --
static long real(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0)
{
    return syscall(n, a, b, c, d, e, 0l);
}
static bool would_block(File* f, const char* why)
{
    // returns true if the caller must fail with EAGAIN; otherwise blocks once
    if(f->nonblock) return true;
    f->waiters.push_back(g_cur);
    block(why, f);
    auto it = std::find(f->waiters.begin(), f->waiters.end(), g_cur);
    if(it != f->waiters.end()) f->waiters.erase(it);
    return false;
}

static void fill_addr(struct sockaddr* a, socklen_t* len, u32 ip, u16 port)
{
    struct sockaddr_in s{};
    s.sin_family = AF_INET;
    s.sin_port = htons(port);
    s.sin_addr.s_addr = htonl(ip);
    if(a && len)
    {
        memcpy(a, &s, std::min<size_t>(*len, sizeof s));
        *len = sizeof s;
    }
}

static ssize_t sock_recv(Sock* s, const std::vector<std::pair<void*, size_t>>& iov, int flags)
{
    for(;;)
    {
        if(!s->end)
        {
            if(s->so_error) { errno = s->so_error; s->so_error = 0; return -1; }
            errno = ENOTCONN;
            return -1;
        }
        End* e = s->end;
        if(fault(F_EINTR, g_net.eintr)) { errno = EINTR; return -1; }
        if(!e->rcvq.empty() && !e->rd_shut)
        {
            if(s->nonblock && fault(F_READ_EAGAIN, g_net.read_eagain))
            {
                after((choose(ST_FAULT, 20) + 1) * 50 * US, [e] { if(e->sock) e->sock->notify(EPOLLIN); });
                errno = EAGAIN;
                return -1;
            }
            size_t total = 0;
            for(auto& v : iov) total += v.second;
            size_t n = std::min(total, e->rcvq.size());
            if(n > 1 && fault(F_SHORT_READ, g_net.short_read)) n = 1 + choose(ST_FAULT, n - 1);
            size_t left = n;
            auto it = e->rcvq.begin();
            for(auto& v : iov)
            {
                size_t k = std::min(left, v.second);
                std::copy(it, it + k, (u8*)v.first);
                it += k;
                left -= k;
            }
            if(!(flags & MSG_PEEK))
            {
                e->rcvq.erase(e->rcvq.begin(), e->rcvq.begin() + n);
                reader_freed(e);
            }
            return n;
        }
        if(e->rst)
        {
            if(e->err) { errno = e->err; e->err = 0; s->so_error = 0; return -1; }
            return 0;
        }
        if(e->fin_rcvd || e->rd_shut) return 0;
        if(would_block(s, "recv")) { errno = EAGAIN; return -1; }
    }
}
static ssize_t sock_send(Sock* s, const std::vector<std::pair<const void*, size_t>>& iov)
{
    for(;;)
    {
        if(!s->end)
        {
            if(s->so_error) { errno = s->so_error; s->so_error = 0; return -1; }
            errno = s->connecting ? EAGAIN : ENOTCONN;
            return -1;
        }
        End* e = s->end;
        if(e->rst)
        {
            if(e->err) { errno = e->err; e->err = 0; s->so_error = 0; return -1; }
            errno = EPIPE;
            return -1;
        }
        if(e->wr_shut) { errno = EPIPE; return -1; }
        if(fault(F_EINTR, g_net.eintr)) { errno = EINTR; return -1; }
        size_t total = 0;
        for(auto& v : iov) total += v.second;
        if(total == 0) return 0;
        size_t room = s->space();
        if(room)
        {
            if(s->nonblock && fault(F_WRITE_EAGAIN, g_net.write_eagain))
            {
                e->nospace = true;
                e->writes.push_back({e->written + 1, now(), steps()});      // handed over, from then on it waits for room
                after((choose(ST_FAULT, 20) + 1) * 50 * US, [e] { if(e->sock) e->sock->notify(EPOLLOUT); });
                errno = EAGAIN;
                return -1;
            }
            size_t n = std::min(total, room);
            if(n > 1 && fault(F_SHORT_WRITE, g_net.short_write)) n = 1 + choose(ST_FAULT, n - 1);
            if(n < total) { probe("partial_write"); e->nospace = true; }
            size_t left = n;
            for(auto& v : iov)
            {
                size_t k = std::min(left, v.second);
                e->sndq.insert(e->sndq.end(), (const u8*)v.first, (const u8*)v.first + k);
                left -= k;
            }
            e->written += n;
            e->writes.push_back({e->written, now(), steps()});
            kick(e);
            return n;
        }
        e->nospace = true;
        probe("send_buffer_full");
        e->writes.push_back({e->written + 1, now(), steps()});
        if(would_block(s, "send")) { errno = EAGAIN; return -1; }
    }
}

static void file_close(File* f)
{
    for(EpItem* it : f->items)
    {
        it->ep->members.erase(it->fd);
        auto& r = it->ep->ready;
        r.erase(std::remove(r.begin(), r.end(), it), r.end());
        delete it;
    }
    f->items.clear();
    if(f->kind == K_SOCK)
    {
        Sock* s = (Sock*)f;
        if(s->conn_ev) cancel_event(s->conn_ev);
        if(s->lis)
        {
            s->lis->closed = true;
            s->lis->sock = nullptr;
            for(End* e : s->lis->queue) { e->closed = true; End* p = e->peer; after(latency(e), [p] { do_reset(p); }); }
            s->lis->queue.clear();
        }
        if(s->end)
        {
            End* e = s->end;
            // the side that closes first keeps the address for a while
            if(!e->fin_rcvd && !e->rst && e->rcvq.empty()) N->time_wait.push_back({s->lip, s->lport, now() + 60 * SEC, s->reuse});
            s->end = nullptr;
            end_close(e);
        }
        // peers blocked on this socket
        for(Fiber* w : std::vector<Fiber*>(f->waiters)) wake(w);
    }
    else if(f->kind == K_PIPE_R) ((PipeR*)f)->b->r = nullptr;
    else if(f->kind == K_PIPE_W) { auto* w = (PipeW*)f; w->b->w = nullptr; if(w->b->r) w->b->r->notify(EPOLLHUP); }
    else if(f->kind == K_EPOLL)
    {
        auto* ep = (Epoll*)f;
        for(auto& p : ep->members)
        {
            auto& v = p.second->file->items;
            v.erase(std::remove(v.begin(), v.end(), p.second), v.end());
        }
        for(Fiber* w : std::vector<Fiber*>(ep->sleepers)) wake(w);
    }
    N->fds.erase(f->fd);
    // the File object itself is leaked: events may still point at it
}

static bool accept_one(Sock* s, struct sockaddr* a, socklen_t* len, int flags, int& out)
{
    Listener* l = s->lis;
    for(;;)
    {
        if(fault(F_EINTR, g_net.eintr)) { errno = EINTR; return false; }
        if(l->queue.empty())
        {
            if(would_block(s, "accept")) { errno = EAGAIN; return false; }
            continue;
        }
        if(now() < N->emfile_until) { count_fault(F_ACCEPT_EMFILE); errno = EMFILE; return false; }
        if(fault(F_ACCEPT_EMFILE, g_net.accept_emfile))
        {
            N->emfile_until = now() + choose(ST_FAULT, 50) * (g_net.emfile_window / 50);
            errno = EMFILE;
            return false;
        }
        if(fault(F_ACCEPT_ABORT, g_net.accept_abort))
        {
            End* e = l->queue.front();
            l->queue.pop_front();
            e->closed = true;
            do_reset(e->peer);
            errno = ECONNABORTED;
            return false;
        }
        End* e = l->queue.front();
        l->queue.pop_front();
        Sock* c = new Sock();
        c->end = e;
        e->sock = c;
        c->lip = e->lip;
        c->lport = e->lport;
        c->bound = true;
        c->reuse = s->reuse;
        c->nonblock = flags & SOCK_NONBLOCK;
        out = new_fd(c);
        fill_addr(a, len, e->rip, e->rport);
        logf("accept conn %d -> fd %d", e->id, out);
        if(g_on_sut_accept) g_on_sut_accept(e->id, e->lport);
        return true;
    }
}

static void connect_done(Sock* s, int err)
{
    s->connecting = false;
    s->conn_ev = 0;
    s->so_error = err;
    logf("connect fd %d result %d", s->fd, err);
    s->notify(EPOLLIN | EPOLLOUT | (err ? EPOLLERR | EPOLLHUP : 0));
}

static int sock_connect(Sock* s, const struct sockaddr* a)
{
    if(s->connecting) { errno = EALREADY; return -1; }
    if(s->end) { errno = EISCONN; return -1; }
    if(a->sa_family != s->family) { errno = EAFNOSUPPORT; return -1; }
    if(a->sa_family != AF_INET) { errno = ENETUNREACH; return -1; }
    auto* in = (const struct sockaddr_in*)a;
    u32 ip = ntohl(in->sin_addr.s_addr);
    u16 port = ntohs(in->sin_port);
    if(!s->lip) s->lip = (ip >> 24) == 127 ? ip4(127, 0, 0, 1) : ip4(10, 0, 0, 1);
    if(!s->lport) s->lport = N->eph++;
    s->bound = true;
    if(g_on_connect_attempt) g_on_connect_attempt(ip_str(s->lip).c_str(), ip, port);
    logf("connect fd %d %s:%u -> %s:%u", s->fd, ip_str(s->lip).c_str(), s->lport, ip_str(ip).c_str(), port);
    if((s->lip >> 24) == 127 && (ip >> 24) != 127) { errno = EINVAL; return -1; }
    if(fault(F_CONN_UNREACH, g_net.unreach)) { errno = EHOSTUNREACH; return -1; }
    if(ip >> 8 == ip4(192, 168, 8, 0) >> 8) { errno = EHOSTUNREACH; return -1; }     // no route to these
    s->connecting = true;
    s->so_error = 0;
    u64 lat = g_net.lat_min * 2 + (g_net.lat_jitter ? g_net.lat_jitter * choose(ST_FAULT, 16) / 16 : 0);
    u64 hold = N->partition_until > now() ? N->partition_until - now() : 0;
    bool drop = fault(F_CONN_TIMEOUT, g_net.conn_timeout);
    if(ip >> 8 == ip4(192, 168, 6, 0) >> 8)                                           // nobody there: no answer
        at_cancelable(now() + 60 * MS, [s] { connect_done(s, ETIMEDOUT); }, s->conn_ev);
    else if(drop)
        at_cancelable(now() + g_net.connect_timeout, [s] { connect_done(s, ETIMEDOUT); }, s->conn_ev);
    else
        at_cancelable(now() + lat + hold, [s, ip, port] {
            Listener* l = find_listener(ip, port);
            if(!l || fault(F_CONN_REFUSED, g_net.refuse)) { connect_done(s, ECONNREFUSED); return; }
            if(l->queue.size() >= l->backlog)
            {
                at_cancelable(now() + 1 * SEC, [s] { connect_done(s, ETIMEDOUT); }, s->conn_ev);
                return;
            }
            End* c = make_pair(s->lip, s->lport, ip, port);
            c->sock = s;
            s->end = c;
            connect_done(s, 0);
            establish(c, l);
        }, s->conn_ev);
    if(s->nonblock) { errno = EINPROGRESS; return -1; }
    while(s->connecting) { s->waiters.push_back(g_cur); block("connect", s); auto it = std::find(s->waiters.begin(), s->waiters.end(), g_cur); if(it != s->waiters.end()) s->waiters.erase(it); }
    if(s->so_error) { errno = s->so_error; s->so_error = 0; return -1; }
    return 0;
}
} // namespace sim

using namespace sim;
#define PC() __builtin_return_address(0)
#define ENTER() do { if(g_active) schedule_point(); } while(0)

static ssize_t gen_read(int fd, const struct iovec* iov, int n, int flags, const void* pc)
{
    File* f = get(fd);
    if(!f) { errno = EBADF; return -1; }
    for(int i = 0; i < n; ++i) if(iov[i].iov_len) mem_range(iov[i].iov_base, iov[i].iov_len, true, pc);
    Harness h;
    switch(f->kind)
    {
    case K_SOCK:
    {
        std::vector<std::pair<void*, size_t>> v;
        for(int i = 0; i < n; ++i) v.push_back({iov[i].iov_base, iov[i].iov_len});
        ssize_t r = sock_recv((Sock*)f, v, flags);
        int e = errno;
        logf("recv fd %d -> %zd%s", fd, r, r < 0 ? strerror(e) : "");
        errno = e;
        return r;
    }
    case K_EVENTFD:
    {
        auto* ev = (EventFd*)f;
        while(!ev->count) { if(would_block(f, "eventfd")) { errno = EAGAIN; return -1; } }
        u64 v = ev->count;
        ev->count = 0;
        memcpy(iov[0].iov_base, &v, 8);
        sync_acquire(f);
        return 8;
    }
    case K_TIMERFD:
    {
        auto* t = (TimerFd*)f;
        while(!t->expirations) { if(would_block(f, "timerfd")) { errno = EAGAIN; return -1; } }
        memcpy(iov[0].iov_base, &t->expirations, 8);
        t->expirations = 0;
        return 8;
    }
    case K_PIPE_R:
    {
        auto* p = (PipeR*)f;
        while(p->b->q.empty())
        {
            if(!p->b->w) return 0;
            if(would_block(f, "pipe")) { errno = EAGAIN; return -1; }
        }
        size_t k = std::min(iov[0].iov_len, p->b->q.size());
        std::copy(p->b->q.begin(), p->b->q.begin() + k, (u8*)iov[0].iov_base);
        p->b->q.erase(p->b->q.begin(), p->b->q.begin() + k);
        sync_acquire(p->b.get());
        return k;
    }
    default: errno = EBADF; return -1;
    }
}
static ssize_t gen_write(int fd, const struct iovec* iov, int n, const void* pc)
{
    File* f = get(fd);
    if(!f) { errno = EBADF; return -1; }
    for(int i = 0; i < n; ++i) if(iov[i].iov_len) mem_range(iov[i].iov_base, iov[i].iov_len, false, pc);
    Harness h;
    switch(f->kind)
    {
    case K_SOCK:
    {
        std::vector<std::pair<const void*, size_t>> v;
        for(int i = 0; i < n; ++i) v.push_back({iov[i].iov_base, iov[i].iov_len});
        ssize_t r = sock_send((Sock*)f, v);
        int e = errno;
        logf("send fd %d -> %zd%s", fd, r, r < 0 ? strerror(e) : "");
        errno = e;
        return r;
    }
    case K_EVENTFD:
    {
        u64 v;
        memcpy(&v, iov[0].iov_base, 8);
        ((EventFd*)f)->count += v;
        sync_release(f);
        f->notify(EPOLLIN);
        return 8;
    }
    case K_PIPE_W:
    {
        auto* p = (PipeW*)f;
        if(!p->b->r) { errno = EPIPE; return -1; }
        size_t k = 0;
        for(int i = 0; i < n; ++i) { auto* b = (const u8*)iov[i].iov_base; p->b->q.insert(p->b->q.end(), b, b + iov[i].iov_len); k += iov[i].iov_len; }
        sync_release(p->b.get());
        p->b->r->notify(EPOLLIN);
        return k;
    }
    default: errno = EBADF; return -1;
    }
}

extern "C" {
int socket(int fam, int type, int)
{
    ENTER();
    Harness h;
    if(fam != AF_INET && fam != AF_INET6) { errno = EAFNOSUPPORT; return -1; }
    if(fault(F_OPEN_FAIL, g_net.open_fail)) { errno = EMFILE; return -1; }
    Sock* s = new Sock();
    s->family = fam;
    s->nonblock = type & SOCK_NONBLOCK;
    int fd = new_fd(s);
    logf("socket -> fd %d", fd);
    return fd;
}
int bind(int fd, const struct sockaddr* a, socklen_t)
{
    ENTER();
    Harness h;
    Sock* s = get_sock(fd);
    if(!s) return -1;
    if(a->sa_family != s->family) { errno = EINVAL; return -1; }
    if(a->sa_family != AF_INET) { s->bound = true; return 0; }
    auto* in = (const struct sockaddr_in*)a;
    u32 ip = ntohl(in->sin_addr.s_addr);
    if(!is_local(ip)) { logf("bind fd %d: not a local address", fd); errno = EADDRNOTAVAIL; return -1; }
    if(fault(F_BIND_FAIL, g_net.bind_fail)) { errno = EADDRNOTAVAIL; return -1; }
    u16 port = ntohs(in->sin_port);
    if(port && find_listener(ip, port)) { errno = EADDRINUSE; return -1; }
    if(port)
    {
        auto meets = [&](u32 o, u16 p, bool r) { return p == port && (o == ip || !o || !ip) && !(r && s->reuse); };
        bool used = false;
        for(auto& f : N->fds) if(f.second != s && f.second->kind == K_SOCK) { auto* o = (Sock*)f.second; if(meets(o->lip, o->lport, o->reuse && !o->lis)) used = true; }
        for(auto& t : N->time_wait) if(t.until > now() && meets(t.ip, t.port, t.reuse)) used = true;
        if(used) { logf("bind fd %d: port %u is in use", fd, port); errno = EADDRINUSE; return -1; }
    }
    s->lip = ip;
    s->lport = port ? port : (ip ? N->eph++ : 0);
    s->bound = true;
    return 0;
}
int listen(int fd, int backlog)
{
    Harness h;
    Sock* s = get_sock(fd);
    if(!s) return -1;
    if(find_listener(s->lip, s->lport)) { errno = EADDRINUSE; return -1; }
    auto* l = new Listener();
    l->ip = s->lip;
    l->port = s->lport;
    l->sock = s;
    l->backlog = backlog < 1 ? 1 : std::min(backlog, 128);
    s->lis = l;
    N->listeners.push_back(l);
    logf("listen fd %d %s:%u", fd, ip_str(l->ip).c_str(), l->port);
    return 0;
}
int accept4(int fd, struct sockaddr* a, socklen_t* len, int flags)
{
    ENTER();
    Harness h;
    Sock* s = get_sock(fd);
    if(!s) return -1;
    if(!s->lis) { errno = EINVAL; return -1; }
    int out = -1;
    if(!accept_one(s, a, len, flags, out)) return -1;
    return out;
}
int accept(int fd, struct sockaddr* a, socklen_t* len) { return accept4(fd, a, len, 0); }
int connect(int fd, const struct sockaddr* a, socklen_t)
{
    ENTER();
    Harness h;
    Sock* s = get_sock(fd);
    if(!s) return -1;
    return sock_connect(s, a);
}
int getsockopt(int fd, int level, int name, void* val, socklen_t* len)
{
    Harness h;
    Sock* s = get_sock(fd);
    if(!s) return -1;
    int v = 0;
    if(level == SOL_SOCKET && name == SO_ERROR) { v = s->so_error; s->so_error = 0; }
    else if(level == SOL_SOCKET && name == SO_TYPE) v = SOCK_STREAM;
    if(*len >= 4) { memcpy(val, &v, 4); *len = 4; }
    return 0;
}
int setsockopt(int fd, int level, int name, const void* v, socklen_t len)
{
    Harness h;
    Sock* s = get_sock(fd);
    if(!s) return -1;
    if(level == SOL_SOCKET && name == SO_REUSEADDR && len >= 4) s->reuse = *(const int*)v;
    return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* len)
{
    Harness h;
    Sock* s = get_sock(fd);
    if(!s) return -1;
    fill_addr(a, len, s->lip, s->lport);
    return 0;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* len)
{
    Harness h;
    Sock* s = get_sock(fd);
    if(!s) return -1;
    if(!s->end || s->end->rst) { errno = ENOTCONN; return -1; }
    fill_addr(a, len, s->end->rip, s->end->rport);
    return 0;
}
int shutdown(int fd, int how)
{
    ENTER();
    Harness h;
    Sock* s = get_sock(fd);
    if(!s) return -1;
    if(s->lis || !s->end || s->end->rst) { errno = ENOTCONN; return -1; }
    End* e = s->end;
    logf("shutdown fd %d how %d", fd, how);
    if(how == SHUT_RD || how == SHUT_RDWR) e->rd_shut = true;
    if((how == SHUT_WR || how == SHUT_RDWR) && !e->wr_shut)
    {
        e->wr_shut = true;
        e->fin_queued = true;
        kick(e);
    }
    s->notify(EPOLLIN | EPOLLOUT | EPOLLRDHUP | EPOLLHUP);
    return 0;
}
int close(int fd)
{
    if(fd < FD0 || !N) return (int)real(SYS_close, fd);
    ENTER();
    Harness h;
    File* f = get(fd);
    if(!f) { logf("close of closed fd %d", fd); errno = EBADF; return -1; }
    logf("close fd %d", fd);
    sync_release(f);
    file_close(f);
    return 0;
}
ssize_t read(int fd, void* b, size_t n)
{
    if(fd < FD0) return real(SYS_read, fd, (long)b, n);
    ENTER();
    struct iovec v{b, n};
    return gen_read(fd, &v, 1, 0, PC());
}
ssize_t readv(int fd, const struct iovec* v, int n)
{
    if(fd < FD0) return real(SYS_readv, fd, (long)v, n);
    ENTER();
    return gen_read(fd, v, n, 0, PC());
}
ssize_t recv(int fd, void* b, size_t n, int flags) { ENTER(); struct iovec v{b, n}; return gen_read(fd, &v, 1, flags, PC()); }
ssize_t recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr*, socklen_t*) { ENTER(); struct iovec v{b, n}; return gen_read(fd, &v, 1, flags, PC()); }
ssize_t recvmsg(int fd, struct msghdr* m, int flags) { ENTER(); return gen_read(fd, m->msg_iov, (int)m->msg_iovlen, flags, PC()); }
ssize_t write(int fd, const void* b, size_t n)
{
    if(fd < FD0) return real(SYS_write, fd, (long)b, n);
    ENTER();
    struct iovec v{(void*)b, n};
    return gen_write(fd, &v, 1, PC());
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
    if(fd < FD0) return real(SYS_writev, fd, (long)v, n);
    ENTER();
    return gen_write(fd, v, n, PC());
}
ssize_t send(int fd, const void* b, size_t n, int) { ENTER(); struct iovec v{(void*)b, n}; return gen_write(fd, &v, 1, PC()); }
ssize_t sendto(int fd, const void* b, size_t n, int, const struct sockaddr*, socklen_t) { ENTER(); struct iovec v{(void*)b, n}; return gen_write(fd, &v, 1, PC()); }
ssize_t sendmsg(int fd, const struct msghdr* m, int) { ENTER(); return gen_write(fd, m->msg_iov, (int)m->msg_iovlen, PC()); }

int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if(fd < FD0) return (int)real(SYS_ioctl, fd, (long)req, (long)arg);
    Harness h;
    File* f = get(fd);
    if(!f) { errno = EBADF; return -1; }
    if(req == FIONBIO) f->nonblock = *(int*)arg != 0;
    else if(req == FIONREAD) *(int*)arg = f->kind == K_SOCK && ((Sock*)f)->end ? (int)((Sock*)f)->end->rcvq.size() : 0;
    return 0;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if(fd < FD0) return (int)real(SYS_fcntl, fd, cmd, arg);
    Harness h;
    File* f = get(fd);
    if(!f) { errno = EBADF; return -1; }
    if(cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if(cmd == F_SETFL) f->nonblock = arg & O_NONBLOCK;
    return 0;
}
int poll(struct pollfd* p, nfds_t n, int timeout)
{
    ENTER();
    Harness h;
    u64 dl = timeout < 0 ? NEVER : now() + (u64)timeout * MS;
    for(;;)
    {
        int k = 0;
        for(nfds_t i = 0; i < n; ++i)
        {
            File* f = get(p[i].fd);
            p[i].revents = 0;
            if(!f) { p[i].revents = POLLNVAL; ++k; continue; }
            u32 m = f->mask() & ((u32)p[i].events | POLLERR | POLLHUP);
            if(m) { p[i].revents = (short)m; ++k; }
        }
        if(k || timeout == 0) return k;
        std::vector<File*> fs;
        for(nfds_t i = 0; i < n; ++i) if(File* f = get(p[i].fd)) { f->waiters.push_back(g_cur); fs.push_back(f); }
        block("poll", nullptr, dl);
        for(File* f : fs) { auto it = std::find(f->waiters.begin(), f->waiters.end(), g_cur); if(it != f->waiters.end()) f->waiters.erase(it); }
        if(g_cur->timed_out) return 0;
    }
}
int epoll_create1(int) { ENTER(); Harness h; return new_fd(new Epoll()); }
int epoll_create(int) { ENTER(); Harness h; return new_fd(new Epoll()); }
int epoll_ctl(int epfd, int op, int fd, struct epoll_event* ev)
{
    ENTER();
    Harness h;
    File* e = get(epfd);
    File* f = get(fd);
    if(!e || !f) { errno = EBADF; return -1; }
    auto* ep = (Epoll*)e;
    sync_release(ep);
    auto it = ep->members.find(fd);
    if(op == EPOLL_CTL_ADD)
    {
        if(it != ep->members.end()) { errno = EEXIST; return -1; }
        auto* i = new EpItem{f, ep, fd, ev->events, ev->data, false};
        ep->members[fd] = i;
        f->items.push_back(i);
        if(f->mask() & (i->events | EPOLLERR | EPOLLHUP)) ep->make_ready(i);
        return 0;
    }
    if(it == ep->members.end()) { errno = ENOENT; return -1; }
    EpItem* i = it->second;
    if(op == EPOLL_CTL_MOD)
    {
        i->events = ev->events;
        i->data = ev->data;
        if(f->mask() & (i->events | EPOLLERR | EPOLLHUP)) ep->make_ready(i);
        return 0;
    }
    f->items.erase(std::remove(f->items.begin(), f->items.end(), i), f->items.end());
    ep->ready.erase(std::remove(ep->ready.begin(), ep->ready.end(), i), ep->ready.end());
    ep->members.erase(it);
    delete i;
    return 0;
}
int epoll_wait(int epfd, struct epoll_event* out, int maxev, int timeout)
{
    ENTER();
    File* e = get(epfd);
    if(!e) { errno = EBADF; return -1; }
    Harness h;
    auto* ep = (Epoll*)e;
    u64 dl = timeout < 0 ? NEVER : now() + (u64)timeout * MS;
    for(;;)
    {
        if(timeout != 0 && fault(F_EINTR, g_net.eintr)) { errno = EINTR; return -1; }
        int limit = maxev;
        if(ep->ready.size() > 1)
        {
            // order of reported events is the kernel's business
            if(fault(F_EPOLL_SUBSET, g_net.epoll_subset))
            {
                limit = 1 + (int)choose(ST_FAULT, std::min<size_t>(maxev, ep->ready.size()));
                std::rotate(ep->ready.begin(), ep->ready.begin() + choose(ST_FAULT, ep->ready.size()), ep->ready.end());
            }
        }
        int n = 0;
        std::vector<EpItem*> again;
        while(!ep->ready.empty() && n < limit)
        {
            EpItem* it = ep->ready.front();
            ep->ready.erase(ep->ready.begin());
            it->ready = false;
            u32 m = it->file->mask() & (it->events | EPOLLERR | EPOLLHUP);
            if(!m) continue;
            out[n].events = m;
            out[n].data = it->data;
            ++n;
            if(!(it->events & EPOLLET)) again.push_back(it);
        }
        for(EpItem* it : again) if(!it->ready) { it->ready = true; ep->ready.push_back(it); }
        if(n || timeout == 0) { sync_acquire(ep); return n; }
        ep->sleepers.push_back(g_cur);
        block("epoll_wait", ep, dl);
        auto it = std::find(ep->sleepers.begin(), ep->sleepers.end(), g_cur);
        if(it != ep->sleepers.end()) ep->sleepers.erase(it);
        if(g_cur->timed_out && ep->ready.empty()) return 0;
        if(g_cur->timed_out) timeout = 0;
    }
}
int epoll_pwait(int epfd, struct epoll_event* out, int maxev, int timeout, const sigset_t*) { return epoll_wait(epfd, out, maxev, timeout); }
int eventfd(unsigned init, int flags)
{
    ENTER();
    Harness h;
    if(!g_net.eventfd) { errno = EINVAL; return -1; }
    auto* e = new EventFd();
    e->count = init;
    e->nonblock = flags & EFD_NONBLOCK;
    return new_fd(e);
}
int timerfd_create(clockid_t c, int flags)
{
    ENTER();
    Harness h;
    if(!g_net.timerfd) { errno = EINVAL; return -1; }
    auto* t = new TimerFd();
    t->clock = c;
    t->nonblock = flags & TFD_NONBLOCK;
    return new_fd(t);
}
int timerfd_settime(int fd, int flags, const struct itimerspec* nv, struct itimerspec* old)
{
    ENTER();
    Harness h;
    File* f = get(fd);
    if(!f || f->kind != K_TIMERFD) { errno = EBADF; return -1; }
    auto* t = (TimerFd*)f;
    if(old) memset(old, 0, sizeof *old);
    u64 v = (u64)nv->it_value.tv_sec * SEC + nv->it_value.tv_nsec;
    t->interval = (u64)nv->it_interval.tv_sec * SEC + nv->it_interval.tv_nsec;
    t->expirations = 0;
    u64 when = v == 0 ? 0 : (flags & TFD_TIMER_ABSTIME) ? v : now() + v;
    if(when == 0) t->arm(0);
    else t->arm(std::max(when, now()));
    return 0;
}
int pipe2(int* fds, int flags)
{
    Harness h;
    auto b = std::make_shared<PipeBuf>();
    auto* r = new PipeR();
    auto* w = new PipeW();
    r->b = w->b = b;
    b->r = r;
    b->w = w;
    r->nonblock = w->nonblock = flags & O_NONBLOCK;
    fds[0] = new_fd(r);
    fds[1] = new_fd(w);
    return 0;
}
int pipe(int* fds) { if(!g_active) return (int)real(SYS_pipe2, (long)fds, 0); return pipe2(fds, 0); }

static bool parse_ip(const char* s, u32& ip)
{
    struct in_addr a;
    if(inet_pton(AF_INET, s, &a) != 1) return false;
    ip = ntohl(a.s_addr);
    return true;
}
int getaddrinfo(const char* host, const char* service, const struct addrinfo* hints, struct addrinfo** res)
{
    ENTER();
    Harness h;
    *res = nullptr;
    u16 port = service ? (u16)atoi(service) : 0;
    std::vector<u32> ips;
    u32 ip;
    std::string name = host ? host : "";
    logf("getaddrinfo %s", name.c_str());
    if(!host) ips.push_back(ip4(127, 0, 0, 1));
    else if(parse_ip(host, ip)) ips.push_back(ip);
    else
    {
        if(hints && (hints->ai_flags & AI_NUMERICHOST)) return EAI_NONAME;
        u64 d = 1 * MS;
        if(fault(F_DNS_SLOW, g_net.dns_slow)) d += (choose(ST_FAULT, 100) + 1) * 100 * MS;
        if(name.compare(0, 4, "slow") == 0 && fault(F_DNS_SLOW, 1000)) d += (choose(ST_FAULT, 80) + 20) * 100 * MS;
        bool fail = fault(F_DNS_FAIL, g_net.dns_fail);
        int how = fail ? (int)choose(ST_FAULT, 2) : 0;
        ++N->dns_pending;
        sleep_ns(d);
        --N->dns_pending;
        if(fail) return how ? EAI_NONAME : EAI_AGAIN;
        auto it = N->dns.find(name);
        if(it == N->dns.end() || it->second.empty()) return EAI_NONAME;
        ips = it->second;
    }
    if(hints && hints->ai_family == AF_INET6) return EAI_NONAME;
    struct addrinfo* head = nullptr;
    struct addrinfo** tail = &head;
    for(u32 a : ips)
    {
        auto* ai = (struct addrinfo*)calloc(1, sizeof(struct addrinfo) + sizeof(struct sockaddr_in6));
        ai->ai_socktype = SOCK_STREAM;
        ai->ai_protocol = IPPROTO_TCP;
        ai->ai_addr = (struct sockaddr*)(ai + 1);
        if(a == 1)   // marker: an IPv6 result
        {
            if(hints && hints->ai_family == AF_INET) { free(ai); continue; }
            ai->ai_family = AF_INET6;
            ai->ai_addrlen = sizeof(struct sockaddr_in6);
            auto* s6 = (struct sockaddr_in6*)ai->ai_addr;
            s6->sin6_family = AF_INET6;
            s6->sin6_port = htons(port);
            s6->sin6_addr.s6_addr[15] = 9;
        }
        else
        {
            ai->ai_family = AF_INET;
            ai->ai_addrlen = sizeof(struct sockaddr_in);
            auto* s4 = (struct sockaddr_in*)ai->ai_addr;
            s4->sin_family = AF_INET;
            s4->sin_port = htons(port);
            s4->sin_addr.s_addr = htonl(a);
        }
        *tail = ai;
        tail = &ai->ai_next;
    }
    if(!head) return EAI_NONAME;
    *res = head;
    return 0;
}
void freeaddrinfo(struct addrinfo* a)
{
    while(a) { auto* n = a->ai_next; free(a); a = n; }
}
} // extern "C"
