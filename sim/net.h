// Simulated operating system: TCP, DNS, epoll, timerfd, eventfd, pipes.
#ifndef SIM_NET_H
#define SIM_NET_H
#include "core.h"
#include <memory>

namespace sim
{
using Bytes = std::vector<u8>;
std::string hex(const Bytes& b, size_t max = 40);

// per-mille probabilities, drawn from the run's configuration
struct NetCfg
{
    u32 short_read = 0, short_write = 0, read_eagain = 0, write_eagain = 0, eintr = 0;
    u32 open_fail = 0, bind_fail = 0, dns_fail = 0, dns_slow = 0;
    u32 accept_emfile = 0, accept_abort = 0;
    u32 refuse = 0, conn_timeout = 0, unreach = 0;
    u32 rst = 0, segment = 0, partition = 0, epoll_subset = 0, timer_late = 0;
    u32 coalesce = 0;
    u64 lat_min = 50 * US, lat_jitter = 200 * US;
    u64 partition_max = 2 * SEC;
    u64 connect_timeout = 20 * SEC;
    u64 emfile_window = 500 * MS;
    u32 sndbuf = 65536, rcvbuf = 65536;
    bool timerfd = true, eventfd = true;
};
extern NetCfg g_net;

constexpr u32 ip4(u32 a, u32 b, u32 c, u32 d) { return (a << 24) | (b << 16) | (c << 8) | d; }
std::string ip_str(u32 ip);
void add_local_addr(u32 ip);
void add_dns(const std::string& name, const std::vector<u32>& addrs);   // empty = NXDOMAIN

// A harness-side TCP endpoint (a device, a hostile peer, a raw client)
struct RawConn
{
    std::function<void(RawConn&, const Bytes&)> on_data;
    std::function<void(RawConn&)> on_connected;
    std::function<void(RawConn&, bool rst)> on_closed;   // peer sent FIN / RST or connect failed
    u32 local_ip = 0, remote_ip = 0;
    u16 local_port = 0, remote_port = 0;
    int id = 0;
    bool connected = false;
    bool failed = false;
    bool peer_fin = false;
    bool peer_rst = false;
    bool closed = false;           // we closed
    u64 t_connected = 0, t_peer_closed = 0;
    std::shared_ptr<void> user;
    int tag = 0;

    void send(const Bytes& b);     // queued in order
    void shutdown_wr();
    void close();
    void reset();
    void pause();                  // stop reading: the peer's send buffer fills up
    void resume();
    u64 unsent() const;            // bytes not yet delivered to the peer's kernel
    u64 unread_by_peer() const;    // bytes delivered but not yet read by the peer
    void peer_write_time(u64 off, u64& t, u64& step) const;  // when the peer wrote its byte number `off`, or first tried to
    u64 peer_lost() const;         // when our FIN or RST reached the other end (0: it did not)
    bool peer_open() const;        // the other end still exists and has not closed
    struct End* end = nullptr;
    u64 sent_total = 0, delivered_total = 0;            // bytes queued / bytes in the peer's kernel
    std::function<void(RawConn&)> on_delivered;
};
using RawPtr = std::shared_ptr<RawConn>;

RawPtr raw_connect(u32 dst, u16 port, u32 src = ip4(10, 0, 0, 77));
void raw_listen(u32 ip, u16 port, std::function<void(RawPtr)> on_accept);
void raw_unlisten(u32 ip, u16 port);
// SUT is listening there
bool sut_listening(u32 ip, u16 port);
int sut_open_sockets();            // open SUT fds that are sockets
int sut_open_fds();
// all existing connections die silently / are reset
void net_reset_all_connections(bool rst);
void net_partition_all(u64 dur);   // nothing is delivered for dur
void net_heal();                   // end every partition and stop injecting network faults
u64 net_bytes_delivered();
u64 net_conns();
int net_dns_pending();              // name lookups under way
extern std::function<void(const char*, u32, u16)> g_on_connect_attempt;
extern std::function<void(int conn, u16 port)> g_on_sut_accept;   // the SUT accepted this connection
}
#endif
