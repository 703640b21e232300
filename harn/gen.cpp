// Case generator: one (profile, seed) pair is one configuration, one set of
// operations per user thread / environment lane, and one fault profile.
#include "world.h"
#include <algorithm>

namespace harn
{
namespace
{
struct B
{
    Case c;
    Rng g;
    Cfg& k;
    explicit B(u64 seed) : g(seed), k(c.cfg) {}
    void op(int lane, int kind, std::vector<i64> a) { Op o; o.lane = lane; o.kind = kind; o.a = std::move(a); c.ops.push_back(o); }
    void setup(int kind, std::vector<i64> a) { a.insert(a.begin(), 0); op(-1, kind, a); }
    i64 r(i64 lo, i64 hi) { return g.range(lo, hi); }
    i64 one(std::initializer_list<i64> l) { std::vector<i64> v(l); return v[g.below(v.size())]; }
    bool pct(int p) { return (int)g.below(100) < p; }
    i64 gap() { return one({0, 0, 0, 50, 200, 1000, 3000, 12000}); }
    i64 s() { return (i64)g.below(1000000); }

    void sched(bool strict = false)
    {
        k.salt = s();
        k.sched_mode = one({0, 1, 1, 1, 2, 2});
        k.quantum = one({15, 40, 120, 400, 1500, 6000});
        if(!strict)
        {
            k.stall_pm = one({0, 0, 0, 0, 3, 15});
            k.stall_us = k.stall_pm ? one({1000, 5000, 20000, 40000}) : 0;
            k.cpu_ns = one({0, 0, 0, 0, 5, 30});
        }
        k.spurious = one({0, 0, 0, 20});
        if(!strict && pct(12)) k.nap_pm = one({50, 200, 600});
    }
    void noise()
    {
        auto p = [&] { return one({0, 0, 30, 150, 400}); };
        k.segment = p(); k.short_read = p(); k.short_write = one({0, 0, 0, 50, 300});
        k.read_eagain = one({0, 0, 50, 200}); k.write_eagain = one({0, 0, 50, 200}); k.eintr = one({0, 0, 40}); k.epoll_subset = one({0, 0, 100, 400});
        k.timer_late = one({0, 0, 100});
        k.lat_us = one({5, 50, 50, 400}); k.jit_us = one({0, 50, 200, 1500});
        k.timerfd = pct(80); k.eventfd = pct(80);
        if(pct(20)) { k.sndbuf = one({64, 300, 1024}); }
        if(pct(20)) { k.rcvbuf = one({64, 300, 1024}); }
        k.dev_delay_us = one({0, 200, 200, 3000});
    }
    void net_faults(int lvl)
    {
        auto p = [&](i64 hi) -> i64 { return pct(45) ? r(1, hi * lvl) : 0; };
        k.open_fail = p(60); k.bind_fail = p(60); k.dns_fail = p(150); k.dns_slow = p(150); k.refuse = p(120); k.conn_timeout = p(60); k.unreach = p(60);
        k.rst = p(12); k.partition = pct(25) ? r(1, 8 * lvl) : 0;
        k.partition_ms = one({20, 200, 500}); k.connect_timeout_ms = one({100, 500, 1500});
    }
    void srv_faults(int lvl)
    {
        auto p = [&](i64 hi) -> i64 { return pct(50) ? r(1, hi * lvl) : 0; };
        k.accept_emfile = p(150); k.accept_abort = p(150); k.rst = p(8);
        k.emfile_ms = one({20, 100, 300}); k.connect_timeout_ms = one({100, 500});
    }
    void app_faults(int lvl, bool conn, bool raw)
    {
        auto p = [&](i64 hi) -> i64 { return pct(50) ? r(1, hi * lvl) : 0; };
        k.w_exc = p(120); k.w_none = p(80); k.w_late = p(80); k.w_dup = p(80); k.w_wtxn = p(80); k.w_wunit = p(60); k.w_malf = p(90); k.w_proto = p(40); k.w_unsol = p(50);
        k.w_slow = p(60); k.slow_us = one({5000, 20000, 60000}); k.w_coal = p(60);
        if(conn) { k.w_close = p(40); k.w_rst = p(40); k.w_closeafter = p(40); k.w_partial = p(40); }
        if(raw) { k.w_garbage = p(60); k.w_len01 = p(60); k.w_partial = p(60); }
        // everything must fit into one draw of 1000
        i64 C_ = 0;
        for(i64 Cfg::*m : {&Cfg::w_exc, &Cfg::w_none, &Cfg::w_late, &Cfg::w_dup, &Cfg::w_wtxn, &Cfg::w_wunit, &Cfg::w_malf, &Cfg::w_proto, &Cfg::w_unsol, &Cfg::w_slow, &Cfg::w_coal, &Cfg::w_close, &Cfg::w_rst, &Cfg::w_closeafter, &Cfg::w_partial, &Cfg::w_garbage, &Cfg::w_len01}) C_ += k.*m;
        if(C_ > 900)
            for(i64 Cfg::*m : {&Cfg::w_exc, &Cfg::w_none, &Cfg::w_late, &Cfg::w_dup, &Cfg::w_wtxn, &Cfg::w_wunit, &Cfg::w_malf, &Cfg::w_proto, &Cfg::w_unsol, &Cfg::w_slow, &Cfg::w_coal, &Cfg::w_close, &Cfg::w_rst, &Cfg::w_closeafter, &Cfg::w_partial, &Cfg::w_garbage, &Cfg::w_len01}) k.*m = k.*m * 900 / C_;
    }
    void mgr(int m, int threads = -1) { setup(MK_MGR, {m, threads >= 0 ? threads : pct(6) ? one({0, 100, 101, 102, 104}) : one({1, 2, 2, 3, 4}), one({0, 1, 2})}); }
    i64 port() { return one({502, 502, 502, 1, 40502, 65535}); }
    i64 level() { return one({0, 1, 2}); }
    i64 qty(int type, bool bad = false)
    {
        if(bad)
        {
            i64 m = max_qty(type);
            if(pct(6) && (type == WMC || type == WMR)) return 65536 + r(0, m);      // wraps around in 16 bits
            return one({0, m + 1, m + r(1, 200), 256 + r(0, 200), 2048 + r(0, 2000), 256 * r(1, 255) + r(1, 100), 32768 + r(0, 100), 65535});
        }
        if(pct(70)) return r(1, 12);
        if(pct(50)) return r(1, max_qty(type));
        return max_qty(type);
    }
    i64 short_to() { return one({20000, 50000, 100000, 250000}); }
    i64 long_to() { return one({600000, 1000000}); }

    int nchan = 0, nsess = 0, nq = 0, nt = 0, nraw = 0;
    std::vector<int> sess;
    int chan(int m, int tkind, int tgt, int hostmode = 0, int adapter = 0) { setup(MK_CHAN, {nchan, m, tkind, tgt, hostmode, adapter, level(), pct(25) ? r(65520, 65535) : pct(10) ? one({250, 32760, 65000}) : 0}); return nchan++; }
    int session(int ch, i64 unit, i64 to) { setup(MK_SESS, {nsess, ch, unit, to}); sess.push_back(nsess); return nsess++; }
    void req(int lane, int s_, i64 to, int flags = 0, i64 addr = -1, int type = -1, i64 q = -1)
    {
        if(type < 0) type = (int)r(0, N_TYPES - 1);
        if(q < 0) q = qty(type);
        op(lane, REQ, {gap(), s_, type, q, to, s(), addr, flags});
    }
    void schedule(int lane, int s_, i64 to, i64 freq) { op(lane, SCHED, {gap(), s_, r(0, 3), r(1, 10), to, freq, nq++}); }
    void clients(int m, int ndev, bool faulty, int maxchan, bool adapters, std::vector<i64> tos)
    {
        for(int d = 0; d < ndev; ++d) setup(MK_DEV, {d, faulty, port()});
        int n = (int)r(1, maxchan);
        for(int i = 0; i < n; ++i)
        {
            int ad = adapters ? (int)one({0, 0, 1, 1, 4}) : 0;
            int c_ = chan(m, 0, (int)g.below(ndev), (int)one({0, 0, 0, 1, 1, 2, 5, 6}), ad);
            int ns = (int)r(1, 2);
            for(int j = 0; j < ns; ++j) session(c_, r(1, 247), tos[g.below(tos.size())]);
        }
    }
    int pick_sess() { return sess[g.below(sess.size())]; }
    // the name takes longer to resolve than the first requests wait for their answers
    void slow_name(int ndev, int lane)
    {
        int c_ = chan(0, 0, (int)g.below(ndev), 4);
        int s1 = nsess, s2 = nsess + 1;
        setup(MK_SESS, {nsess++, c_, r(1, 247), one({100000, 300000, 1000000})});
        setup(MK_SESS, {nsess++, c_, r(1, 247), 20000000});
        for(int i = 0, n = (int)r(1, 4); i < n; ++i) req(lane, s1, -1);
        for(int i = 0, n = (int)r(1, 3); i < n; ++i) req(lane, pct(75) ? s2 : s1, -1);
    }
    void env_dev(int lane, int ndev, int n, bool pauses)
    {
        for(int i = 0; i < n; ++i)
        {
            i64 w = pauses ? one({0, 1, 0, 1, 2, 4, 6, 7}) : one({0, 1, 0, 1, 2, 6});
            i64 d = g.below(ndev);
            op(lane, DEV_CTL, {r(0, 60000), d, w, w == 7 ? one({5, 50, 400}) : r(0, 1)});
            if(w == 2 || w == 6) op(lane, DEV_CTL, {r(0, 120000), d, 3, 0});
            if(w == 4) op(lane, DEV_CTL, {r(0, 120000), d, 5, 0});
        }
    }
    // ---- server side ----
    int ndb = 0, ncust = 0;
    void server(int v, int m, i64 maxc, bool custom, i64 shape, std::vector<i64>& dbunits, std::vector<i64>& custunits, bool start = true)
    {
        setup(MK_SRV, {v, m, maxc, level(), one({5000, 5000, 502, 50000, 65530})});
        int d = ndb++;
        setup(MK_DB, {d, shape});
        i64 u = one({0, 1, 1, 5, 255});
        setup(ADD_SESS, {v, u, 0, d});
        dbunits.push_back(u);
        if(pct(30))
        {
            i64 u2 = (u + 3) & 255;
            if(pct(50)) { d = ndb++; setup(MK_DB, {d, shape}); }
            setup(ADD_SESS, {v, u2, 0, d});
            dbunits.push_back(u2);
        }
        if(custom)
        {
            int n = (int)r(1, 2);
            for(int i = 0; i < n; ++i)
            {
                i64 u3 = (u + 10 + i) & 255;
                setup(MK_CUSTOM, {ncust});
                setup(ADD_SESS, {v, u3, 1, ncust++});
                custunits.push_back(u3);
                if(pct(15)) { setup(ADD_SESS, {v, (u3 + 20) & 255, 1, ncust - 1}); custunits.push_back((u3 + 20) & 255); }
            }
        }
        if(start) setup(START_SRV, {v});
    }
    int raw(int lane, int v) { op(lane, RAW_OPEN, {gap(), nraw, v}); return nraw++; }
    void raw_send(int lane, int rr, i64 unit, int mut, bool big, bool shared = false, bool top = false, bool holes = false, int focus = 0, bool wide = false)
    {
        int type = (int)r(0, N_TYPES - 1);
        i64 off, q;
        if(shared)
        {
            if(focus == 1) type = (int)one({RC, RC, WMC, WMC, WSC});
            if(focus == 3) type = (int)one({RHR, RHR, WMR, WMR, WSR});
            off = 1000 + r(0, focus ? 2 : 5); q = r(1, focus ? 10 : 4); if(pct(10)) q = r(1, 30); if(wide && pct(60)) q = r(17, 97);
        }
        else if(big && is_read(type) && pct(60)) { off = 40000 + r(0, 3); q = qty(type); }
        else if(holes && pct(40) && is_read(type)) { off = 45000 + r(0, 100); q = pct(50) ? qty(type) : is_bits(type) ? r(60, 2000) : r(60, 125); }
        else if(top && pct(40) && is_read(type)) { off = 65530 + r(0, 5); q = r(1, 8); }
        else { off = r(0, 26); q = pct(85) ? r(1, 12) : qty(type); }
        op(lane, RAW_SEND, {gap(), rr, unit, type, off, q, s(), mut, pct(20) ? r(1, 300) : 0});
    }
    void flags_common(int lane, int n, std::vector<i64> tos, int pbad)
    {
        for(int i = 0; i < n; ++i)
        {
            int t = (int)r(0, N_TYPES - 1);
            bool bad = pct(pbad) && t != WSC && t != WSR;
            int f = pct(20) ? (int)one({1, 1, 129, 2, 16, 32, 64}) : 0;
            req(lane, pick_sess(), tos[g.below(tos.size())], f, -1, t, qty(t, bad));
            if(pct(10)) op(lane, BARRIER, {0, 300});
        }
    }
    void timers(int lane, int n)
    {
        for(int i = 0; i < n; ++i)
        {
            int t = nt++;
            i64 abs = r(0, 1);
            i64 dur = abs && pct(15) ? one({-1, -5000, -3000000}) : one({0, 100, 1000, 5000, 20000, 80000});
            i64 f = pct(25) ? one({2, 4, 8, 16, 18}) : 0;
            op(lane, TIMER, {gap(), t, pick_sess(), dur, abs | f});
            if(f != 4 && pct(40)) op(lane, TIMER_CTL, {one({0, 0, 100, 4000, 20000}), t, one({0, 0, 0, 2, 1}), 0});
        }
    }
    void sched_ops(int lane, int q, int n)
    {
        for(int i = 0; i < n; ++i)
        {
            i64 w = one({0, 1, 0, 1, 2, 3});
            op(lane, SCHED_CTL, {one({0, 0, 300, 2000, 20000, 50000}), q, w, w == 2 ? one({20000, 30000, 60000}) : 0});
        }
    }
};
} // namespace

Case generate(int profile, u64 seed)
{
    B b(mix64(mix64(0x5eed, (u64)profile * 1000003 + 7), seed));
    Cfg& k = b.k;
    k.profile = profile;
    b.sched();
    b.noise();
    k.teardown = b.r(0, 5);
    k.restart = b.one({0, 1, 2});
    switch(profile)
    {
    case PF_CLIENT:
    {
        k.restart = b.one({0, 0, 0, 1, 2});
        if(b.pct(60)) b.net_faults(1);
        b.app_faults(1, b.pct(60), false);
        b.mgr(0);
        int nd = (int)b.r(1, 2);
        b.clients(0, nd, true, 3, false, {b.short_to(), b.short_to(), b.long_to()});
        if(b.pct(10)) { int c_ = b.chan(0, 2, 0, (int)b.one({3, 6})); b.session(c_, 1, b.short_to()); }
        int lanes = (int)b.r(1, 3);
        if(b.pct(8)) b.slow_name(nd, (int)b.r(0, lanes - 1));
        std::vector<i64> tos{-1, -1, b.short_to()};
        if(b.pct(12)) tos.push_back(b.one({0, 1000, 3000}));
        if(b.pct(12)) tos.push_back(b.one({20000000, 2200000000, 5000000000}));
        for(int l = 0; l < lanes; ++l) b.flags_common(l, (int)b.r(3, 9), tos, 8);
        if(b.pct(50)) b.env_dev(100, nd, (int)b.r(1, 4), true);
        break;
    }
    case PF_CLEAN:
    {
        k.stall_pm = 0; k.stall_us = 0;
        k.w_exc = b.one({0, 100});
        k.dev_delay_us = b.one({0, 200, 5000});
        k.restart = 0;
        b.mgr(0);
        int nd = (int)b.r(1, 2);
        b.clients(0, nd, false, 3, true, {b.long_to()});
        int lanes = (int)b.r(1, 3);
        for(int l = 0; l < lanes; ++l) b.flags_common(l, (int)b.r(4, 12), {-1}, 5);
        break;
    }
    case PF_HOSTILE:
    {
        b.app_faults(2, true, true);
        b.mgr(0);
        b.clients(0, 1, true, 2, false, {b.short_to()});
        int lanes = (int)b.r(1, 2);
        for(int l = 0; l < lanes; ++l) b.flags_common(l, (int)b.r(4, 12), {-1}, 3);
        if(b.pct(10)) b.op(100, DEV_CTL, {b.r(0, 20000), 0, 7, b.one({5, 50, 400})});
        break;
    }
    case PF_RECOVERY:
    {
        b.net_faults(3);
        if(b.pct(50)) b.app_faults(1, true, b.pct(30));
        b.mgr(0);
        int nd = (int)b.r(1, 2);
        b.clients(0, nd, true, 2, b.pct(30), {b.short_to(), b.short_to()});
        int lanes = (int)b.r(1, 2);
        if(b.pct(8)) b.slow_name(nd, (int)b.r(0, lanes - 1));
        for(int l = 0; l < lanes; ++l)
            for(int i = 0, n = (int)b.r(4, 12); i < n; ++i)
            {
                b.req(l, b.pick_sess(), -1);
                if(b.pct(40)) b.op(l, BARRIER, {0, 400});
            }
        b.env_dev(100, nd, (int)b.r(2, 6), true);
        if(b.pct(30)) b.op(101, PARTITION, {b.r(0, 100000), b.r(10, 300)});
        break;
    }
    case PF_SCHED:
    {
        int lvl = (int)b.r(0, 2);
        if(lvl > 0) b.app_faults(1, lvl > 1, false);
        if(lvl > 1) b.net_faults(1);
        if(k.w_slow) k.slow_us = 20000;
        b.mgr(0);
        b.clients(0, 1, lvl > 0, 1, false, {b.one({50000, 100000, 200000})});
        int n = (int)b.r(1, 2);
        for(int q = 0; q < n; ++q)
        {
            b.schedule(q, b.pick_sess(), -1, b.one({20000, 30000, 60000}));
            if(b.pct(25)) b.c.ops.back().a.push_back(b.one({1, 2, 4, 8, 16, 6, 18, 20}));
            b.sched_ops(q, q, (int)b.r(0, 6));
            if(b.pct(10)) b.op(q, SCHED_CTL, {b.gap(), q, 4, 0});
        }
        if(b.pct(50)) for(int i = 0; i < 5; ++i) b.req(2, b.pick_sess(), -1, b.pct(20) ? 64 : 0);
        if(b.pct(25)) b.op(3, SESS_SHUT, {b.r(0, 100000), b.pick_sess()});
        if(b.pct(10)) b.op(3, CHAN_SHUT, {b.r(0, 100000), 0});
        if(lvl > 1) b.env_dev(100, 1, 2, false);
        b.op(0, SLEEP, {0, b.one({1000, 60000, 150000})});
        break;
    }
    case PF_TIMER:
    {
        b.mgr(0);
        b.clients(0, 1, b.pct(50), 2, false, {b.short_to()});
        if(b.pct(50)) k.w_none = 200;
        int lanes = (int)b.r(1, 3);
        for(int l = 0; l < lanes; ++l) b.timers(l, (int)b.r(1, 6));
        if(b.pct(40)) for(int i = 0; i < 3; ++i) b.req(lanes, b.pick_sess(), -1, b.pct(50) ? 16 : 0);
        if(b.pct(15)) b.op(4, TIMER, {0, 90, b.pick_sess(), 30000000, 0});        // still pending at shutdown
        if(b.pct(15)) b.op(5, CHAN_SHUT, {b.r(0, 50000), 0});
        break;
    }
    case PF_SHUTDOWN:
    {
        k.restart = 0;
        if(b.pct(24))
        {
            // something is created on a channel, a server or a manager at the moment it goes
            if(b.pct(70)) { k.sched_mode = b.one({1, 2}); k.quantum = b.one({8, 15, 40, 120}); }
            int nm = (int)b.one({1, 1, 2, 3});
            bool mgrs = b.pct(35);                  // each round ends a manager
            if(mgrs) nm = (int)b.r(2, 4);
            for(int m = 0; m < nm; ++m) b.mgr(m, mgrs ? (int)b.r(1, 2) : -1);
            b.setup(MK_DEV, {0, b.pct(30)});
            int n = mgrs ? nm : (int)b.r(2, 6), lanes = (int)b.r(2, 4);
            for(int i = 0; i < n; ++i) { int c_ = b.chan(mgrs ? i : (int)b.g.below(nm), 0, 0, (int)b.one({0, 0, 1})); b.session(c_, b.r(1, 247), 100000); }
            b.setup(MK_DB, {0, 0});
            int nv = (int)b.r(0, 2);
            for(int v = 0; v < nv; ++v) { b.setup(MK_SRV, {v, (i64)b.g.below(nm), 4, b.level(), 5000}); b.setup(ADD_SESS, {v, 1, 0, 0}); if(b.pct(70)) b.setup(START_SRV, {v}); }
            for(int i = 0; i < n; ++i)
            {
                int killer = (int)b.g.below(lanes);
                bool mg = b.pct(12);
                for(int l = 0; l < lanes; ++l)
                {
                    b.op(l, SLEEP, {0, 4000 * (i + 1) + b.one({0, 0, 0, 0, 1, 3}), 1});
                    if(l == killer)
                    {
                        if(mg || mgrs) b.op(l, MGR_SHUT, {0, mgrs ? i : (i64)b.g.below(nm)});
                        else if(nv && b.pct(15)) b.op(l, SRV_SHUT, {0, (i64)b.g.below(nv)});
                        else b.op(l, CHAN_SHUT, {0, i});
                        continue;
                    }
                    switch(b.r(0, nv ? 6 : 4))
                    {
                    case 0: case 1: { int s_ = b.nsess++; b.op(l, MK_SESS, {0, s_, i, b.r(1, 247), 100000}); if(b.pct(60)) b.req(l, s_, -1); break; }
                    case 2: if(b.nq < 5) { b.op(l, SCHED, {0, b.sess[i], b.r(0, 3), b.r(1, 10), 100000, b.one({20000, 500000, 60000000}), b.nq++}); break; } // fallthrough
                    case 3: b.op(l, REQ, {0, b.sess[i], b.r(0, 7), b.r(1, 6), -1, b.s(), -1, b.one({0, 0, 2, 16})}); break;
                    case 4:
                    {
                        int c_ = b.nchan++, s_ = b.nsess++;
                        b.op(l, MK_CHAN, {0, c_, mgrs ? i : (i64)b.g.below(nm), 0, 0, 0, 0, 0});
                        b.op(l, MK_SESS, {0, s_, c_, 7, 100000});
                        if(b.pct(60)) b.req(l, s_, -1);
                        break;
                    }
                    case 5: b.op(l, b.pct(50) ? ADD_SESS : START_SRV, {0, (i64)b.g.below(nv), b.r(2, 5), 0, 0}); break;
                    default:
                    {
                        int rr = b.raw(l, (int)b.g.below(nv));
                        b.raw_send(l, rr, 1, 0, false);
                        break;
                    }
                    }
                }
            }
            break;
        }
        int kind = (int)b.r(0, 2);
        if(b.pct(30)) b.net_faults(1);
        if(b.pct(50)) b.app_faults(1, b.pct(50), false);
        int nm = (int)b.one({1, 1, 2});
        for(int m = 0; m < nm; ++m) b.mgr(m);
        std::vector<i64> du, cu;
        int lanes = 0;
        if(kind != 1)
        {
            b.clients(0, 1, true, 2, false, {b.short_to(), b.long_to()});
            int nl = (int)b.r(1, 2);
            for(int l = 0; l < nl; ++l)
                for(int i = 0, n = (int)b.r(2, 7); i < n; ++i)
                    b.req(lanes + l, b.pick_sess(), -1, b.pct(25) ? (int)b.one({4, 8, 8, 1, 2, 16}) : 0);
            lanes += nl;
            if(b.pct(50)) { b.schedule(lanes, b.pick_sess(), -1, b.one({20000, 20000, 6000000, 60000000, 3600000000ll})); b.sched_ops(lanes, b.nq - 1, 2); ++lanes; }
            if(b.pct(50)) b.timers(lanes++, 3);
            if(b.pct(10)) b.op(lanes++, TIMER, {0, 91, b.pick_sess(), 3000000, 0});
        }
        if(kind != 0)
        {
            bool late = b.pct(15);
            b.server(0, nm - 1, b.one({1, 2, 16}), true, 0, du, cu, !late);
            if(late && b.pct(60)) b.op(lanes++, START_SRV, {b.one({0, 300, 3000, 20000}), 0});
            for(int i = 0, n = (int)b.r(1, 3); i < n; ++i)
            {
                int l = lanes++;
                int rr = b.raw(l, 0);
                for(int j = 0; j < 4; ++j) { b.raw_send(l, rr, b.pct(70) ? du[0] : cu[0], 0, false); if(b.pct(30)) b.op(l, RAW_WAIT, {0, rr}); }
            }
            if(b.pct(40)) { int c_ = b.chan(0, 1, 0); int s_ = b.session(c_, du[0], b.short_to()); for(int i = 0; i < 3; ++i) b.req(lanes, s_, -1); ++lanes; }
        }
        int L = lanes;
        for(int i = 0, n = (int)b.r(1, 3); i < n; ++i)
        {
            i64 d = b.one({0, 0, 500, 3000, 20000, 80000});
            switch(b.r(0, 4))
            {
            case 0: if(b.nsess) b.op(L, SESS_SHUT, {d, b.pick_sess()}); break;
            case 1: if(b.nchan) b.op(L, CHAN_SHUT, {d, b.r(0, b.nchan - 1)}); break;
            case 2: if(kind) b.op(L, SRV_SHUT, {d, 0}); break;
            case 3:
            {
                i64 m = b.r(0, nm - 1);
                b.op(L, MGR_SHUT, {d, m});
                if(b.pct(30)) b.op(L + 7, MGR_SHUT, {b.one({0, d, d, d + 100}), m});        // and once more at the same time
                if(b.pct(30) && kind != 1)
                {
                    int c_ = b.nchan++, s_ = b.nsess++;
                    b.op(L + 8, MK_CHAN, {b.one({0, d, d, d + 50}), c_, m, 0, 0, b.r(0, 1), 0, 0});
                    b.op(L + 8, MK_SESS, {0, s_, c_, 7, b.short_to()});
                    b.req(L + 8, s_, -1);
                }
                break;
            }
            default:
                if(b.nchan && b.pct(50)) b.op(L, DROP, {d, 1, b.r(0, b.nchan - 1)});
                else if(b.nsess) b.op(L, DROP, {d, 0, b.pick_sess()});
                break;
            }
            if(b.pct(30)) ++L;
        }
        if(b.pct(30)) b.env_dev(100, 1, 2, true);
        break;
    }
    case PF_THREADS:
    {
        k.restart = 0;
        k.sched_mode = b.one({1, 2});
        k.quantum = b.one({8, 15, 40, 120, 400});
        b.mgr(0, (int)b.r(2, 4));
        if(b.pct(30))
        {
            // the same call by several threads at once, on the same object
            b.clients(0, 1, false, 1, false, {b.long_to()});
            int s0 = b.pick_sess(), c0 = 0, n = (int)b.r(2, 5), what = (int)b.one({0, 0, 1, 2, 3, 4, 5, 5}), rounds = (int)b.r(1, 3);
            for(int i = 0; i < rounds; ++i)
                for(int l = 0; l < n; ++l)
                {
                    i64 d = i * 1000 + b.one({0, 0, 0, 1, 3});
                    int w = what == 5 ? (int)b.r(0, 4) : what;
                    if(w == 0 || w == 3) b.op(l, SLEEP, {d});
                    if(w == 0) { if(b.nq < 5) { b.op(l, SCHED, {0, s0, b.r(0, 3), b.r(1, 10), 100000, 50000, b.nq++}); b.op(l, SCHED_CTL, {b.gap(), b.nq - 1, b.one({0, 4}), 0}); } }
                    else if(w == 1) { int t = b.nt++; b.op(l, TIMER, {d, t, s0, b.one({0, 100, 2000}), 0}); if(b.pct(50)) b.op(l, TIMER_CTL, {0, t, 0, 0}); }
                    else if(w == 2) b.op(l, REQ, {d, s0, b.r(0, 7), b.r(1, 6), -1, b.s(), -1, 0});
                    else if(w == 3) { int s_ = b.nsess++; b.op(l, MK_SESS, {0, s_, c0, b.r(1, 247), 200000}); b.op(l, REQ, {0, s_, b.r(0, 7), b.r(1, 6), -1, b.s(), -1, 0}); }
                    else
                    {
                        int c_ = b.nchan++, s_ = b.nsess++;
                        b.op(l, MK_CHAN, {d, c_, 0, 0, 0, b.one({0, 1}), 0, b.level()});
                        b.op(l, MK_SESS, {0, s_, c_, b.r(1, 247), 200000});
                        b.req(l, s_, -1);
                    }
                }
            if(b.pct(15)) b.op(n + 1, b.one({SESS_SHUT, CHAN_SHUT, MGR_SHUT}), {b.one({0, 500, 1000}), 0});
            break;
        }
        bool srv = b.pct(60);
        b.clients(0, 1, b.pct(30), 2, false, {b.short_to(), b.long_to()});
        if(b.pct(30)) { b.app_faults(1, true, false); }
        std::vector<i64> du, cu;
        if(srv) { b.server(0, 0, b.one({2, 16}), b.pct(50), 0, du, cu); int c_ = b.chan(0, 1, 0); b.session(c_, du[0], 400000); }
        int lanes = (int)b.r(2, 4);
        for(int l = 0; l < lanes; ++l)
            for(int i = 0, n = (int)b.r(3, 8); i < n; ++i)
                switch(b.r(0, 7))
                {
                case 0: case 1: case 2: case 3: b.op(l, REQ, {b.one({0, 0, 0, 200}), b.pick_sess(), b.r(0, 7), b.r(1, 6), -1, b.s(), b.pct(50) ? -1 : -2, b.pct(15) ? b.one({1, 2, 16, 64}) : 0}); break;
                case 4: b.timers(l, 1); break;
                case 5: if(b.nq < 2) { b.schedule(l, b.pick_sess(), 100000, 20000); b.op(l, SCHED_CTL, {0, b.nq - 1, b.one({0, 2, 3}), 30000}); b.op(l, SCHED_CTL, {b.gap(), b.nq - 1, b.one({0, 1}), 0}); } break;
                case 6: if(srv) b.op(l, TXN, {b.gap(), 0, b.s(), b.r(1, 4), 0, b.pct(6)}); break;
                case 7: if(srv) b.op(l, DB_ADD, {0, 0, b.r(0, 3), b.r(0, 40)}); break;
                }
        if(srv) for(int i = 0; i < 2; ++i) { int l = lanes + i; int rr = b.raw(l, 0); for(int j = 0; j < 3; ++j) b.raw_send(l, rr, du[0], 0, false, b.pct(50)); }
        if(b.pct(30))
            for(int l = 0; l < 2; ++l)
            {
                if(b.pct(70))
                {
                    int c_ = b.nchan++, s_ = b.nsess++;
                    b.op(l + 3, MK_CHAN, {b.one({0, 0, 200}), c_, 0, 0, 0, b.one({0, 1}), 0, b.level()});
                    b.op(l + 3, MK_SESS, {0, s_, c_, b.r(1, 247), b.short_to()});
                    for(int i = 0, n = (int)b.r(1, 4); i < n; ++i) b.req(l + 3, s_, -1);
                }
                else
                {
                    b.setup(MK_DB, {50 + l, 0});
                    b.op(l + 3, MK_SRV, {b.one({0, 0, 200}), 5 + l, 0, 16, b.level(), 7000});
                    b.op(l + 3, ADD_SESS, {0, 5 + l, 1, 0, 50 + l});
                    b.op(l + 3, START_SRV, {b.gap(), 5 + l});
                    int rr = b.raw(l + 3, 5 + l);
                    b.raw_send(l + 3, rr, 1, 0, false);
                }
            }
        if(b.pct(25)) b.op(lanes + 2, b.one({SESS_SHUT, CHAN_SHUT, CHAN_SHUT, SRV_SHUT, MGR_SHUT}), {b.one({0, 500, 3000}), 0});
        if(b.pct(4)) for(int i = 0; i < 2; ++i) b.op(lanes + 12 + i, MGR_SHUT, {b.one({0, 500, 3000}), 0});
        break;
    }
    case PF_ISOLATION:
    {
        k.restart = 0;
        k.stall_pm = 0; k.stall_us = 0;
        b.app_faults(2, true, true);
        b.mgr(0, 1 + (int)b.g.below(3));
        b.setup(MK_DEV, {0, 0});
        b.setup(MK_DEV, {1, 1, b.port()});
        int h = (int)b.r(1, 2);
        for(int i = 0; i < h; ++i) { int c_ = b.chan(0, 0, 0, (int)b.r(0, 1)); b.session(c_, b.r(1, 247), b.long_to()); }
        std::vector<int> good = b.sess;
        int f = (int)b.r(1, 2);
        for(int i = 0; i < f; ++i) { int c_ = b.chan(0, 0, 1, 0); b.session(c_, b.r(1, 247), b.short_to()); }
        if(b.pct(50)) { int c_ = b.chan(0, 2, 0, (int)b.one({0, 3, 6})); b.session(c_, 1, b.short_to()); }
        std::vector<int> bad(b.sess.begin() + good.size(), b.sess.end());
        if(b.pct(35))
        {
            // channels whose name takes long to resolve, while the others are connected already
            for(int s_ : good) b.req(-1, s_, -1);
            b.op(-1, BARRIER, {0, 3000});
            for(int i = 0, n = (int)b.r(1, 3); i < n; ++i) { int c_ = b.chan(0, 0, 1, 4); int s_ = b.session(c_, 1, b.short_to()); b.req(3 + i, s_, -1); b.req(3 + i, s_, -1); }
        }
        for(int s_ : good) for(int i = 0, n = (int)b.r(4, 8); i < n; ++i) b.req((int)(s_ % 2), s_, -1);
        for(int s_ : bad) for(int i = 0, n = (int)b.r(2, 6); i < n; ++i) b.req(2 + (s_ % 2), s_, -1, b.pct(10) ? 8 : 0);
        b.op(100, DEV_CTL, {b.r(0, 40000), 1, b.one({0, 1, 2, 4, 6}), 0});
        if(b.pct(25)) b.op(101, DEV_CTL, {b.r(0, 20000), 1, 7, b.one({50, 500})});
        b.op(100, DEV_CTL, {b.r(0, 40000), 1, b.one({0, 1, 3, 5}), 0});
        if(b.pct(20)) b.op(4, SESS_SHUT, {b.r(0, 30000), bad[0]});
        break;
    }
    case PF_SERVER:
    case PF_FRAMING:
    {
        bool fr = profile == PF_FRAMING;
        std::vector<i64> du, cu;
        b.mgr(0);
        i64 shape = (b.pct(30) ? 1 : 0) | (b.pct(30) ? 2 : 0) | (b.pct(fr ? 5 : 40) ? 4 : 0);
        b.server(0, 0, 16, b.pct(fr ? 30 : 60), shape, du, cu);
        int nr = (int)b.r(1, 4);
        for(int i = 0; i < nr; ++i)
        {
            int rr = b.raw(i, 0);
            for(int j = 0, n = (int)b.r(3, 14); j < n; ++j)
            {
                i64 unit = b.pct(75) || cu.empty() ? du[b.g.below(du.size())] : cu[b.g.below(cu.size())];
                if(b.pct(10)) unit = b.one({77, 77, 0, 255, b.r(0, 255)});
                int mut = 0;
                if(fr && b.pct(40)) mut = (int)b.one({1, 2, 3, 4, 5, 6, 7, 8, 1, 2, 5, 7});
                if(fr && b.pct(4)) mut = (int)b.one({9, 10, 11, 12, 13});
                b.raw_send(i, rr, unit, mut, shape & 1, false, shape & 2, shape & 4);
                if(b.pct(30)) b.op(i, RAW_WAIT, {0, rr});
            }
            if(b.pct(25)) b.op(i, RAW_CTL, {b.gap(), rr, b.one({0, 1, 2}), 0});
        }
        break;
    }
    case PF_SESSIONS:
    {
        std::vector<i64> du, cu;
        b.mgr(0);
        b.server(0, 0, 16, true, 0, du, cu);
        int lanes = (int)b.r(1, 3);
        for(int l = 0; l < lanes; ++l)
        {
            int rr = b.raw(l, 0);
            for(int j = 0, n = (int)b.r(4, 10); j < n; ++j)
            {
                i64 unit = b.one({du[0], cu[0], 40, 41, 42, b.one({0, 255, 1, b.r(0, 255)})});
                if(b.pct(60)) { if(b.pct(50)) b.op(l, SLEEP, {0, b.one({1000, 60000})}); b.raw_send(l, rr, unit, 0, false); }
                else
                {
                    int kind = b.pct(50) ? 1 : 0;
                    i64 u = b.one({40, 41, 42, du[0], cu[0]});
                    if(kind == 0) { b.setup(MK_DB, {b.ndb, 0}); b.op(l, ADD_SESS, {b.gap(), 0, u, 0, b.ndb++}); }
                    else { b.setup(MK_CUSTOM, {b.ncust}); b.op(l, ADD_SESS, {b.gap(), 0, u, 1, b.ncust++}); }
                    if(b.pct(60)) b.op(l, SLEEP, {0, 80000});
                }
            }
        }
        break;
    }
    case PF_CONNS:
    {
        std::vector<i64> du, cu;
        if(b.pct(50)) b.srv_faults(1);
        b.mgr(0);
        i64 maxc = b.one({1, 2, 3, 5});
        b.server(0, 0, maxc, false, 0, du, cu);
        int lanes = (int)b.r(1, 4);
        for(int l = 0; l < lanes; ++l)
            for(int i = 0, n = (int)b.r(1, 4); i < n; ++i)
            {
                int rr = b.raw(l, 0);
                for(int j = 0, m = (int)b.r(0, 3); j < m; ++j) b.raw_send(l, rr, du[0], 0, false);
                if(b.pct(60)) b.op(l, RAW_WAIT, {0, rr});
                if(b.pct(50)) b.op(l, RAW_CTL, {b.gap(), rr, b.one({0, 1, 2}), 0});
                if(b.pct(30)) b.op(l, SLEEP, {0, b.one({1000, 50000, 200000})});
            }
        break;
    }
    case PF_BACKPRESSURE:
    {
        std::vector<i64> du, cu;
        k.sndbuf = b.one({64, 128, 300, 700});
        k.rcvbuf = b.one({64, 128, 300, 700});
        k.short_write = b.one({0, 100, 400});
        k.restart = 0;
        bool srv = b.pct(60), two = srv && b.pct(50);       // two servers busy at the same time
        if(two) b.mgr(0, (int)b.r(2, 4)); else b.mgr(0);
        if(srv)
        {
            b.server(0, 0, 16, false, 1, du, cu);
            int nr = (int)b.r(1, 3);
            if(b.pct(12))
            {
                int rr = b.raw(5, 0);
                b.raw_send(5, rr, du[0], 0, true);
                b.op(5, RAW_WAIT, {0, rr});
                b.op(5, RAW_FLOOD, {b.gap(), rr, du[0], b.one({300, 600})});
                nr = (int)b.r(0, 2);
            }
            if(two) { b.server(1, 0, 16, false, 1, du, cu); nr = (int)b.r(2, 4); k.quantum = b.one({8, 15, 40, 120}); k.sched_mode = b.one({1, 2}); }
            std::vector<i64> all = du;
            for(int i = 0; i < nr; ++i)
            {
                int v = two ? i % 2 : 0;
                du = {all[two && v ? all.size() - 1 : 0]};
                int rr = b.raw(i, v);
                if(b.pct(two ? 20 : 60)) b.op(i, RAW_CTL, {0, rr, 3, 0});
                if(two && b.pct(70)) b.op(i, SLEEP, {0, 20000});
                for(int j = 0, n = (int)b.r(3, 12); j < n; ++j) b.raw_send(i, rr, du[0], 0, true);
                b.op(i, RAW_CTL, {b.one({0, 5000, 50000}), rr, 4, 0});
                b.op(i, RAW_WAIT, {0, rr});
            }
        }
        else
        {
            b.clients(0, 1, false, 2, false, {b.one({60000, 150000, 600000})});
            for(int l = 0; l < 2; ++l) for(int i = 0, n = (int)b.r(3, 8); i < n; ++i) { int t = (int)b.one({WMC, WMR, WMR, RC, RHR}); b.req(l, b.pick_sess(), -1, 0, -1, t, max_qty(t) - (i64)b.g.below(20)); }
            for(int i = 0, n = (int)b.r(1, 3); i < n; ++i) { b.op(100, DEV_CTL, {b.r(0, 3000), 0, 4, 0}); b.op(100, DEV_CTL, {b.one({2000, 30000, 200000, 400000}), 0, 5, 0}); }
        }
        break;
    }
    case PF_E2E:
    {
        k.stall_pm = b.one({0, 0, 3});
        std::vector<i64> du, cu;
        int nm = (int)b.one({1, 2});
        for(int m = 0; m < nm; ++m) b.mgr(m);
        k.restart = 0;
        b.server(0, nm - 1, 16, b.pct(60), b.pct(40) ? 7 : 3, du, cu);
        bool holes = b.c.ops.size() && std::any_of(b.c.ops.begin(), b.c.ops.end(), [](const Op& o) { return o.kind == MK_DB && o.a[2] == 7; });
        int nc = (int)b.r(1, 3);
        for(int i = 0; i < nc; ++i)
        {
            int c_ = b.chan(0, 1, 0);
            b.session(c_, du[b.g.below(du.size())], b.long_to());
            if(!cu.empty() && b.pct(60)) b.session(c_, cu[b.g.below(cu.size())], b.long_to());
            if(b.pct(15)) b.session(c_, b.one({99, 0, 255}), b.short_to());
        }
        int lanes = (int)b.r(1, 3);
        for(int l = 0; l < lanes; ++l)
            for(int i = 0, n = (int)b.r(4, 12); i < n; ++i)
            {
                int t = (int)b.r(0, N_TYPES - 1);
                if(is_read(t) && b.pct(25)) { i64 big = b.r(60, max_qty(t)); b.req(l, b.pick_sess(), -1, 0, holes && b.pct(50) ? 45000 + b.r(0, 100) : b.pct(50) ? 40000 : 65530 + b.r(0, 5), t, holes ? big : b.qty(t)); }
                else { bool bad = b.pct(5) && t != WSC && t != WSR; b.req(l, b.pick_sess(), -1, b.pct(10) ? 1 : 0, -1, t, bad ? b.qty(t, true) : b.r(1, 10)); }
            }
        break;
    }
    case PF_LIN:
    {
        k.restart = 0;
        if(b.pct(60)) { k.sched_mode = b.one({1, 2}); k.quantum = b.one({8, 20, 60, 200}); }
        std::vector<i64> du, cu;
        b.mgr(0, (int)b.r(2, 4));
        k.short_write = 0;
        b.setup(MK_SRV, {0, 0, 16, 0});
        b.setup(MK_DB, {0, 0});
        b.setup(ADD_SESS, {0, 1, 0, 0});
        bool two = b.pct(30);
        if(two)
        {
            int m = b.pct(40);                     // the servers of two managers share a database
            if(m) b.mgr(1, (int)b.r(1, 2));
            b.setup(MK_SRV, {1, m, 16, 0});
            b.setup(ADD_SESS, {1, 1, 0, 0});
            b.setup(START_SRV, {1});
        }
        b.setup(START_SRV, {0});
        int lanes = (int)b.r(2, 5);
        int e2e = -1;
        int focus = (int)b.one({0, 1, 3, 3});      // mostly one table: readers meet writers
        bool wide = b.pct(40);                     // long ranges
        if(b.pct(12))
        {
            // addresses appear in the middle of ranges that are asked for again and again
            int n = (int)b.r(1, 3);
            i64 f = b.r(0, 3);                      // the table
            for(int l = 0; l < n; ++l)
            {
                int rr = b.raw(l, two ? (int)b.r(0, 1) : 0);
                i64 hole = f % 2 ? 50 : 100, a = hole - b.one({0, 1, 2, 4}), q = hole - a + b.r(1, f % 2 ? 8 : 12), ty = f == 0 ? RC : f == 1 ? RDI : f == 2 ? RHR : RIR;
                for(int i = 0, k_ = (int)b.r(3, 6); i < k_; ++i)
                {
                    i64 t = ty;
                    if(b.pct(25)) t = f == 0 ? b.one({WSC, WMC}) : f == 2 ? b.one({WSR, WMR}) : ty;
                    b.op(l, RAW_SEND, {b.one({0, 0, 300, 1500}), rr, 1, t, 1000 + (t == WSC || t == WSR ? hole : a), t == WSC || t == WSR ? 1 : q, b.s(), 0, 0});
                    if(b.pct(50)) b.op(l, RAW_WAIT, {0, rr});
                }
            }
            for(i64 a = f % 2 ? 55 : 110; a < (f % 2 ? 59 : 113); ++a) b.op(5, DB_ADD, {b.one({0, 0, 200, 1000}), 0, f, a, 1});
            b.op(5, DB_ADD, {b.one({0, 300, 2000, 4000}), 0, f, f % 2 ? 50 : 100, 1});
            if(b.pct(40)) b.op(5, DB_ADD, {0, 0, f, f % 2 ? 50 : 100, 1});
            break;
        }
        if(b.pct(25))
        {
            // long ranges, read and written as a whole again and again at the same time
            k.sched_mode = b.one({1, 2}); k.quantum = b.one({8, 20, 60});
            int f = (int)b.one({1, 3, 3, 2, 4});
            bool in = f % 2 == 0;                   // only transactions write there
            int readers = (int)b.r(1, 2), writers = (int)b.r(1, 3);
            for(int l = 0; l < readers + writers; ++l)
            {
                bool rd = l < readers, net = rd ? b.pct(80) : !in && b.pct(30);
                int rr = net ? b.raw(l, two ? (int)b.r(0, 1) : 0) : -1;
                for(int i = 0, n = (int)b.r(4, 8); i < n; ++i)
                {
                    i64 d = b.one({0, 0, 50, 200, 500});
                    if(!net) { b.op(l, TXN, {d, 0, b.s(), in ? b.r(25, 50) : b.r(40, 105), f, rd ? 0 : b.pct(80) ? 2 : 0}); continue; }
                    i64 type = rd ? b.one({f == 1 ? RC : f == 2 ? RDI : f == 3 ? RHR : RIR}) : (f == 1 ? WMC : WMR);
                    b.op(l, RAW_SEND, {d, rr, 1, type, 1000 + b.r(0, 2), in ? b.r(20, 47) : b.r(40, 97), b.s(), 0, 0});
                }
            }
            break;
        }
        if(b.pct(40)) { int c_ = b.chan(0, 1, 0); e2e = b.session(c_, 1, 600000); }
        for(int l = 0; l < lanes; ++l)
        {
            int what = (int)b.r(0, 2);
            int rr = what == 0 ? b.raw(l, two ? (int)b.r(0, 1) : 0) : -1;
            for(int i = 0, n = (int)b.r(2, 6); i < n; ++i)
            {
                if(what == 0) { b.raw_send(l, rr, 1, 0, false, true, false, false, focus, wide); if(b.pct(20)) b.op(l, RAW_WAIT, {0, rr}); }
                else if(what == 1 || e2e < 0) b.op(l, TXN, {b.one({0, 0, 100, 500, 2000}), 0, b.s(), wide && b.pct(50) ? b.r(20, 105) : b.r(1, focus ? 9 : 5), focus, b.pct(6)});
                else
                {
                    i64 t = focus == 1 ? b.one({RC, RC, WMC, WMC, WSC}) : focus == 3 ? b.one({RHR, RHR, WMR, WMR, WSR}) : b.r(0, 7);
                    b.op(l, REQ, {b.one({0, 0, 200}), e2e, t, wide && b.pct(60) ? b.r(17, 97) : b.r(1, focus ? 10 : 4), -1, b.r(0, focus ? 2 : 5), -2, 0});
                }
            }
            if(b.pct(20)) b.op(l, DB_ADD, {0, 0, b.r(0, 3), b.r(0, 20)});
            if(b.pct(12)) { i64 t = b.r(0, 3); b.op(l, DB_ADD, {b.gap(), 0, t, b.pct(60) ? (t % 2 ? 50 : 100) : t % 2 ? b.r(50, 60) : b.r(100, 115), 1}); }
            if(b.pct(8)) { i64 t = b.r(0, 3); b.op(l, DB_ADD, {b.gap(), 0, t, b.r(0, 5), 1}); b.op(l, TXN, {0, 0, b.s(), b.r(3, 6), t + 1, 0}); }
        }
        break;
    }
    case PF_WIRE:
    default:
    {
        k.restart = b.one({0, 0, 1});
        if(b.pct(25)) { k.bind_fail = 0; k.refuse = b.one({0, 100}); k.open_fail = b.one({0, 100}); }
        b.mgr(0);
        int nd = (int)b.r(1, 2);
        for(int d = 0; d < nd; ++d) b.setup(MK_DEV, {d, 0});
        k.w_exc = b.one({0, 150});
        int n = (int)b.r(1, 3);
        for(int i = 0; i < n; ++i)
        {
            int c_ = b.chan(0, 0, (int)b.g.below(nd), (int)b.one({0, 1, 2, 5, 6, 6}), (int)b.one({0, 1, 1, 1, 2, 3, 4}));
            b.session(c_, b.one({0, 1, 17, 247, 255}), b.one({100000, 600000}));
        }
        for(int l = 0; l < 2; ++l)
            for(int i = 0, m = (int)b.r(3, 10); i < m; ++i)
            {
                int t = (int)b.r(0, N_TYPES - 1);
                bool bad = b.pct(15) && t != WSC && t != WSR;
                b.req(l, b.pick_sess(), -1, 0, -1, t, bad ? b.qty(t, true) : b.qty(t));
                if(b.pct(10)) b.op(l, BARRIER, {0, 300});
            }
        if(b.pct(40)) for(int d = 0; d < nd; ++d) b.op(100, DEV_CTL, {b.r(0, 20000), d, b.one({0, 1}), 0});
        break;
    }
    }
    if(profile == PF_CLEAN || profile == PF_ISOLATION) k.nap_pm = 0;
    // the wall clock is none of the library's business
    if(b.pct(10)) for(int i = 0; i < 2; ++i) b.op(109, WALL_CLOCK, {b.r(0, 60000), b.one({-86400, -5, 7, 31536000})});
    return b.c;
}
} // namespace harn
