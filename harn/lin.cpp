#include "lin.h"

namespace harn
{
struct Ctx
{
    const std::vector<LinOp>* ops;
    std::vector<std::pair<int, u16>> keys;      // state vector layout
    std::map<std::pair<int, u16>, int> idx;
    std::set<std::pair<u64, u64>> seen;
    u64 budget;
    size_t best = 0;
    std::vector<int> best_order;
    std::vector<int> order;
    bool out = false;
};
using State = std::vector<int>;   // -1 = absent

static bool apply(Ctx& c, const LinOp& o, State& st)
{
    auto at = [&](int tab, u32 a) -> int* { auto it = c.idx.find({tab, (u16)a}); return a > 0xffff || it == c.idx.end() ? nullptr : &st[it->second]; };
    if(o.add)
    {
        const LinStep& s = o.steps[0];
        int* p = at(s.table, s.addr);
        if(!p || (o.res != ~0ull && s.ok != (*p < 0))) return false;
        if(*p < 0) *p = s.val;
        return true;
    }
    if(o.txn)
    {
        for(auto& s : o.steps)
        {
            int* p = at(s.table, s.addr);
            bool ok = p && *p >= 0;
            if(ok != s.ok) return false;
            if(!ok) continue;
            if(s.write) *p = s.val;
            else if(*p != s.val) return false;
        }
        return true;
    }
    const ReqSpec& r = o.req;
    int tab = table_of(r.type);
    u32 n = (r.type == WSC || r.type == WSR) ? 1 : r.qty;
    bool ok = true;
    for(u32 i = 0; i < n && ok; ++i) { int* p = at(tab, r.addr + i); ok = p && *p >= 0; }
    Bytes rep;
    if(!ok) rep = exc_pdu(fc_of(r.type), 2);
    else
    {
        std::vector<u16> v;
        if(is_read(r.type)) for(u32 i = 0; i < n; ++i) v.push_back((u16)*at(tab, r.addr + i));
        else for(u32 i = 0; i < n; ++i) *at(tab, r.addr + i) = r.vals[i];
        rep = encode_resp(r, v);
    }
    return o.res == ~0ull || rep == o.reply;
}

static bool dfs(Ctx& c, std::vector<bool>& done, size_t ndone_answered, size_t answered, const State& st)
{
    if(ndone_answered == answered) return true;
    if(c.budget == 0) { c.out = true; return false; }
    --c.budget;
    // two independent hashes stand for the state
    u64 h1 = 0x9e3779b97f4a7c15ull, h2 = 0xc2b2ae3d27d4eb4full;
    auto add = [&](u64 x) { h1 = (h1 ^ x) * 0x100000001b3ull; h1 ^= h1 >> 29; h2 = (h2 + x) * 0xff51afd7ed558ccdull; h2 ^= h2 >> 32; };
    for(int x : st) add((u64)(x + 1));
    for(size_t i = 0; i < done.size(); ++i) if(done[i]) add(0x1000000 + i);
    if(!c.seen.insert({h1, h2}).second) return false;
    const auto& ops = *c.ops;
    u64 minres = ~0ull;
    for(size_t i = 0; i < ops.size(); ++i) if(!done[i]) minres = std::min(minres, ops[i].res);
    for(size_t i = 0; i < ops.size(); ++i)
    {
        if(done[i] || ops[i].inv > minres) continue;
        State s2 = st;
        if(!apply(c, ops[i], s2)) continue;
        bool pend = ops[i].res == ~0ull;
        if(pend && s2 == st) continue;          // dropping it is at least as good
        done[i] = true;
        c.order.push_back((int)i);
        if(c.order.size() > c.best) { c.best = c.order.size(); c.best_order = c.order; }
        if(dfs(c, done, ndone_answered + !pend, answered, s2)) return true;
        c.order.pop_back();
        done[i] = false;
        if(c.out) return false;
    }
    return false;
}

LinVerdict lin_check(const ModelDb& db, const std::vector<LinOp>& ops, u64 budget, std::string& why)
{
    Ctx c;
    c.ops = &ops;
    c.budget = budget;
    State st;
    for(int t = 0; t < 4; ++t)
        for(auto& p : db.t[t]) { c.idx[{t, p.first}] = (int)st.size(); c.keys.push_back({t, p.first}); st.push_back(p.second); }
    for(auto& o : ops)
        if(o.add && !c.idx.count({o.steps[0].table, o.steps[0].addr}))
        {
            std::pair<int, u16> key{o.steps[0].table, o.steps[0].addr};
            c.idx[key] = (int)st.size();
            c.keys.push_back(key);
            st.push_back(-1);
        }
    std::vector<bool> done(ops.size(), false);
    size_t answered = 0;
    for(auto& o : ops) answered += o.res != ~0ull;
    if(dfs(c, done, 0, answered, st)) return LIN_OK;
    if(c.out) return LIN_UNKNOWN;
    why = "no order of the " + std::to_string(ops.size()) + " operations explains the answers; longest explained prefix " + std::to_string(c.best) + ":";
    std::vector<bool> in(ops.size(), false);
    for(int i : c.best_order) in[i] = true;
    int shown = 0;
    for(size_t i = 0; i < ops.size() && shown < 4; ++i)
        if(!in[i] && ops[i].res != ~0ull) { why += " unexplained: " + ops[i].who + " " + (ops[i].add ? "of an address" : ops[i].txn ? "transaction" : spec_str(ops[i].req) + " -> " + hex(ops[i].reply)); ++shown; }
    return LIN_VIOLATION;
}
} // namespace harn
