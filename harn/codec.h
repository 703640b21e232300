// Independent reference codec and reference server model (from the Modbus
// specification; shares no code with the library under test).
#ifndef HARN_CODEC_H
#define HARN_CODEC_H
#include "sim/net.h"
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace harn
{
using namespace sim;

enum ReqType { RC, RDI, RHR, RIR, WSC, WSR, WMC, WMR, N_TYPES };
inline u8 fc_of(int t) { static const u8 f[] = {1, 2, 3, 4, 5, 6, 15, 16}; return f[t]; }
inline int type_of(u8 fc) { for(int t = 0; t < N_TYPES; ++t) if(fc_of(t) == fc) return t; return -1; }
inline bool is_read(int t) { return t <= RIR; }
inline bool is_bits(int t) { return t == RC || t == RDI || t == WSC || t == WMC; }
inline int max_qty(int t) { static const int m[] = {2000, 2000, 125, 125, 1, 1, 1968, 123}; return m[t]; }
// table: 0 coils, 1 discrete inputs, 2 holding registers, 3 input registers
inline int table_of(int t) { static const int m[] = {0, 1, 2, 3, 0, 2, 0, 2}; return m[t]; }

struct ReqSpec
{
    int type = RC;
    u16 addr = 0;
    u16 qty = 1;              // reads, and number of values of a write
    std::vector<u16> vals;    // writes (bits as 0/1)
    bool valid() const
    {
        if(type == WSC || type == WSR) return true;
        return qty >= 1 && qty <= max_qty(type) && vals.size() <= 65535;
    }
    bool operator==(const ReqSpec& o) const { return type == o.type && addr == o.addr && qty == o.qty && vals == o.vals; }
};

inline void p16(Bytes& b, u16 v) { b.push_back(v >> 8); b.push_back(v & 0xff); }
inline u16 g16(const Bytes& b, size_t i) { return (u16)(b[i] << 8 | b[i + 1]); }
inline void pack_bits(Bytes& b, const std::vector<u16>& v)
{
    for(size_t i = 0; i < v.size(); i += 8)
    {
        u8 x = 0;
        for(size_t j = 0; j < 8 && i + j < v.size(); ++j) if(v[i + j]) x |= 1 << j;
        b.push_back(x);
    }
}
inline Bytes encode_req(const ReqSpec& r)
{
    Bytes b{fc_of(r.type)};
    p16(b, r.addr);
    switch(r.type)
    {
    case WSC: p16(b, r.vals[0] ? 0xFF00 : 0); break;
    case WSR: p16(b, r.vals[0]); break;
    case WMC: p16(b, r.qty); b.push_back((u8)((r.qty + 7) / 8)); pack_bits(b, r.vals); break;
    case WMR: p16(b, r.qty); b.push_back((u8)(2 * r.qty)); for(u16 v : r.vals) p16(b, v); break;
    default: p16(b, r.qty);
    }
    return b;
}
// a normal response carrying `vals` (reads)
inline Bytes encode_resp(const ReqSpec& r, const std::vector<u16>& vals)
{
    Bytes b{fc_of(r.type)};
    switch(r.type)
    {
    case RC: case RDI: b.push_back((u8)((vals.size() + 7) / 8)); pack_bits(b, vals); break;
    case RHR: case RIR: b.push_back((u8)(2 * vals.size())); for(u16 v : vals) p16(b, v); break;
    case WSC: p16(b, r.addr); p16(b, r.vals[0] ? 0xFF00 : 0); break;
    case WSR: p16(b, r.addr); p16(b, r.vals[0]); break;
    default: p16(b, r.addr); p16(b, r.qty);
    }
    return b;
}
inline Bytes mbap(u16 txn, u8 unit, const Bytes& pdu, u16 proto = 0)
{
    Bytes b;
    p16(b, txn);
    p16(b, proto);
    p16(b, (u16)(pdu.size() + 1));
    b.push_back(unit);
    b.insert(b.end(), pdu.begin(), pdu.end());
    return b;
}

// outcome of parsing a PDU received by a server
enum PduClass { P_OK, P_SILENT, P_EXC };
inline PduClass parse_req(const Bytes& d, ReqSpec& r, int& exc)
{
    if(d.empty()) return P_SILENT;
    int t = type_of(d[0]);
    exc = 0;
    if(t < 0) { exc = 1; return P_EXC; }
    r = ReqSpec();
    r.type = t;
    if(t == WMC || t == WMR)
    {
        if(d.size() < 6) return P_SILENT;
        r.addr = g16(d, 1);
        r.qty = g16(d, 3);
        if(r.qty < 1 || r.qty > max_qty(t)) { exc = 3; return P_EXC; }
        size_t want = t == WMC ? (r.qty + 7) / 8 : 2 * r.qty;
        if(d[5] != want) { exc = 3; return P_EXC; }
        if(d.size() - 6 != want) return P_SILENT;
        for(int i = 0; i < r.qty; ++i) r.vals.push_back(t == WMC ? (d[6 + i / 8] >> (i % 8)) & 1 : g16(d, 6 + 2 * i));
        return P_OK;
    }
    if(d.size() != 5) return P_SILENT;
    r.addr = g16(d, 1);
    u16 v = g16(d, 3);
    if(t == WSC)
    {
        if(v != 0 && v != 0xFF00) { exc = 3; return P_EXC; }
        r.vals = {(u16)(v != 0)};
        return P_OK;
    }
    if(t == WSR) { r.vals = {v}; return P_OK; }
    r.qty = v;
    if(v < 1 || v > max_qty(t)) { exc = 3; return P_EXC; }
    return P_OK;
}
inline Bytes exc_pdu(u8 fc, int code) { return Bytes{(u8)(fc | 0x80), (u8)code}; }

// what a client may make of a response body to request r
enum RespKind { RS_OK, RS_EXC, RS_MALFORMED };
struct Resp
{
    RespKind kind = RS_MALFORMED;
    int exc = 0;                                  // 0 = unknown code
    std::vector<std::pair<u16, u16>> vals;        // (address, value); write-multiple: (address, qty)
};
inline int known_exc(int c) { return (c >= 1 && c <= 6) || c == 8 || c == 10 || c == 11 ? c : 0; }
inline Resp classify_resp(const ReqSpec& r, const Bytes& d)
{
    Resp o;
    if(d.empty()) return o;
    if((d[0] & 0x7f) != fc_of(r.type)) return o;
    if(d[0] & 0x80)
    {
        if(d.size() != 2) return o;
        o.kind = RS_EXC;
        o.exc = known_exc(d[1]);
        return o;
    }
    if(is_read(r.type))
    {
        size_t want = is_bits(r.type) ? (r.qty + 7) / 8 : 2 * r.qty;
        if(d.size() < 2 || d[1] != want || d.size() - 2 != want) return o;
        for(int i = 0; i < r.qty; ++i)
            o.vals.push_back({(u16)(r.addr + i), is_bits(r.type) ? (u16)((d[2 + i / 8] >> (i % 8)) & 1) : g16(d, 2 + 2 * i)});
    }
    else
    {
        if(d.size() != 5) return o;
        u16 v = g16(d, 3);
        if(r.type == WSC)
        {
            if(v != 0 && v != 0xFF00) return o;
            v = v != 0;
        }
        o.vals.push_back({g16(d, 1), v});
    }
    o.kind = RS_OK;
    return o;
}

// reference in-memory database
struct ModelDb
{
    std::map<u16, u16> t[4];
    bool has(int tab, u32 a, u32 n) const
    {
        for(u32 i = 0; i < n; ++i) if(a + i > 0xffff || !t[tab].count((u16)(a + i))) return false;
        return true;
    }
    // response PDU for a well-formed request
    Bytes apply(const ReqSpec& r)
    {
        int tab = table_of(r.type);
        u32 n = (r.type == WSC || r.type == WSR) ? 1 : r.qty;
        if(!has(tab, r.addr, n)) return exc_pdu(fc_of(r.type), 2);
        std::vector<u16> v;
        if(is_read(r.type)) { for(u32 i = 0; i < n; ++i) v.push_back(t[tab][(u16)(r.addr + i)]); }
        else for(u32 i = 0; i < n; ++i) t[tab][(u16)(r.addr + i)] = r.vals[i];
        return encode_resp(r, v);
    }
};

inline std::string spec_str(const ReqSpec& r)
{
    static const char* n[] = {"ReadCoils", "ReadDiscreteInputs", "ReadHoldingRegisters", "ReadInputRegisters", "WriteSingleCoil", "WriteSingleRegister", "WriteMultipleCoils", "WriteMultipleRegisters"};
    std::string s = std::string(n[r.type]) + "@" + std::to_string(r.addr) + "x" + std::to_string(r.qty);
    if(!r.vals.empty()) { s += "="; for(size_t i = 0; i < r.vals.size() && i < 4; ++i) s += (i ? "," : "") + std::to_string(r.vals[i]); if(r.vals.size() > 4) s += ".."; }
    return s;
}
} // namespace harn
#endif
