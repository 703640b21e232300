// Linearizability checker (Wing & Gong search with memoisation) for the
// register/coil slice shared by several connections and user transactions.
#ifndef HARN_LIN_H
#define HARN_LIN_H
#include "codec.h"
#include <set>

namespace harn
{
struct LinStep { bool write; int table; u16 addr; u16 val; bool ok; };
struct LinOp
{
    u64 inv = 0, res = ~0ull;      // event sequence numbers; res = ~0: never answered
    bool txn = false;
    bool add = false;              // adds steps[0].addr; ok: it did not exist
    ReqSpec req;                   // wire request
    Bytes reply;                   // its reply PDU (if answered)
    std::vector<LinStep> steps;    // user transaction, with the values it observed
    std::string who;
};
enum LinVerdict { LIN_OK, LIN_VIOLATION, LIN_UNKNOWN };
// `db` is the state before the first operation
LinVerdict lin_check(const ModelDb& db, const std::vector<LinOp>& ops, u64 budget, std::string& why);
} // namespace harn
#endif
