"""What each check explores and which violations it answers for."""
import re

# profile mixes: profile -> weight
MIX = {
    "C01": {"client": 3, "recovery": 2, "hostile": 2, "threads": 2, "e2e": 1, "sched": 1},
    "C02": {"hostile": 4, "client": 3, "clean": 2, "wire": 1, "recovery": 1},
    "C03": {"client": 3, "threads": 2, "clean": 2, "hostile": 2, "e2e": 2},
    "C04": {"client": 3, "hostile": 3, "clean": 1, "recovery": 1, "backpressure": 1},
    "C05": {"recovery": 5, "client": 2, "hostile": 2, "conns": 1},
    "C06": {"server": 4, "e2e": 4, "lin": 1, "framing": 1},
    "C07": {"framing": 5, "server": 1},
    "C08": {"hostile": 2, "recovery": 2, "server": 2, "sessions": 2, "framing": 1, "e2e": 2, "wire": 1},
    "C09": {"conns": 5, "shutdown": 1},
    "C10": {"backpressure": 5, "framing": 1, "client": 1},
    "C11": {"sched": 5, "shutdown": 1, "threads": 1},
    "C12": {"shutdown": 5, "timer": 1, "sched": 1, "threads": 1},
    "C13": {"threads": 5, "shutdown": 3, "lin": 2, "sessions": 1, "e2e": 1},
    "C14": {"lin": 4, "threads": 1, "e2e": 1},
    "C15": {"timer": 5, "threads": 1, "shutdown": 1},
    "C16": {"wire": 4, "clean": 2, "recovery": 1},
    "C17": {"isolation": 1},
    "C18": {"wire": 5, "client": 2, "clean": 1, "backpressure": 1},
    "C19": {"hostile": 3, "framing": 3, "recovery": 2, "shutdown": 2, "conns": 1, "threads": 1},
    "C20": {"sessions": 4, "server": 2, "e2e": 2},
    "C21": {"recovery": 3, "conns": 3, "shutdown": 2, "hostile": 1, "client": 1},
}

# classes of violations a check reports besides those that name its property;
# "*" (memory errors, crashes, deadlocks, livelocks) is reported by every check
EXTRA = {
    "C01": {"late-outcome", "callback-leak", "completed-after-shutdown", "callback-after-shutdown", "completed-twice"},
    "C02": {"completed-twice", "wrong-answer-e2e", "transaction-reused"},
    "C03": {"completed-twice"},
    "C04": {"never-completed", "response-lost", "failed-without-fault", "loss-not-reported", "refusal-not-reported"},
    "C05": {"never-completed", "not-recovered", "no-session", "response-lost", "failed-without-fault", "spurious-connection-error"},
    "C06": {"no-reply", "missing-reply", "wrong-reply", "unexpected-reply", "answered-silent", "not-linearizable"},
    "C07": {"no-reply", "missing-reply", "wrong-reply", "answered-silent", "server-not-accepting", "unexpected-reply", "wrong-unit"},
    "C08": {"wrong-reply", "never-completed", "wrong-outcome", "missing-reply", "no-reply", "answered-silent", "outcome-from-nowhere", "outcome-without-request", "early-timeout"},
    "C09": {"no-reply", "missing-reply"},
    "C10": {"no-reply", "missing-reply", "wrong-reply", "unexpected-reply", "bad-frame-on-wire", "wrong-bytes", "unknown-frame", "never-completed", "response-lost", "failed-without-fault", "sent-twice"},
    "C11": {"never-completed"},
    "C12": {"never-completed"},
    "C13": {"never-completed", "completed-twice", "not-linearizable", "reordered", "completed-out-of-order", "pipelined", "sent-twice", "transaction-reused", "second-chain",
            "polls-after-stop", "running-after-stop", "add-result", "add-refused", "no-session", "session-after-shutdown", "wrong-call", "timer-lost", "timer-fired-twice",
            "canceled-timer-fired", "thread-survives", "request-not-delivered", "period-not-applied", "wrong-custom-answer"},
    "C14": {"wrong-reply", "not-linearizable", "wrong-answer-e2e"},
    "C16": {"failed-without-fault", "not-recovered"},
    "C18": {"sent-twice"},
    "C20": {"no-reply", "missing-reply", "wrong-reply", "answered-silent", "failed-without-fault-e2e", "wrong-unit", "unexpected-reply"},
    "C21": {"thread-survives"},
}

# data races are C13's; those in the code behind another property break that one too
RACES = {
    "C03": r"modbus::ClientChannelTcp::(send_request|check_pending_requests)",
    "C09": r"modbus::AsioServer::",
    "C11": r"modbus::ScheduledRequest",
    "C12": r"::shutdown|::close",
    "C14": r"modbus::(InMemory|SingleType)Database",
    "C15": r"modbus::TimerWrapper",
    "C19": r"::shutdown|::close|~|free|delete|container|vector|map|deque|list",
    "C20": r"modbus::ServerChannelTcp",
}

def relevant(pid, v):
    props = v["prop"].split(",")
    if pid in props or "*" in props:
        return True
    if "RACE" in props:
        return pid == "C13" or (pid in RACES and re.search(RACES[pid], v["cls"] + " " + v["msg"]) is not None)
    return v["cls"] in EXTRA.get(pid, ())
