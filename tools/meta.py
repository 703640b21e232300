#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (one source for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CC = "lib/src/client/channel/ClientChannelTcp.cpp"
CT = "lib/src/client/channel/AsioClientTcpConnection.cpp"
CS = "lib/src/client/session/ClientSessionImpl.cpp"
SR = "lib/src/client/session/ScheduledRequest.hpp"
SC = "lib/src/server/channel/ServerChannelTcp.cpp"
AS = "lib/src/server/channel/AsioServer.cpp"
ST = "lib/src/server/channel/AsioServerTcpConnection.cpp"
SL = "lib/src/server/channel/ServerConnectionListener.cpp"
MM = "lib/src/ModbusManagerImpl.cpp"
TW = "lib/src/TimerWrapper.cpp"
MP = "lib/src/messages/mbap/MbapParser.cpp"
ME = "lib/src/messages/mbap/MbapMessage.cpp"
DB = "lib/src/server/db/InMemoryDatabase.cpp"
SD = "lib/src/server/db/SingleTypeDatabase.cpp"
MSG = "lib/src/messages"
UT = ("The unit tests run one object at a time on a mock executor and mock connections, with no sockets, threads, timers or faults; "
      "the client, the server channel and the manager are not even part of the suite that runs here. ")

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, na=na, note=note))

prop("C01", "Every request of a client is answered exactly once, in bounded time",
     "For every request sent through a client session, the response handler is called exactly once - with the response, the exception the device sent, or an error - within a bounded time (the timeouts of the requests before it on its channel and its own), whatever the device and the network do. "
     "No handler is ever called a second time, including by answers that come late or twice, and by errors that coincide with a timeout or a response. "
     "Only the requests that are still waiting when their channel or manager is shut down are discarded instead: their handlers are released, and not called any more once the shutdown is complete.",
     ["schedules", "inputs", "fault_sequences", "histories"],
     "every mix of concurrent requests over channels and sessions, device behaviour, network fault, timeout and shutdown, and every interleaving of the background threads",
     UT + "A lost or doubled callback needs a particular coincidence of response, timeout, error and shutdown.",
     [CC, CT, CS, "lib/src/client/channel/PendingRequest.h"],
     [("one current request plus a queue; whoever finishes the request clears it first", CC + ": check_pending_requests, cancel_current_request, on_mbap_message, on_error"),
      ("pending requests cancelled at shutdown", CC + ": shutdown, cancel_all_pending_requests")],
     state=[("m_pending_requests, m_current_request", "requests accepted but not yet answered", "lib/src/client/channel/ClientChannelTcp.h")],
     observe=["response handlers passed to send_request"])
prop("C02", "A handler gets only the response to its own request, unchanged",
     "A response handed to a handler has exactly the content of a well-formed frame that the device sent after that request, over a connection of the same channel, with the request's transaction, unit and function, and it fits what was asked (addresses, number and values). "
     "A frame with another transaction or unit, a late or repeated answer to an earlier request, or a malformed frame is never delivered as the response to another request; a malformed answer to the request is reported as malformed.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "every sequence of right, late, duplicate, reordered, foreign, malformed and split answers to every history of requests",
     UT + "The tests parse single literal frames; none has two requests, a late answer, or a byte stream cut at an arbitrary place.",
     [CC, MP, MSG],
     [("transaction and unit of the answer compared with the current request", CC + ": on_mbap_message"),
      ("length and function checks of each message", MSG + "/*Impl.cpp: build_response"),
      ("reassembly of frames from the stream", MP)],
     observe=["Expected<Response> passed to the handlers", "bytes the simulated devices sent"])
prop("C03", "Requests of a channel go out one at a time, in order, at most once",
     "On one client channel a request is put on the wire only when no other request of that channel is outstanding, and requests appear on the wire in the order in which they were accepted from each calling thread. "
     "The library never sends a request twice, and the transaction identifiers of consecutive requests of a channel differ.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of threads that send through the sessions of one channel, every device timing and every loss of the connection",
     UT + "Order and multiplicity on the wire are only visible end to end.",
     [CC, CT],
     [("strand shared by the sessions of a channel, FIFO queue, single current request", CC + ": send_request, check_pending_requests"),
      ("one frame per request handed to the connection", CT + ": send")],
     observe=["frames received by the simulated devices"])
prop("C04", "A timeout is reported on time: never early, never long after",
     "A request ends in a timeout only when its whole timeout has passed since it was handed to the connection without an acceptable answer, and then it ends within a bounded delay of it. "
     "An answer that arrives in time is delivered whatever the timeouts of earlier or later requests of the channel, of which each has its own.",
     ["schedules", "inputs", "histories"],
     "every combination of request timeouts, device delays around them, and scheduling of timer against response",
     UT + "It takes a timer and a response that expire in the same instant, and the request that follows.",
     [CC],
     [("response timer per current request, cancelled and replaced", CC + ": check_pending_requests")],
     observe=["time and kind of handler calls against simulated time"])
prop("C05", "A client channel recovers by itself once the network works again",
     "After any sequence of failures (refused, unreachable, slow or failing name lookup, exhausted sockets, reset, closed or half-closed connection, lost packets, silence, garbage), a request sent once the device is reachable again and behaves is answered with its data, at the latest on the second attempt. "
     "No failure leaves a channel, its sessions or its later requests unusable.",
     ["fault_sequences", "schedules", "histories"],
     "every sequence and placement of connection faults, including faults while connecting, sending, waiting and right after recovery",
     UT + "No test ever opens a connection.",
     [CT, CC],
     [("reconnect on the next request, resolve and connect every time", CT + ": send, begin_connect, resolve_handler, connect_handler"),
      ("parser reset and current request ended on connection errors", CC + ": on_error")],
     state=[("m_connection_status, m_connection_id", "state of the current connection attempt", "lib/src/client/channel/AsioClientTcpConnection.h")],
     observe=["outcome of probe requests after the last fault"])
prop("C06", "A server answers every request exactly as its database says",
     "Every valid request for a unit backed by the in-memory database is answered with exactly the values the database holds, and every write is applied completely before it is acknowledged, for all addresses 0 to 65535 and all allowed quantities. "
     "A range with any address that was not added is refused with an illegal data address exception and changes nothing, and coils, discrete inputs, holding registers and input registers do not influence each other. "
     "What a client of this library reads is what it or others wrote last.",
     ["inputs", "histories", "configurations"],
     "every history of reads and writes by several connections, and every layout of the database",
     UT + "Tests look at a few addresses of one table; none runs histories through server and client together.",
     [SC, DB, SD, MSG],
     [("dispatch per function code", SC + ": on_mbap, process_message"), ("range checks before writes", SD + ": set_values, is_valid_range"), ("encoding and decoding of messages", MSG)],
     observe=["reply bytes at raw TCP clients", "results at library clients"])
prop("C07", "A server gets requests right however they are cut up, and survives bad ones",
     "However TCP splits or joins the bytes of the requests of a connection, each well-formed request of a known unit gets exactly one reply, in order, with its own transaction and unit. "
     "A request with an unknown function or an impossible quantity or value gets the exception reply Modbus asks for, a body of the wrong length and a frame for another protocol are ignored, and the requests after it on the same connection are still answered; a frame with an impossible length costs at most its own connection. "
     "Nothing that one client sends stops the server from serving the others.",
     ["inputs", "schedules", "fault_sequences"],
     "every segmentation of every pipelined sequence of valid, malformed, truncated, oversized and foreign frames",
     UT + "The parser is fed whole frames and a few splits; no test has pipelined requests on a live connection.",
     [MP, SL, SC, ST, MSG],
     [("incremental parser", MP + ": parse, find_body_size, send_data"), ("exception replies for malformed requests", SC + ": on_mbap, process_message")],
     observe=["reply bytes at raw TCP clients"])
prop("C08", "Errors reach the caller as what they are",
     "A Modbus exception of a device reaches the client's handler as a Modbus exception of exactly that type, and an exception (any of the known types) that a server session returns reaches the client as the same type and code. "
     "A request to a unit that has no session gets no reply at all, an expired timeout is reported as a timeout, an unusable answer as a malformed response, and a failure to connect or a lost connection as a connection error.",
     ["inputs", "fault_sequences"],
     "every exception type and function, every way a connection or device can fail",
     UT + "The tests check the encoding of single exceptions and no path from one end to the other.",
     [SC, CC, MSG + "/ExceptionResponse.cpp", MSG + "/ExceptionType.cpp", CT],
     [("exception responses built and recognised", MSG + "/ExceptionResponse.cpp"), ("errors of sessions turned into replies", SC + ": process_message, send_message"), ("connection errors handed to the channel", CT + ": send_error")],
     observe=["kind of error passed to the handlers", "reply bytes at raw TCP clients"])
prop("C09", "A server holds to its connection limit and never stops accepting",
     "A server never serves more connections at a time than the maximum it was created with; when a further client connects, exactly one of the connections it serves - the oldest - is closed to make room, and no other. "
     "Connections that end in any way free their place, and neither failed accepts (aborted connections, no free descriptors) nor any order of connects and disconnects stops the server from accepting and serving new clients.",
     ["schedules", "fault_sequences", "histories", "configurations"],
     "every order of connects, requests and disconnects (closed, half-closed, reset), every limit and every error of accept",
     UT + "No test opens a listening socket.",
     [AS, ST],
     [("connection list in accept order with a maximum", AS + ": start_accept, handle_accept, remove_connection"), ("closing on errors", ST + ": close, notify_close")],
     state=[("m_connections", "connections being served", "lib/src/server/channel/AsioServer.h")],
     observe=["connections seen by the simulated network", "replies to raw clients"])
prop("C10", "Slow peers and short writes neither damage nor lose data",
     "Whatever part of a write the socket accepts at a time, every frame that goes out - request or response - is a complete frame and frames never mix. "
     "A peer that reads slowly or not at all holds up only its own connection, its later replies come complete and in order once it reads, and the amount the server buffers for it stays bounded.",
     ["fault_sequences", "schedules", "inputs"],
     "every pattern of partial writes, small socket buffers, pauses of the peer and pipelined requests",
     UT + "A partial write needs a full socket buffer.",
     [CT, ST],
     [("one composed write at a time", CT + ": send_buffer, write_handler; " + ST + ": send_buffer, write_handler"), ("no reading while a reply is pending", ST + ": begin_read")],
     observe=["bytes at devices and raw clients", "allocated memory"])
prop("C11", "Scheduled requests run as a single chain with the asked period",
     "A started scheduled request sends its first request promptly and then waits the current period after each completion before it sends the next, however often and from whichever threads it is started, stopped and given other periods; there are never two chains of it at once. "
     "Errors and timeouts do not end it; after a stop has taken effect nothing more is sent until it is started again, starting it again resumes it, and the reported state and period are those last set. "
     "A shutdown of its session or channel ends it.",
     ["schedules", "histories", "fault_sequences"],
     "every sequence of start, stop, period changes and shutdown from several threads and from the handler itself, against every timing of the responses",
     UT + "Scheduling has no test at all.",
     [SR, CS],
     [("run counter that ends superseded chains, executed on the strand", SR + ": start, stop, execute")],
     observe=["times of the requests at the simulated device", "is_running, get_frequency"])
prop("C12", "Shutting down is graceful, complete and bounded, at any moment",
     "A shutdown of a session, a client channel, a server or the manager, at any moment, in any order and repeatedly - that of sessions, channels and servers from handlers as well - neither crashes nor blocks for ever; the shutdown of the manager returns within a bounded time once the timers and handlers of the user are done. "
     "When the manager's shutdown has returned, all its background threads have ended, its sockets are closed, no handler runs any more and the handlers of all requests have been released; after the shutdown of a client channel or of a server, started or not, none of its connections or its listening port stays open. "
     "Requests, schedules and sessions given to a client channel that was shut down, and whatever is given to a server that was shut down, are refused without any effect.",
     ["schedules", "crash_points", "histories"],
     "every point of every activity at which something is shut down or its last handle is dropped",
     UT + "No test shuts anything down while it is busy.",
     [MM, CC, CS, AS, SC],
     [("work guard, channels shut down then threads joined", MM + ": shutdown"), ("session and channel flags, weak references in handlers", CC + ": shutdown; " + CS + ": shutdown; " + AS + ": shutdown")],
     observe=["return of shutdown, threads, sockets and handler calls in the simulator"])
prop("C13", "The API can be used from any thread",
     "Any mix of calls on the public interfaces from any threads - creating and removing channels and sessions, sending, scheduling, timers, database access, adding server sessions, shutting down - is free of data races and deadlocks, and has the same effect as some sequential order of the calls. "
     "Handlers run only on the manager's background threads, one at a time for each channel.",
     ["schedules", "programs"],
     "every interleaving of memory accesses and lock operations of several user threads and one to four background threads",
     UT + "They are single-threaded.",
     [CC, CS, SC, DB, SR, TW, MM],
     [("strands", CC + ": send_request; " + SC + ": add_session; " + CS), ("mutexes of the database and the session lists", DB + "; " + CC), ("atomic flags", SR)],
     observe=["happens-before race detection on every access of the library", "thread of every handler call"])
prop("C14", "Database requests and transactions are atomic and linearizable",
     "Every Modbus request that a database serves, every transaction and every addition of addresses takes effect at one instant between its start and its end, completely or not at all; all observers agree on one order. "
     "This holds for any number of threads, connections and servers that share the database.",
     ["schedules", "histories"],
     "every interleaving of requests over several connections and servers with transactions and additions on user threads",
     UT + "The tests use the database from one thread.",
     [DB, SD],
     [("one mutex for requests and transactions", DB + ": on_request, execute_transaction, add_*")],
     observe=["invocation/response history of requests and transactions, checked for linearizability"])
prop("C15", "Timers fire once, not early, promptly, and not after cancel",
     "A timer started on a session runs its action exactly once, on a background thread, not before its expiration and within a bounded delay after it, whether it was given as a duration or as a point in time. "
     "Cancelling a timer before it expires prevents its action and otherwise has no effect; the expiration it reports is the one asked for; dropping the timer object does not stop it; cancelling twice or late is harmless.",
     ["schedules", "inputs", "histories"],
     "every interleaving of start, cancel and expiry from several threads, for durations from zero up",
     UT + "Timers are only tested against a mock executor, if at all.",
     [TW, CS],
     [("timer of the executor behind a mutex-free handle", TW + ": cancel, expires_at"), ("timers on the strand", CS + ": start")],
     observe=["times of the actions in simulated time"])
prop("C16", "A client uses the local adapter and the remote address it was given",
     "Every connection attempt of a client channel goes to the address and port of its endpoint (any address its host name resolves to, in turn until one accepts), and leaves from the adapter that was named when the channel was created, on the first and on every later connection. "
     "Without a named adapter the system chooses; with one that is not usable the requests fail with a connection error rather than going out elsewhere.",
     ["configurations", "histories", "fault_sequences"],
     "every adapter and host form, including those that do not exist, over repeated reconnections",
     UT + "No test opens a connection.",
     [CT, MM],
     [("bind before connect", CT + ": begin_connect"), ("resolver iteration", CT + ": resolve_handler, connect_handler")],
     observe=["bind and connect calls at the simulated kernel"])
prop("C17", "A misbehaving device does not disturb other channels",
     "Whatever the device of one client channel does - silence, garbage, floods, resets, unreachability - the requests of the channels to healthy devices are answered as if it were alone, with their own data and in time.",
     ["fault_sequences", "schedules", "configurations"],
     "every behaviour of the bad devices, any number of background threads down to one",
     UT + "There is never more than one channel.",
     [CC, CT, MM],
     [("separate connection, queue and strand for each channel", MM + ": create_client_tcp_channel"), ("no blocking calls on the background threads", CT)],
     observe=["outcome and latency of requests to healthy devices"])
prop("C18", "What a client puts on the wire is exactly the request, or nothing",
     "Every byte a client sends belongs to a well-formed Modbus TCP frame with protocol 0, the right length, the unit of the session and the exact function, addresses, quantity and values of the request of the user. "
     "Requests whose quantity Modbus does not allow are refused locally with an error about the request and put nothing on the wire.",
     ["inputs", "schedules", "fault_sequences"],
     "all request types, all quantities including 0, the limits, and beyond, all addresses, any concurrency and connection history",
     UT + "Encodings of a few literal requests are tested; not what the channel sends.",
     [CC, ME, MSG, CS],
     [("requests validated before they are sent", CS + ": meta_send_request"), ("frame header", ME + ": build_message"), ("encoding", MSG)],
     observe=["bytes at the simulated devices against the arguments of send_request"])
prop("C19", "No peer can make the library touch memory it does not own",
     "Whatever bytes a device or client sends, in whatever pieces, and whenever connections break or objects are shut down or dropped, the library performs no access outside live memory, frees nothing twice, reads nothing uninitialised into its answers, throws nothing out of its threads and never spins without end.",
     ["inputs", "fault_sequences", "schedules", "crash_points"],
     "every byte stream from devices and clients, every cut and every loss, and every lifetime of the objects",
     UT + "Tests run without sanitizers and with well-behaved peers.",
     [MP, MSG, CC, SC, ST, CT],
     [("length checks in parser and messages", MP + "; " + MSG), ("shared and weak ownership in asynchronous handlers", CT + "; " + ST)],
     observe=["instrumented heap accesses and lifetimes", "uncaught exceptions, crashes, livelocks"])
prop("C20", "Each request reaches the session registered for its unit, once",
     "Every request a server receives is handed exactly once to the session registered for its unit with exactly the requested content, and to no other; the reply carries that session's answer. "
     "Registering a session again for a unit replaces the earlier one, sessions may be added before and while the server runs, and units do not affect each other.",
     ["configurations", "histories", "schedules"],
     "every set of units and order of registrations, also while requests are being served",
     UT + "Server channels have no test.",
     [SC],
     [("map of sessions by unit", SC + ": add_session, on_mbap")],
     observe=["calls received by custom sessions", "replies"])
prop("C21", "Connections and memory stay bounded however often things fail",
     "A client channel has at most one connection open at a time and closes each it gives up; a server closes the connections that end. "
     "However many connections, failures, requests and shutdowns there have been, no socket, thread or memory stays behind once everything is released.",
     ["histories", "fault_sequences"],
     "every history of reconnects, failed attempts, timeouts and shutdowns",
     UT + "Leaks need repeated failures.",
     [CT, ST, AS, MM, CC],
     [("close before reconnect", CT + ": close_connection"), ("connections removed on close", AS + ": remove_connection"), ("no ownership cycles", CC + "; " + AS)],
     observe=["sockets, threads and heap of the simulator at the end of a run"])

NA = "a pure function of its input: no schedule, clock, I/O, fault or second party for a simulator to control, so seeded simulation would only be input generation under another name"
prop("C22", "An expected value holds either a value or an error, and says which",
     "A result object built from a value reports a value and returns it, one built from an error reports an error and rethrows it as its own type, and asking for the value of an error throws.",
     ["inputs"], "every value and error type", "Quantified over all types and values; the tests use a few.",
     ["lib/include/modbus/Expected.h"], [("variant of value and exception", "lib/include/modbus/Expected.h")], na=NA + " (its use on the paths of a request is covered by C01, C02 and C08)")
prop("C23", "Addresses, units, transactions and messages print and compare by value",
     "Endpoints, unit and transaction identifiers compare equal exactly when their values are equal and print their values; every exception type and message has its documented text.",
     ["inputs"], "every value", "Quantified over all values; the tests use a few.",
     ["lib/src/Ipv4Endpoint.cpp", "lib/src/UnitIdentifier.cpp", "lib/src/TransactionIdentifier.cpp", "lib/src/messages/ExceptionType.cpp"],
     [("operators and to_string", "lib/src/UnitIdentifier.cpp")], na=NA)
prop("C24", "Loggers are created with the requested name, level and sinks",
     "The logger factory creates a logger for the asked name, level and sink, and returns the one that exists when it is asked for again.",
     ["inputs"], "every name and level", "Quantified over all names and levels; the tests use a few.",
     ["lib/src/logging/LoggerFactory.cpp"], [("spdlog registry", "lib/src/logging/LoggerFactory.cpp")], na=NA)

NOTE = ("Sampled, not exhaustive: thousands of seeded executions per run, each with its own configuration, workload, schedule and fault mix. The whole library with asio runs unmodified in one process on a simulated kernel "
        "(threads, locks, clocks, sockets, epoll, timers, DNS, heap); trusted: the simulator, the harness oracles, and the shims for exe4cpp and ser4cpp (submodules absent here). ")
LN = {
 "C13": NOTE + "Interleavings are sequentially consistent; data races are found by happens-before analysis of every instrumented access, not by executing weak memory.",
 "C14": NOTE + "Histories are kept short enough for a complete linearizability search.",
 "C19": NOTE + "Heap accesses, lifetimes and uninitialised output bytes are checked by the simulator's allocator and instrumented accesses; stack and globals are covered only through crashes.",
}

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]: a["observe_at"] = list(p["observe"])
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 tools/build.py",
         "hooks": {"guard": "MODBUS_SIMULATION", "enable": "no hook was needed: the simulator replaces the system calls below asio at link time and instruments the sources at compile time; -DMODBUS_SIMULATION is passed but nothing in /repo reads it", "source_commits": []},
         "checks": [], "not_applicable": [],
         "notes": "Every check builds the simulator from /repo's working tree (tools/build.py), checks that runs repeat exactly, explores seeds derived from VERIF_SEED, and replays and minimises what it finds. Replay: python3 tools/replay.py <file>."}
    for p in P:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']} quick", "thorough_cmd": f"python3 tools/check.py {p['id']} thorough",
                                "evidence_file": f"evidence/{p['id']}.json", "technique": "deterministic simulation of the whole library with seeded schedules and fault injection",
                                "level": "exploration", "level_note": LN.get(p["id"], NOTE.strip())})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

if __name__ == "__main__":
    main()
