#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

VAL = ["Value.cpp", "values/*.cpp", "values/CreateValue.hpp"]
# ---------------------------------------------------------------- codec
prop("P01", "Value encode/decode round trip",
 "Serializing any Value of any type (the eight integer types, strings of arbitrary bytes including the empty one, undefined/raw values including the empty one, arrays of any of these including empty arrays and arrays nested up to 1,024 levels deep) and deserializing the bytes into a Value of the same type succeeds and yields an equal Value. The number of bytes reported as used and the size reported by GetSize() both equal the length of the encoding.",
 ["inputs"], "every integer of every width, every string/raw content and every array shape within the stated size bounds",
 "The Datum tests print decoded values without checking them and use one number per type; strings, arrays and undefined values are never checked.",
 VAL, [("per-type SerializeInternal/DeserializeInternal pairs", "values/*.cpp"), ("type+length envelope", "Value.cpp: Serialize, Deserialize")], ["Value::Serialize", "Value::Deserialize", "Value::GetSize", "Get()"])
prop("P02", "Datum and Request encode/decode round trip",
 "Serializing any Datum or Request (any name bytes, any 32-bit request ID, any list of arguments with any values) and deserializing it, into a fresh object or one that already has other content, succeeds with used bytes == GetSize() and yields the same name, the same ID and the same arguments with equal values in the same order and nothing else.",
 ["inputs"], "every id, name content, argument count, argument name and value within the stated size bounds; fresh and previously used targets",
 "No test decodes a Request at all except through one fixed ping/pong conversation.",
 ["Datum.cpp", "Request.cpp"], [("Datum envelope", "Datum.cpp: Serialize, Deserialize"), ("Request envelope and argument loop", "Request.cpp: Serialize, Deserialize")], ["Request::Serialize", "Request::Deserialize", "Datum::Serialize", "Datum::Deserialize"])
prop("P03", "Wire format is exactly the Dowow Protocol layout",
 "The encoding is fixed and little-endian: a value is type byte, 32-bit content length, content (integers as fixed-width two's complement, strings as 32-bit length plus bytes, arrays as 32-bit count plus encoded elements, raw as-is); a datum is 32-bit total length, 16-bit name length, name, value; a request is 32-bit total length, 32-bit ID, 16-bit name length, name, datums. Serialize() produces exactly these bytes, and decoding such bytes written by an independent encoder yields the described content.",
 ["inputs"], "every content within the stated size bounds, compared byte for byte with an independent reference encoder",
 "Tests only talk to themselves, so a change made symmetrically in encoder and decoder is invisible to them although it breaks every deployed peer.",
 ["Value.cpp", "ValueType.hpp", "values/*.cpp", "Datum.cpp", "Request.cpp"], [("type codes", "ValueType.hpp"), ("layout code", "Value.cpp, Datum.cpp, Request.cpp, values/*.cpp")], ["Serialize()", "Deserialize()"])
prop("P04", "Decoding arbitrary bytes is memory safe",
 "Deserializing any byte sequence of any length as a Value of any type, a Datum or a Request never reads or writes outside the given buffer or any other object, never crashes, throws or loops forever, and leaks nothing, whatever lengths, counts and types the bytes claim. Every public accessor (GetSize, Serialize, ToString, Get, GetCount, GetArguments, destruction) of the object is safe afterwards, whether decoding succeeded or failed.",
 ["inputs"], "every buffer content for every buffer length up to the stated bound, including all 32-bit values of every embedded length",
 "Tests feed only self-produced well-formed messages; the dangerous lengths (0, header-1, 2^32-5...) are never fed.",
 ["Value.cpp", "Datum.cpp", "Request.cpp", "values/*.cpp"], [("length checks", "Value.cpp/Datum.cpp/Request.cpp: Deserialize; values/*.cpp: DeserializeInternal")], ["Value::Deserialize", "Datum::Deserialize", "Request::Deserialize"])
prop("P05", "Truncated or undersized encodings are rejected",
 "Deserialize() never reports more bytes than it was given, and returns 0 whenever the buffer is shorter than the header or than the length the message declares, when the declared length cannot hold the header and name, when a value's content is too short for its type (or, for a string, does not match its own length), or when an array's content ends before its declared count of elements. In particular every strict prefix of a valid encoding of a value, datum or request is rejected.",
 ["inputs"], "every strict prefix of every encoding, and every buffer with arbitrary declared lengths, within the stated size bounds",
 "No test feeds a truncated or inconsistent message.",
 ["Value.cpp", "Datum.cpp", "Request.cpp", "values/*.cpp"], [("length checks", "Deserialize/DeserializeInternal")], ["return value of Deserialize"])
prop("P06", "Decoding ignores bytes after the declared length",
 "Decoding a valid encoding that is followed by arbitrary further bytes in the same buffer gives the same content and the same used-byte count as decoding the encoding alone, for values, datums and requests. No byte beyond the declared length influences the result.",
 ["inputs"], "every valid encoding and every trailing content within the stated size bounds",
 "DatumTest passes a longer buffer but with one fixed content and for datums only.",
 ["Value.cpp", "Datum.cpp", "Request.cpp"], [("declared-length-bounded decoding", "Deserialize in all three")], ["Deserialize()"])
prop("P07", "Decoding allocates memory proportional to the input",
 "While deserializing any byte sequence the library never requests a memory block that is out of proportion to the number of bytes supplied, whatever counts and lengths the bytes claim; a few hostile bytes cannot make it allocate megabytes.",
 ["inputs"], "every buffer content for every buffer length up to the stated bound, all 32-bit counts",
 "Tests never send a count or length that is not backed by data.",
 ["values/ValueArr.cpp", "values/ValueStr.cpp", "values/ValueUndefined.cpp", "Datum.cpp", "Request.cpp"], [("length/count checks before allocation", "DeserializeInternal")], ["allocation requests during Deserialize"])
prop("P08", "Accepted messages re-encode to an equivalent message",
 "If any byte sequence at all is accepted by Deserialize(), then serializing the decoded object produces exactly GetSize() bytes, which again decode successfully, consuming all of them, to the same content.",
 ["inputs"], "every accepted buffer up to the stated length bound, canonical or not",
 "Tests never decode a message that they did not produce themselves.",
 ["Value.cpp", "Datum.cpp", "Request.cpp", "values/*.cpp"], [("consistency of size, encoder and decoder", "GetSize/Serialize/Deserialize")], ["Serialize(Deserialize(b))"])
# ---------------------------------------------------------------- containers
prop("P09", "Integer values store and return exactly what was set",
 "For each of the eight integer value types, the constructor, Set(), Get(), the conversion operator and CopyFrom() preserve every representable number exactly, a default-constructed value is 0, and the reported type is the type's own code. ToString() shows the number in decimal.",
 ["inputs"], "every number of every integer type",
 "Tests set one number per type and check none of the results.",
 ["values/Value8S.cpp", "values/Value8U.cpp", "values/Value16S.cpp", "values/Value16U.cpp", "values/Value32S.cpp", "values/Value32U.cpp", "values/Value64S.cpp", "values/Value64U.cpp"], [("storage", "values/Value*.hpp")], ["Get", "Set", "CopyFrom", "ToString"])
prop("P10", "String values are binary safe",
 "A string value returns exactly the bytes it was given through its constructors, either Set() or CopyFrom(), for every content including embedded zero bytes, newlines and the empty string, and keeps no trace of the previous content when it is overwritten.",
 ["inputs", "histories"], "every content within the length bound and every sequence of two assignments",
 "One test stores the fixed text ABCDEFG and prints it.",
 ["values/ValueStr.cpp"], [("length-counted buffer", "values/ValueStr.cpp: Set, Get, CopyFrom")], ["ValueStr::Get"])
prop("P11", "Array values behave as a bounds-checked deep-copying list",
 "After any sequence of Push, Set, New, Clear, Get and CopyFrom an array holds exactly the elements a reference list holds, in order; New(n) gives n undefined elements; Get outside the bounds returns null and Set outside the bounds or with null returns false and changes nothing. Stored elements are copies: later changes to the original do not show, and passing an element of the array (or the array itself) as the argument is safe.",
 ["histories", "inputs"], "every operation sequence up to the stated length with every index and value",
 "Arrays are not tested at all.",
 ["values/ValueArr.cpp"], [("index checks and copies", "values/ValueArr.cpp: Get, Set, Push, New, Clear, CopyFrom")], ["ValueArr::Get", "ValueArr::GetCount"])
prop("P12", "Request arguments form an insertion-ordered map",
 "After any sequence of Set (copying or taking ownership), Emplace and deletion (Set with a null value), a request holds for each name the last value set, one entry per name, listed in order of first insertion; Get returns that value or null when the name is not set. Setting an argument to a value it already holds (aliasing) is safe.",
 ["histories", "inputs"], "every sequence of operations up to the stated length over arbitrary (possibly equal) names and values",
 "Tests set distinct constant names once each.",
 ["Request.cpp", "Request.hpp", "Datum.cpp"], [("find-or-append", "Request.cpp: Set, Get"), ("Datum::SetValue", "Datum.cpp")], ["Request::Get", "Request::GetArguments", "Request::GetSize"])
prop("P13", "Copies are deep, complete and independent",
 "Request::CopyFrom and the CopyFrom of every value type (also through the copying forms of Request::Set, Emplace, Datum::SetValue, ValueArr::Push/Set) make the target equal to the original in every respect (ID, name, arguments, order, values, raw bytes) with nothing left of the target's former content. Afterwards neither object is affected by changing or destroying the other.",
 ["inputs", "histories"], "every original and every former target content within the stated size bounds, for every value type",
 "Tests copy requests with integer arguments only and never look at the copy's content; undefined values and reused targets never occur.",
 ["Request.cpp", "Datum.cpp", "values/*.cpp"], [("CopyFrom chain", "Request.cpp, values/*.cpp: CopyFrom")], ["GetArguments", "Serialize of the copy"])
prop("P14", "Containers own their contents exactly once",
 "Any sequence of operations on requests, datums, arrays and values that follows the documented ownership rules (copied values stay the caller's, 'stolen' values and requests pushed without copy become the library's) frees every object exactly once: nothing is leaked, freed twice or used after it was freed.",
 ["histories"], "every operation sequence up to the stated length, with every combination of copying and stealing",
 "Leaks and dangling pointers do not fail the existing tests.",
 ["Request.cpp", "Datum.cpp", "values/ValueArr.cpp", "values/ValueStr.cpp", "values/ValueUndefined.cpp"], [("destructors and replacement code", "~Request, ~Datum, SetValue, Clear, DeleteBuffer")], ["allocator state at the end"])
prop("P15", "Typed argument access never returns a wrong type",
 "Request::Get<T>(name) returns the argument when it exists and is a T, and null when the name is not set or the argument has another type, whatever type the peer sent. GetType() of a value, of its datum and of its encoding always agree with its class.",
 ["inputs"], "all pairs of stored type and requested type, with stored values both locally set and decoded from bytes",
 "Tests only use Get<Value32S> on an argument that has that type.",
 ["Request.hpp", "values/CreateValue.hpp", "Datum.cpp"], [("dynamic_cast in Get<T>", "Request.hpp"), ("type factory", "values/CreateValue.hpp: CreateValue")], ["Request::Get<T>", "GetType"])
prop("P16", "Datum validity follows the documented rules",
 "A datum is reported valid exactly when its name consists only of ASCII letters, digits, underscores and hyphens and is 1 to 32 characters long.",
 ["inputs"], "every name of every length from 0 to 34 (all byte values)",
 "No test calls GetValid().",
 ["Datum.cpp", "Datum.hpp"], [("GetValid", "Datum.cpp")], ["Datum::GetValid"])
# ---------------------------------------------------------------- connection data path
prop("P17", "Received requests do not depend on stream segmentation",
 "However the byte stream sent by the peer is split into pieces on arrival (including in the middle of the length prefix, one byte at a time, or several requests at once) and whatever receive block size is set, the connection delivers exactly the requests contained in the stream, once each, in order, with their exact content.",
 ["inputs", "schedules"], "every content and every segmentation of the stream within the stated bounds, every block size",
 "Over loopback every small message arrives in one piece, so partial reads never happen in the tests.",
 ["Connection.cpp"], [("length-prefix reassembly", "Connection.cpp: Receive")], ["Connection::Pull", "handlers"],
 [("recv_buffer/recv_buffer_offset/is_recv_length", "partial frame", "Connection.hpp")])
prop("P18", "Pushed requests reach the wire intact and in FIFO order",
 "The bytes written to the socket are exactly the encodings of the pushed requests, in push order, each exactly once (plus keep-alive messages while idle), whatever portion of each write the kernel accepts and whatever the send block size is; no single write exceeds the block size.",
 ["inputs", "schedules"], "every request content, every sequence of partial writes and every block size within the stated bounds",
 "On loopback every write is accepted completely and requests are far smaller than a block.",
 ["Connection.cpp"], [("send buffer with offset", "Connection.cpp: Send, PopSendQueue, Push")], ["bytes passed to send()"],
 [("send_queue, send_buffer, send_buffer_offset", "outgoing data", "Connection.hpp")])
prop("P19", "End-to-end exactly-once in-order delivery",
 "Between two connected endpoints every request pushed on one side while the connection stays up is delivered on the other side exactly once, in order and with equal name, ID and arguments, for every way the transport fragments the data and every interleaving of the threads involved, in both directions at once.",
 ["inputs", "schedules"], "every fragmentation, thread schedule (up to the preemption bound) and content within the stated bounds",
 "The tests exercise one conversation at full-message granularity under one schedule.",
 ["Connection.cpp", "Request.cpp"], [("Push/Send/Receive pipeline", "Connection.cpp")], ["Connection::Push", "Connection::Pull"])
prop("P20", "Oversized and undersized frames close the connection",
 "A frame whose declared length exceeds the maximum request size (16 KiB unless changed) or is too small to be a request makes the connection close without buffering the frame; a frame of any size from the minimum up to exactly the maximum is received normally. The maximum in force is the one last set, never below 10.",
 ["inputs", "configurations"], "every 32-bit declared length and every configured maximum",
 "No test sends a frame near or beyond the limits.",
 ["Connection.cpp"], [("length checks", "Connection.cpp: Receive"), ("SetMaxRequestSize", "Connection.cpp")], ["IsConnected", "Pull", "allocations"])
prop("P21", "A hostile peer cannot corrupt the process",
 "Whatever bytes the peer sends, in whatever segmentation, and whenever it closes or resets the connection, the library performs no invalid memory access, leaks nothing, does not crash, and the connection either keeps working or closes in an orderly way with its stopped event raised.",
 ["inputs", "fault_sequences"], "every byte stream up to the stated length, every segmentation within the bound, a close or error after any read",
 "The peers in the tests are well behaved.",
 ["Connection.cpp", "Request.cpp", "Datum.cpp"], [("Receive checks and decoder checks", "Connection.cpp: Receive")], ["memory safety", "IsConnected", "WaitForStop"])
prop("P22", "A malformed frame does not affect its neighbours",
 "A complete frame whose content cannot be decoded is dropped without delivering anything and without closing the connection, and the frames before and after it are delivered unchanged.",
 ["inputs"], "every undecodable frame content within the size bound between two arbitrary valid frames",
 "No test sends a malformed frame.",
 ["Connection.cpp"], [("discard on failed Deserialize", "Connection.cpp: Receive")], ["Pull"])
prop("P23", "Each received request goes to exactly one consumer",
 "A received request is given to the handler registered for exactly its name, else to the default handler, else it is queued for Pull; it is given to exactly one of them, exactly once, and requests are handled in arrival order. Replacing or removing a handler takes effect for later requests, and keep-alive messages (named \"_\") are never delivered to anyone.",
 ["inputs", "histories"], "every request name, every handler configuration and every change between two requests within the stated bounds",
 "Tests use three fixed names with handlers set once.",
 ["Connection.cpp"], [("PassThroughHandlers", "Connection.cpp"), ("handler registry", "Connection.cpp: SetHandlerNamed/SetHandlerDefault")], ["handlers", "Pull", "GetHandlerNamed"])
prop("P24", "Automatically assigned request IDs never collide",
 "IDs assigned by Push are pairwise distinct on one endpoint, and the two ends of a connection draw from disjoint halves (odd and even), so no ID is ever used by both; with change_id=false the request's own ID is sent unchanged. After a reconnect numbering starts again in the same half.",
 ["histories", "schedules"], "every sequence of pushes on both ends up to the stated length, before and after a reconnect, from several threads",
 "Tests never look at request IDs.",
 ["Connection.cpp", "Client.cpp"], [("free_request_id step 2", "Connection.cpp: Push, SetEvenRequestIdsPart, InitializeByFD"), ("parity selection", "Client.cpp, Connection.cpp")], ["ID field of frames on the wire"])
prop("P25", "Push respects ownership and connection state",
 "Push with copying leaves the caller's request untouched and sends a snapshot taken at the time of the call; Push without copying takes ownership. On a connection that is not connected or is disconnecting Push returns null, sends nothing, now or after a later reconnect, and still consumes a request it was given without copying.",
 ["histories", "schedules"], "every request content and connection state, and every interleaving of Push with disconnection within the preemption bound",
 "Tests push only on connected connections and never inspect the original afterwards.",
 ["Connection.cpp"], [("Push", "Connection.cpp")], ["bytes on the wire", "allocator state"])
# ---------------------------------------------------------------- connection life cycle
prop("P26", "Graceful disconnect flushes everything, then closes",
 "After Disconnect(false) every request pushed before it is still written completely to the wire, nothing pushed after it is, and then the connection closes by itself promptly, also when the send queue is empty, without waiting for a timer (unless the peer stops reading or the connection fails first).",
 ["schedules", "histories"], "every number of queued requests within the bound (including none), partial writes and every interleaving with the polling thread within the preemption bound",
 "The only graceful disconnection in the tests happens with a queued request, and nobody checks how long it takes.",
 ["Connection.cpp"], [("is_disconnecting handling", "Connection.cpp: Disconnect, Send, ConnThreadFunc")], ["bytes on the wire", "IsConnected", "stopped event"])
prop("P27", "Forced or remote disconnect always reaches the stopped state",
 "After Disconnect(true), a peer close, a transport error or expiry of the peer time-out, the connection reaches the disconnected state: IsConnected() becomes false, its stopped event becomes and stays readable, every waiter is released, and WaitForStop/Disconnect(…, true) return. Calling Disconnect again or on a never-connected object is harmless.",
 ["schedules", "fault_sequences"], "every cause at every point of an exchange, every interleaving within the preemption bound",
 "Tests disconnect once from one thread in one state.",
 ["Connection.cpp"], [("to_stop/stopped events", "Connection.cpp: Disconnect, ConnThreadFunc, WaitForStop")], ["IsConnected", "GetStoppedEvent", "WaitForStop"])
prop("P28", "Keep-alive timers work as configured",
 "When nothing has been sent for the configured still-alive interval the connection sends one \"_\" request (ID 0, no arguments) and repeats this as long as it stays idle; when nothing has been received for the configured not-alive limit it closes. Traffic restarts the respective timer with the interval last configured (never below 1 second; 10 and 60 by default), so neither fires early on an active connection.",
 ["configurations", "schedules"], "every configured interval and every traffic/silence pattern within the stated bounds, with time as a symbolic variable",
 "Tests run for less than the default intervals, so the timers never fire.",
 ["Connection.cpp", "Utils.cpp"], [("timerfd pair", "Connection.cpp: ConnThreadFunc, Receive, Send, SetOurSaInterval, SetTheirNaIntervalLimit")], ["timer settings", "bytes on the wire", "IsConnected"])
prop("P29", "Pull returns requests in order and honours its time-out",
 "Pull (by one thread at a time) returns queued requests in arrival order, also after disconnection; Pull(0) never blocks; Pull(t>0) blocks until a request arrives, the connection is ending or t seconds (not some other unit) have passed; Pull(t<0) blocks until a request arrives or the connection ends. It never blocks forever on a connection that is or becomes disconnected.",
 ["schedules", "inputs"], "every time-out value, and every interleaving of arrival, disconnection and Pull within the preemption bound",
 "No test calls Pull.",
 ["Connection.cpp"], [("receive_event", "Connection.cpp: Pull, Receive, ConnThreadFunc")], ["Pull", "poll time-outs"])
prop("P30", "References keep a connection alive",
 "While at least one SafeConnection (or IncreaseRefs without matching DecreaseRefs) to a connection exists, the library neither finishes its teardown nor frees it, even if it was disconnected meanwhile, and the holder may call any of its methods (except waiting for the end of the very connection it holds) without deadlock; once the last reference is released, a disconnected connection finishes its teardown promptly.",
 ["schedules", "histories"], "every number of references within the bound and every interleaving of acquire, use, release and disconnection within the preemption bound",
 "No test uses SafeConnection.",
 ["Connection.cpp", "SafeConnection.hpp", "Server.cpp"], [("reference counter and not_needed event", "Connection.cpp: IncreaseRefs, DecreaseRefs, ConnThreadFunc")], ["GetRefs", "stopped event"])
prop("P31", "A reconnected client starts from a clean state",
 "After a disconnection in any state (in the middle of a frame in either direction, with queued requests, during graceful shutdown) a client can connect again, and the new session delivers and sends exactly the new session's requests: no stale bytes, queued requests, flags or events of the old session show up, while settings and handlers are kept.",
 ["histories"], "every point of the first session within the bound at which it ends, every reason, every content",
 "The tests reconnect only after a complete exchange.",
 ["Connection.cpp", "Client.cpp"], [("InitializeByFD reset, teardown cleanup", "Connection.cpp")], ["Pull", "bytes on the wire", "IsConnected"])
prop("P32", "Descriptors are closed exactly once",
 "Over every life cycle of connections, clients and servers (connect success and failure, disconnect, reconnect, start success and failure, stop, destruction) every descriptor the library opens or adopts is closed exactly once, and no descriptor is used after it was closed.",
 ["histories", "fault_sequences"], "every life-cycle history and every failing system call within the stated bounds",
 "Leaked and doubly closed descriptors do not fail the existing tests.",
 ["Connection.cpp", "Client.cpp", "Server.cpp"], [("close calls in teardown and error paths", "Connection.cpp, Client.cpp, Server.cpp")], ["descriptor table"])
prop("P33", "Destroying a connection releases everything",
 "Destroying a connection or client in any state (never connected, connected with unsent or unread requests, in the middle of a frame, disconnected) stops its thread, closes the connection, and frees every queued request and buffer exactly once.",
 ["histories", "schedules"], "every state within the bound at which the object is destroyed",
 "Leaks do not fail the existing tests.",
 ["Connection.cpp", "Client.cpp"], [("~Connection, teardown", "Connection.cpp")], ["allocator state", "descriptor table", "threads"])
prop("P34", "Connection settings are clamped and reported faithfully",
 "Each getter returns the value last set, clamped to the documented minimum (block sizes 1, maximum request size 10, timer intervals 1); named handlers, default handler, session data and tag read back as set; defaults are 1024-byte blocks, 16384-byte maximum, 10 and 60 second intervals, no handlers.",
 ["inputs"], "every 32-bit/64-bit setting value",
 "No test reads a setting back.",
 ["Connection.cpp", "Connection.hpp"], [("setters and getters", "Connection.cpp")], ["getters"])
# ---------------------------------------------------------------- client / server
prop("P35", "Client connect reports the truth and can be retried",
 "ConnectTcp and ConnectUnix return true exactly when the client is connected afterwards; on any failure (socket creation, invalid address, refused or timed-out connection, overlong path) they return false, leave the client disconnected, not connecting and reusable. They wait for the connection exactly as long as it takes but not longer than the time-out (a negative one is infinite), refuse to run while already connected, and use exactly the address, port or path given.",
 ["fault_sequences", "inputs"], "every failing call, every port, arbitrary address strings and path lengths within the bounds",
 "Tests only connect successfully to one fixed address.",
 ["Client.cpp"], [("connecting thread", "Client.cpp: TcpThreadFunc, UnixThreadFunc, ConnectTcp, ConnectUnix")], ["return value", "IsConnected", "IsConnecting", "arguments of connect()"])
prop("P36", "The server enforces its connection limit",
 "A server never has more concurrent connections than the configured maximum (negative means unlimited, 0 means none); further clients stay pending and are accepted when a slot becomes free or the limit is raised. Lowering the maximum below the current number closes nothing but lets nobody further in.",
 ["schedules", "configurations"], "every limit value and every order of arrivals and departures within the stated bounds",
 "Tests connect one client at a time to a server with limit 5.",
 ["Server.cpp"], [("accept gating", "Server.cpp: ServerThreadFunc")], ["connected/disconnected handler calls", "accept calls"])
prop("P37", "Connection IDs are unique and lookups are exact",
 "Every accepted connection has a non-zero ID, distinct from every other connection of the same server run, already visible in the connected handler and in every request handler. GetConnection(id) and GetConnection(tag) return a reference to the connection with exactly that ID or tag while it is connected, and null once it ended or for any other ID or tag.",
 ["histories", "schedules"], "every sequence of arrivals, departures and lookups within the stated bounds",
 "No test looks a connection up.",
 ["Server.cpp"], [("free_conn_id, GetConnection", "Server.cpp")], ["Connection::id", "Server::GetConnection"])
prop("P38", "Connect and disconnect handlers fire exactly once",
 "For each accepted connection the connected handler runs exactly once, before GetConnection can hand the connection to another thread, and if it ends while the server runs, the disconnected handler runs exactly once, with the object still valid, before it is freed. Servers without one or both handlers work normally.",
 ["histories", "schedules"], "every order of arrivals and departures (including simultaneous ones) and every handler configuration within the bounds",
 "Tests always set both handlers and have at most one connection at a time.",
 ["Server.cpp"], [("AcceptOne, ServerThreadFunc", "Server.cpp")], ["handler calls"])
prop("P39", "A failed server start leaves the server startable",
 "StartTcp/StartUnix return true exactly when the server listens on exactly the given address; on failure of any step (socket, invalid address, overlong path, unlink, bind, listen) or when already started they return false, leave the type, descriptors and running state as before, and a later start can succeed. StartUnix removes an existing file only when asked to.",
 ["fault_sequences", "inputs"], "every failing step, every port, arbitrary address strings and path lengths within the bounds",
 "Tests start one server successfully.",
 ["Server.cpp"], [("error paths", "Server.cpp: StartUnix, StartTcp")], ["return value", "GetType", "bind()/listen()/unlink() arguments"])
prop("P40", "Stopping a server closes everything and allows a restart",
 "After Stop() the server disconnects and frees every connection, closes its listening socket, removes its own UNIX socket file, and only then releases WaitForStop callers; afterwards it is in the not-running state and can be started again, and WaitForStop then waits for the new run. Stop on a server that is not running is harmless.",
 ["histories", "schedules"], "every number of live connections within the bound, start/stop/restart histories, every interleaving within the preemption bound",
 "Tests stop a server once at the end of the process.",
 ["Server.cpp"], [("ServerThreadFunc epilogue, Stop, WaitForStop", "Server.cpp")], ["GetType", "WaitForStop", "descriptor table", "unlink() argument"])
prop("P41", "Transient system-call failures do not harm the server",
 "An interrupted poll (EINTR) or a failed accept neither stops the server nor disturbs any live connection, and an interrupted poll does not close or stall a connection; pending clients are still served afterwards.",
 ["fault_sequences"], "a failure injected at every poll/accept call within the bound",
 "Tests never see an interrupted or failing call.",
 ["Server.cpp", "Connection.cpp"], [("event loops", "Server.cpp: ServerThreadFunc; Connection.cpp: ConnThreadFunc")], ["server keeps accepting", "connections stay usable"])
prop("P42", "Waiting functions translate time-outs faithfully",
 "Every waiting function that takes seconds (WaitForStop of connections and servers, Pull, and the select/event helpers) waits for that many seconds for every representable value: zero polls, negative waits indefinitely, and large values never wrap to a shorter, longer-than-forever or negative wait.",
 ["inputs"], "every int time-out",
 "Tests use 0, 1 and -1 only.",
 ["Utils.cpp", "Connection.cpp", "Server.cpp"], [("seconds to poll time-out", "Utils.cpp: SelectRead, SelectWrite; Connection.cpp: Pull")], ["poll() time-out argument"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
