"""Which jobs decide which property. A job is one symbolic execution of a harness entry with fixed parameters (the bounds)."""
CORES = 8
def J(entry, time=60, reach=(), samples=6, rand=False, instr=3000000, **params):
    return dict(entry=entry, params=params, time=time, reach=list(reach), samples=samples, rand=rand, instr=instr)
PROPS = {}
TECH = "symbolic execution of the compiled library (LLVM IR) with Z3 deciding path feasibility, memory bounds and assertions; counterexamples replayed natively"
TRUST = ["the symbolic engine (/verif/engine) interprets LLVM 18 IR correctly; a sample of its paths is re-executed natively on every run and compared",
         "clang -O1 without optimisation passes preserves the C++ semantics; gcc's build behaves the same (native replays use gcc)",
         "allocation never fails; little-endian x86-64"]
def P(pid, harness, jobs, bounds, note, extra=()):
    PROPS[pid] = dict(harness=harness, jobs=jobs, bounds=bounds, assumptions=TRUST + list(extra), note=note)
ALL = range(0, 11)

def p01(t):
    if t == "quick": return [J("p01_value", depth=0, len=8, lo=0, hi=9), J("p01_value", depth=0, len=4, used=1, lo=0, hi=9)] + [J("p01_value", depth=2, len=0, el=2, lo=10, hi=10), J("p01_value", depth=1, len=2, el=2, lo=10, hi=10)]
    return [J("p01_value", depth=0, len=16, lo=0, hi=9), J("p01_value", depth=0, len=16, used=1, lo=0, hi=9), J("p01_value", time=600, depth=1, len=1, el=4, lo=10, hi=10), J("p01_value", time=600, depth=1, len=3, el=3, lo=10, hi=10), J("p01_value", time=600, depth=3, len=0, el=2, lo=10, hi=10), J("p01_value", time=600, depth=2, len=2, el=2, lo=10, hi=10)]
P("P01", ["codec.cpp"], p01, {"quick": "integers: all 2^w numbers of all 8 types; strings and raw values: every content of length 0..8; arrays of 0..2 elements of every type nested 2 deep", "thorough": "contents of length 0..16, arrays up to 4 elements, nested up to 3 deep"},
  "Every number, every content byte within the size bounds; sizes and nesting are bounded.")
def p02(t):
    q = t == "quick"
    r = [J("p02_request", time=60 if q else 600, args=1, depth=1, len=2, namelen=2), J("p02_request", time=60 if q else 600, args=2, depth=0, len=1, namelen=1, lo=0, hi=9), J("p02_request", time=60, args=1, depth=0, used=1, len=1, namelen=2), J("p02_datum", len=3, namelen=4), J("p02_datum", len=2, namelen=2, used=1), J("p02_request", args=0, namelen=8, depth=0)]
    if not q: r += [J("p02_request", time=600, args=3, depth=0, len=1, namelen=0, argname=1), J("p02_request", time=600, args=2, depth=1, len=1, namelen=0, argname=1, lo=7, hi=10), J("p02_datum", len=8, namelen=32), J("p02_request", args=0, namelen=40, depth=0)]
    return r
P("P02", ["codec.cpp"], p02, {"quick": "all IDs, all name bytes of length 0..8 (requests) / 0..4 (datums), 0..2 arguments of every type with every content of length 0..2, one level of arrays", "thorough": "names up to 40 bytes, up to 3 arguments, contents up to 8 bytes"},
  "Every byte of ID, names and contents within the size bounds; names over 65535 bytes cannot be represented on the wire and are outside.")
def p03(t):
    q = t == "quick"
    r = [J("p03_value", depth=0, len=8, hi=9), J("p03_value", time=60 if q else 600, depth=2, len=0 if q else 1, el=2, lo=10, hi=10), J("p03_value", depth=1, len=2, el=2, lo=10, hi=10), J("p03_request", args=1, depth=1, len=2), J("p03_request", args=2, depth=0, len=1, namelen=1), J("p03_request", args=0, namelen=8)]
    if not q: r += [J("p03_value", depth=0, len=16, hi=9), J("p03_value", time=600, depth=2, len=2, el=2, lo=10, hi=10), J("p03_request", time=600, args=3, depth=0, len=1, namelen=1), J("p03_request", args=0, namelen=40)]
    return r
P("P03", ["codec.cpp"], p03, {"quick": "as P01/P02, compared byte by byte with an independent reference encoder, both directions", "thorough": "as P01/P02 thorough"},
  "Compared with a reference encoder written from the protocol description (harness/ref.h).")
def p04(t):
    q = t == "quick"
    r = [J("p04_value", n=n, type=ty) for ty in ALL for n in ((0, 4, 7, 13) if ty != 10 else (0, 4, 5, 7, 9, 14, 20))]
    r += [J("p04_value", n=12, type=ty, str=1) for ty in (0, 1, 9, 10)] + [J("p04_value", n=9, type=ty, again=10) for ty in (0, 9, 10)]
    r += [J("p04_datum", n=n) for n in (0, 3, 5, 6, 7, 9, 12)] + [J("p04_request", n=n) for n in (0, 5, 9, 10, 13, 17, 22)] + [J("p04_request", n=21, used=1)]
    if not q: r += [J("p04_value", time=600, n=n, type=10) for n in (24, 28, 32)] + [J("p04_value", time=300, n=32, type=9, str=1)] + [J("p04_datum", time=600, n=n) for n in (14, 16, 20)] + [J("p04_request", time=800, n=n) for n in (24, 26, 28, 32)] + [J("p04_request", time=600, n=22, str=1)]
    return r
P("P04", ["codec.cpp"], p04, {"quick": "every byte sequence of the lengths 0,4,7,13 (values of every type; arrays up to 20), 0..12 (datums) and 0..22 (requests), in an exactly sized heap block; every accessor afterwards", "thorough": "values up to 32 bytes, datums up to 20, requests up to 32"},
  "All byte sequences of the listed lengths; every access of the real code is checked against object bounds by the solver.")
def p05(t):
    q = t == "quick"
    r = [J("p05_value", n=n, type=ty) for ty in ALL for n in ((3, 5, 8, 12) if ty != 10 else (3, 5, 8, 12, 16))]
    r += [J("p05_datum", n=n) for n in (0, 5, 6, 9, 12)] + [J("p05_request", n=n) for n in (0, 9, 10, 13, 18)]
    r += [J("p05_prefix_value", depth=0, len=4, hi=9), J("p05_prefix_value", time=60 if q else 600, depth=1, len=1, el=2, lo=10, hi=10), J("p05_prefix_request", args=1, depth=0, len=1, namelen=1), J("p05_prefix_request", args=0, depth=0, namelen=3)]
    if not q: r += [J("p05_value", time=600, n=24, type=10), J("p05_datum", time=600, n=18), J("p05_request", time=600, n=26), J("p05_prefix_request", time=600, args=2, depth=0, len=1, namelen=0), J("p05_prefix_value", time=600, depth=2, len=1, el=2, lo=10, hi=10)]
    return r
P("P05", ["codec.cpp"], p05, {"quick": "every byte sequence of up to 12 (values), 16 (arrays), 12 (datums), 18 (requests) bytes against reference acceptance rules; every strict prefix of every encoding with contents up to 4 bytes, arrays of up to 2 elements, requests with 0..1 arguments", "thorough": "arrays up to 24 bytes, datums 18, requests 26"},
  "Acceptance rules are written independently in the harness; rejection is only required where the statement requires it.")
def p06(t):
    q = t == "quick"
    r = [J("p06_value", depth=0, len=4, hi=9, tail=8), J("p06_value", time=60 if q else 600, depth=1, len=1, el=2, lo=10, hi=10, tail=7), J("p06_request", args=1, depth=0, len=1, tail=14), J("p06_request", args=0, namelen=4, tail=16)]
    if not q: r += [J("p06_value", time=600, depth=2, len=1, el=2, lo=10, hi=10, tail=3), J("p06_request", time=600, args=2, depth=0, len=1, tail=20), J("p06_request", time=600, args=1, depth=1, len=1, tail=24)]
    return r
P("P06", ["codec.cpp"], p06, {"quick": "every value with contents up to 4 bytes, arrays of up to 2 elements, requests with 0..1 arguments, followed by 1..16 arbitrary bytes", "thorough": "2 arguments, nested arrays, up to 24 following bytes"},
  "All contents and all following bytes within the size bounds.")
def p07(t):
    q = t == "quick"
    r = [J("p04_value", n=n, type=ty, limit=1) for ty in ALL for n in (5, 9, 14)] + [J("p04_value", n=18, type=10, limit=1)] + [J("p04_datum", n=n, limit=1) for n in (7, 11, 12)] + [J("p04_request", n=n, limit=1) for n in (10, 17, 22)]
    if not q: r += [J("p04_value", time=600, n=28, type=10, limit=1), J("p04_datum", time=600, n=18, limit=1), J("p04_request", time=800, n=28, limit=1)]
    return r
P("P07", ["codec.cpp"], p07, {"quick": "every byte sequence of up to 14 (values), 18 (arrays), 12 (datums), 22 (requests) bytes; no single request above 512 + 16 n bytes", "thorough": "arrays 28, datums 18, requests 28 bytes"},
  "Decided by the solver at every allocation the decoder performs; the limit (512 + 16 times the input length per block) is generous.")
def p08(t):
    q = t == "quick"
    r = [J("p08_value", n=n, type=ty) for ty in ALL for n in ((9, 13) if ty != 10 else (9, 14, 19))] + [J("p08_datum", n=n) for n in (11, 13)] + [J("p08_request", n=n) for n in (12, 18, 22)]
    if not q: r += [J("p08_value", time=600, n=26, type=10), J("p08_datum", time=600, n=18), J("p08_request", time=800, n=27)]
    return r
P("P08", ["codec.cpp"], p08, {"quick": "every byte sequence of up to 13 (values), 19 (arrays), 13 (datums), 22 (requests) bytes that is accepted", "thorough": "arrays 26, datums 18, requests 27 bytes"},
  "All accepted byte sequences of the listed lengths.")

def p09(t):
    q = t == "quick"
    return [J("p09_ints")] + [J("p09_text", time=40 if q else 300, type=ty, bits=(6 if ty >= 5 else 4 if ty == 4 else 3 if ty == 3 else 2 if ty == 2 else 1) + (0 if q else 2)) for ty in range(1, 9)]
P("P09", ["cont.cpp"], p09, {"quick": "storage: all numbers of all 8 types, no bound; ToString(): all numbers whose magnitude differs from 0, the largest one, 96, 10^6, 10^9 or 10^18 in the low 1 to 6 bits, and the most negative number", "thorough": "ToString(): 2 more bits"},
  "Storage is decided for every number; the decimal text for the neighbourhoods of five corner numbers per type.")
def p10(t):
    q = t == "quick"
    r = [J("p10_string", len=3, ops=2), J("p10_string", len=8, ops=1), J("p10_text", len=3)]
    if not q: r += [J("p10_string", time=600, len=2, ops=4), J("p10_string", time=600, len=4, ops=3), J("p10_string", len=16, ops=1), J("p10_text", time=300, len=6)]
    return r
P("P10", ["cont.cpp"], p10, {"quick": "every content of length 0..3 over 2 operations, 0..8 over 1 operation, every constructor", "thorough": "length 0..2 over 4 operations, 0..4 over 3, 0..16 over 1"},
  "Every byte value at every position within the size bounds, checked against the reference content after every operation, with leak check.")
def p11(t):
    q = t == "quick"
    r = [J("p11_array", ops=2, leak=0)] + [J("p11_array", time=60 if q else 900, ops=3, first=f, leak=0, samples=3) for f in (0, 1, 2, 3, 4, 5, 6, 8)]
    if not q: r += [J("p11_array", time=900, ops=3, pushes=2, first=f, leak=0, nest=0) for f in range(1, 10)] + [J("p11_array", time=300, ops=8, leak=0, rand=True)]
    return r
P("P11", ["cont.cpp"], p11, {"quick": "every history of 3 operations over {Push, Set, New, Clear, CopyFrom (other/self/element), Get, aliasing forms}, every 32-bit index, every number and character stored", "thorough": "additionally 2 pushes followed by 3 operations, and a bounded search through histories of 8"},
  "All histories of the bounded length compared with a reference list after every operation.")
def p12(t):
    q = t == "quick"
    r = [J("p12_request", ops=2, leak=0)] + [J("p12_request", time=60 if q else 900, ops=3, first=f, leak=0, samples=3) for f in range(9)]
    if not q: r += [J("p12_request", time=900, ops=4, first=f, leak=0, samples=3) for f in range(9)] + [J("p12_request", time=300, ops=8, leak=0, rand=True)]
    return r
P("P12", ["cont.cpp"], p12, {"quick": "every history of 3 operations over {Set copying/stealing/by reference, Emplace, delete, aliasing forms}, every one-byte name, every number and character", "thorough": "histories of 4, and a bounded search through histories of 8"},
  "All histories of the bounded length compared with a reference map after every operation; names are single arbitrary bytes.")
def p13(t):
    q = t == "quick"
    r = [J("p13_value", depth=1, len=2, lo=0, hi=9), J("p13_value", depth=1, len=1, lo=10, hi=10), J("p13_request", args=0), J("p13_request", args=1), J("p13_request", args=2, lo=7, hi=9)]
    if not q: r += [J("p13_value", time=600, depth=2, len=1, lo=10, hi=10), J("p13_value", depth=1, len=8, lo=0, hi=9), J("p13_request", time=600, args=2), J("p13_request", time=600, args=3, lo=7, hi=9)]
    return r
P("P13", ["cont.cpp"], p13, {"quick": "every value of every type with contents up to 2 bytes and arrays of up to 2 elements through all seven copying forms; requests with 0..2 arguments copied over requests with 0..2 former arguments; every later change or destruction of either side", "thorough": "contents up to 8 bytes, arrays nested twice, 3 arguments"},
  "All contents within the size bounds. Requests received with repeated argument names are outside (a copy keeps one of each name).")
def p14(t):
    q = t == "quick"
    r = [J("p14_mixed", ops=2)] + [J("p14_mixed", time=60 if q else 900, ops=3, first=f, samples=2) for f in range(14)] + [J("p11_array", ops=2), J("p12_request", ops=2), J("p10_string", len=2, ops=2), J("p13_value", len=1), J("p13_request", args=1)]
    if not q: r += [J("p14_mixed", time=300, ops=4, first=f, samples=2, rand=True) for f in range(14)] + [J("p11_array", time=900, ops=3), J("p12_request", time=900, ops=3)]
    return r
P("P14", ["cont.cpp"], p14, {"quick": "every history of 3 operations over 14 kinds of operation on two requests, a datum and an array, and of 2 operations over the histories of P10-P13; leak, double free and use after free are decided on every path", "thorough": "histories of 4 (bounded search) and of 3 for P11/P12"},
  "All histories of the bounded length.")
def p15(t):
    q = t == "quick"
    r = [J("p15_set")] + [J("p15_wire", n=n) for n in (5, 6, 8, 9, 13, 16)]
    if not q: r += [J("p15_wire", time=600, n=n) for n in (20, 24)]
    return r
P("P15", ["cont.cpp"], p15, {"quick": "every value of every type set locally, and every argument encoding of 5, 6, 8, 9, 13 and 16 bytes sent by a peer, against all 11 classes", "thorough": "encodings of 20 and 24 bytes"},
  "All type bytes and contents within the listed sizes.")
def p16(t):
    q = t == "quick"
    return [J("p16_valid", time=60 if q else 600, len=4 if q else 7), J("p16_long")]
P("P16", ["cont.cpp"], p16, {"quick": "every name of length 0..4; every length 1..40 with one arbitrary byte at every position", "thorough": "every name of length 0..7"},
  "All byte values; long names have one arbitrary byte each.")
# ---------------------------------------------------------------- connections
KERNEL = "the kernel, clock and thread scheduler are the model in /verif/model (sockets, eventfd, timerfd, poll, time in eighths of a second); threads switch at mutex operations, system calls and thread starts, in every order that deviates from round robin at most the stated number of times"
CONN = ["conn.cpp"]; LIFE = ["life.cpp"]; SRV = ["server.cpp"]
def p17(t):
    q = t == "quick"
    r = [J("p17_segments", reqs=2, shape=s, cuts=2, block=b) for s in (0, 1, 3) for b in (1, 4, 1024)] + [J("p17_segments", reqs=1, shape=s, cuts=1, block=b, rsplit=2) for s in (0, 2) for b in (2, 1024)] + [J("p17_segments", reqs=2, shape=4, cuts=1, unix=1), J("p17_segments", reqs=2, shape=0, cuts=1, block=1024, delays=1)]
    r += [J("p17_long", len=3000), J("p17_long", len=1024, rsplit=1), J("p17_long", len=16384), J("p17_long", len=300, block=7, rsplit=1), J("p17_long", len=70000, max=70000)]
    if not q: r += [J("p17_segments", time=600, reqs=3, shape=s, cuts=3, block=b) for s in range(5) for b in (1, 3, 1024)] + [J("p17_segments", time=600, reqs=2, shape=0, cuts=2, block=1024, delays=2), J("p17_segments", time=600, reqs=2, shape=2, cuts=1, rsplit=3), J("p17_long", time=600, len=3000, rsplit=2)]
    return r
P("P17", CONN, p17, {"quick": "streams of 1..2 requests (5 shapes with arbitrary IDs, names, contents) cut at every 2 positions, 7 receive block sizes, up to 2 short reads of any size; frames of 300 to 70000 bytes; one deviation of the scheduler", "thorough": "streams of 3 requests cut at every 3 positions, 3 short reads, 2 deviations of the scheduler"},
  "Every cut position and every size of each short read is a symbolic choice.", [KERNEL])
def p18(t):
    q = t == "quick"
    r = [J("p18_wire", reqs=2, shape=s, sndbuf=b, wsplit=w) for s in (0, 2) for b, w in ((1024, 1), (5, 0))] + [J("p18_wire", reqs=2, shape=1, block=bl, sndbuf=16, wsplit=1, how=0) for bl in (1, 3, 1024)] + [J("p18_wire", reqs=2, block=1024, how=0, delays=2), J("p18_wire", reqs=3, block=7, how=0, gap=0)]
    r += [J("p18_threads", reqs=1, delays=2), J("p18_threads", reqs=2, delays=1), J("p18_threads", reqs=2, sndbuf=9, delays=1)]
    if not q: r += [J("p18_wire", time=600, reqs=2, shape=s, sndbuf=b, wsplit=w) for s in (1, 3) for b, w in ((1024, 2), (3, 1))] + [J("p18_threads", time=900, reqs=2, delays=2), J("p18_wire", time=600, reqs=3, how=0, delays=2, block=1024)]
    return r
P("P18", CONN, p18, {"quick": "2..3 requests with arbitrary contents, 6 block sizes, socket buffers of 5, 16 and 1024 bytes, one partial write of any size; two pushing threads with 1..2 scheduler deviations", "thorough": "two partial writes, three requests, 2 deviations"},
  "The wire may additionally carry keep-alive frames only when time passes, which these harnesses do not let happen.", [KERNEL])
def p19(t):
    q = t == "quick"
    r = [J("p19_pair", reqs=2, delays=1), J("p19_pair", reqs=1, delays=2), J("p19_pair", reqs=2, sndbuf=9, block=5), J("p19_pair", reqs=2, unix=1, rsplit=1, wsplit=1), J("p19_pair", reqs=1, rsplit=2), J("p19_echo", reqs=2, delays=1), J("p19_echo", reqs=1, delays=2), J("p19_echo", reqs=3, sndbuf=12)]
    if not q: r += [J("p19_pair", time=900, reqs=2, delays=2), J("p19_echo", time=900, reqs=2, delays=2), J("p19_pair", time=600, reqs=2, rsplit=2, wsplit=1), J("p19_echo", time=900, reqs=1, delays=3)]
    return r
P("P19", CONN, p19, {"quick": "two real endpoints, 1..2 requests in each direction at once, 1..2 scheduler deviations, one short read and one partial write of any size, tiny buffers; answers sent from a handler", "thorough": "2..3 deviations"},
  "Both endpoints are the real code, connected by the socket model.", [KERNEL])
def p20(t):
    q = t == "quick"
    r = [J("p20_length"), J("p20_length", setmax=1), J("p20_length", setmax=2), J("p20_length", rsplit=2), J("p20_exact"), J("p20_exact", max=30, lo=10), J("p20_exact", max=10, lo=10), J("p20_exact", max=3, lo=10), J("p20_exact", max=40, lo=10, block=3), J("p20_exact", max=100000)]
    if not q: r += [J("p20_exact", time=600, max=200, lo=10, block=11), J("p20_length", time=300, setmax=1, rsplit=3)]
    return r
P("P20", CONN, p20, {"quick": "every 32-bit declared length against every maximum below 4,000,000 (last of two settings); whole frames of every length 10..41 and around 16384 and 100000", "thorough": "every length 10..201"},
  "All declared lengths; buffering is bounded by an allocation limit in the same run.", [KERNEL])
def p21(t):
    q = t == "quick"
    r = [J("p21_stream", n=n) for n in (3, 12, 16)] + [J("p21_stream", n=14, handler=1), J("p21_stream", n=11, settle=0, delays=1), J("p21_stream", n=12, rsplit=1), J("p21_stream", n=24, max=12), J("p21_stream", n=13, block=1)]
    r += [J("p21_frame", n=n) for n in (10, 14, 17, 20, 22)] + [J("p21_frame", n=18, handler=1), J("p21_frame", n=12, frames=2, cut=1), J("p21_frame", n=14, settle=0, delays=1)]
    if not q: r += [J("p21_stream", time=600, n=n) for n in (20, 24, 28)] + [J("p21_frame", time=600, n=n) for n in (24, 26, 28)] + [J("p21_frame", time=600, n=14, frames=2, handler=1), J("p21_stream", time=600, n=14, rsplit=2), J("p21_frame", time=600, n=12, settle=0, delays=2)]
    return r
P("P21", CONN, p21, {"quick": "every byte stream of 3, 11..16 and 24 bytes and every frame content of 10..22 bytes, one or two frames, followed by nothing, close, reset or half-close; with and without handler", "thorough": "streams and frames up to 28 bytes, 2 scheduler deviations"},
  "All byte contents of the listed lengths; every access of the real code is checked against object bounds by the solver.", [KERNEL])
def p22(t):
    q = t == "quick"
    r = [J("p22_between", n=n, bad=1) for n in (10, 12, 14, 16, 18, 20)] + [J("p22_between", n=12, bad=2), J("p22_between", n=16, rsplit=1)]
    if not q: r += [J("p22_between", time=600, n=n, bad=1) for n in (22, 24, 26)] + [J("p22_between", time=600, n=17, bad=2)]
    return r
P("P22", CONN, p22, {"quick": "every content of one frame of 10..20 bytes (two of 12) between two well-formed ones", "thorough": "frames up to 26 bytes, two of 17"},
  "Whether a frame is decodable is decided by Request::Deserialize itself (P05 decides that one).", [KERNEL])
def p23(t):
    q = t == "quick"
    r = [J("p23_dispatch", reqs=2, namelen=2), J("p23_dispatch", reqs=2, namelen=1, two=0, delays=1), J("p23_dispatch", reqs=1, namelen=3, delays=1)]
    if not q: r += [J("p23_dispatch", time=900, reqs=3, namelen=2), J("p23_dispatch", time=900, reqs=2, namelen=2, delays=1), J("p23_dispatch", time=900, reqs=2, namelen=3)]
    return r
P("P23", CONN, p23, {"quick": "1..2 requests with every name of length 0..3 against two registered names (one arbitrary) and a default handler, with one change of the registration in between", "thorough": "3 requests with two changes, one scheduler deviation"},
  "All names within the bounds, compared with a reference table.", [KERNEL])
def p24(t):
    q = t == "quick"
    r = [J("p24_ids", reqs=3, sessions=2), J("p24_ids", reqs=2, sessions=3), J("p24_ids", reqs=2, sessions=1, delays=1), J("p24_threads", reqs=1, delays=2), J("p24_threads", reqs=2, delays=1)]
    if not q: r += [J("p24_ids", time=600, reqs=4, sessions=2), J("p24_threads", time=900, reqs=2, delays=2), J("p24_ids", time=600, reqs=2, sessions=2, delays=1)]
    return r
P("P24", CONN, p24, {"quick": "2..3 requests per session with every combination of own and assigned IDs, every own ID, 1..3 sessions, on a client and an accepted connection; two pushing threads with 1..2 scheduler deviations", "thorough": "4 requests, more deviations"},
  "The counter wrapping after 2^31 requests of one session is outside.", [KERNEL])
def p25(t):
    q = t == "quick"
    r = [J("p25_copy"), J("p25_refused"), J("p25_race", delays=2), J("p25_copy", delays=1)]
    if not q: r += [J("p25_race", time=900, delays=3), J("p25_race", time=900, delays=2, pun=1)]
    return r
P("P25", CONN, p25, {"quick": "all three forms of Push in 4 states of the connection with arbitrary contents, followed by a reconnect; Push against a parallel disconnection with 2 scheduler deviations", "thorough": "3 deviations"},
  "All contents; all schedules within the bound.", [KERNEL])
def p26(t):
    q = t == "quick"
    r = [J("p26_flush", max=2), J("p26_flush", max=2, sndbuf=5, block=3), J("p26_flush", max=3, block=4), J("p26_flush", max=1, delays=1), J("p26_flush", max=1, threads=1, delays=1), J("p26_flush", max=1, wsplit=1), J("p26_handler", delays=1), J("p26_handler", sndbuf=4), J("p26_race", delays=1), J("p26_race", delays=2)]
    if not q: r += [J("p26_flush", time=900, max=2, delays=2), J("p26_flush", time=600, max=2, threads=1, delays=2), J("p26_flush", time=600, max=2, wsplit=2), J("p26_race", time=900, delays=3)]
    return r
P("P26", LIFE, p26, {"quick": "0..3 requests with arbitrary contents before the disconnection, idle or talking peer, tiny buffers and blocks, partial writes; disconnection from the same thread, another thread, a handler; 1..2 scheduler deviations", "thorough": "2..3 deviations"},
  "The peer keeps reading; a peer that stops reading is ended by the time-out of P28.", [KERNEL])
def p27(t):
    q = t == "quick"
    r = [J("p27_stop"), J("p27_stop", unix=1), J("p27_stop", delays=1), J("p27_never"), J("p27_race", delays=1), J("p27_race", delays=2, pull=-1), J("p27_race", delays=2, pull=1)]
    if not q: r += [J("p27_stop", time=900, delays=2), J("p27_race", time=900, delays=3)]
    return r
P("P27", LIFE, p27, {"quick": "nine causes of the end in four states of the connection, with and without waiting threads, 1..2 scheduler deviations; races of two causes", "thorough": "2..3 deviations"},
  "Liveness is decided as: nobody is still blocked when virtual time could only advance past the allowed moment.", [KERNEL])
def p28(t):
    q = t == "quick"
    r = [J("p28_still_alive", time=120, steps=2, first=f, second=g) for f in range(4) for g in range(4)] + [J("p28_still_alive", steps=1, wide=1), J("p28_not_alive", steps=2), J("p28_not_alive", steps=1, wide=1), J("p28_when"), J("p28_idle"), J("p28_idle", delays=1)]
    if not q: r += [J("p28_still_alive", time=900, steps=3, first=f, second=g) for f in range(4) for g in range(4)] + [J("p28_not_alive", time=900, steps=3, first=f) for f in range(5)]
    return r
P("P28", LIFE, p28, {"quick": "histories of 1..2 events (send, receive, change of an interval to any value up to 20/100/300000 s) each followed by a silence of any length up to two intervals; exact moments for every pair of intervals below 10^6 s; two idle library endpoints for 200 s", "thorough": "histories of 3 events"},
  "Times are decided in eighths of a second.", [KERNEL])
def p29(t):
    q = t == "quick"
    r = [J("p29_timeout"), J("p29_arrival"), J("p29_arrival", delays=1), J("p29_order", reqs=2), J("p29_order", reqs=2, delays=1), J("p29_order", reqs=1, delays=2), J("p29_order", reqs=2, timeout=3, delays=1), J("p29_order", reqs=2, timeout=0), J("p29_order", reqs=2, rsplit=1)]
    if not q: r += [J("p29_order", time=900, reqs=2, delays=2), J("p29_arrival", time=900, delays=2), J("p29_order", time=900, reqs=3, delays=2)]
    return r
P("P29", LIFE, p29, {"quick": "every 32-bit time-out against every moment of the arrival or of the end; 1..2 requests pulled while they arrive, four ways to end, 1..2 scheduler deviations", "thorough": "3 requests, 2 deviations"},
  "One thread pulls at a time.", [KERNEL])
def p30(t):
    q = t == "quick"
    r = [J("p30_hold", max=2), J("p30_hold", max=3), J("p30_hold", max=1, delays=1), J("p30_race", delays=1), J("p30_race", delays=2), J("p30_destroy", delays=2)]
    if not q: r += [J("p30_hold", time=900, max=2, delays=1), J("p30_race", time=900, delays=3), J("p30_destroy", time=900, delays=3)]
    return r
P("P30", LIFE, p30, {"quick": "1..3 references taken before or after the end, four causes of the end, every method called by the holder; releases in parallel to the destruction with 1..2 scheduler deviations", "thorough": "3 deviations"},
  "References obtained through a server are covered by P37.", [KERNEL])
def p31(t):
    q = t == "quick"
    r = [J("p31_reconnect"), J("p31_reconnect", unix=1, sndbuf=30), J("p31_reconnect", delays=1, sndbuf=30, timers=0), J("p31_reconnect", delays=1, settle=1, timers=0)]
    if not q: r += [J("p31_reconnect", time=900, sessions=2, sndbuf=s) for s in (5, 30)] + [J("p31_reconnect", time=900, delays=2)]
    return r
P("P31", LIFE, p31, {"quick": "one former session ended in six states by five causes (part of a frame of every length, unsent and unread requests, graceful shutdown), then a second one, one scheduler deviation", "thorough": "two former sessions, 2 deviations"},
  "Threads that still wait on the former session while the client reconnects are outside.", [KERNEL])
def p33(t):
    q = t == "quick"
    r = [J("p33_destroy"), J("p33_destroy", delays=1), J("p33_destroy", delays=2)]
    if not q: r += [J("p33_destroy", time=900, delays=3)]
    return r
P("P33", LIFE, p33, {"quick": "destruction in ten states of a client or accepted connection, 2 scheduler deviations", "thorough": "3 deviations"},
  "Leaks, double frees and uses after free are decided on every path.", [KERNEL])
P("P34", CONN, lambda t: [J("p34_settings")], "every 32- and 64-bit value of every setting, set twice, on an unconnected client and a connection; every pair of two-byte handler names, every tag and session pointer",
  "Complete within the listed forms of use.", [KERNEL])
def p42(t):
    r = [J("p42_wait", fn=f, happens=h) for f in range(4) for h in (0, 1) if not (f == 3 and h)]
    return r
P("P42", LIFE, p42, {"quick": "every 32-bit number of seconds against every moment of the event up to 2.2*10^9 s", "thorough": "as quick"},
  "Complete for each waiting function.", [KERNEL])
# ---------------------------------------------------------------- clients and servers
LS = ["life.cpp", "server.cpp"]; CS = ["conn.cpp", "server.cpp"]
def p35(t):
    q = t == "quick"
    r = [J("p35_tcp"), J("p35_tcp", delays=1), J("p35_tcp", tries=2), J("p35_address"), J("p35_unix"), J("p35_unix", delays=1)]
    if not q: r += [J("p35_tcp", time=600, delays=2), J("p35_tcp", time=600, tries=3), J("p35_unix", time=600, delays=2), J("p35_unix", time=600, tries=2)]
    return r
P("P35", SRV, p35, {"quick": "every outcome of every step of the connection attempt, answered after any delay up to 130 s, against every 32-bit time-out; every port, all addresses of the form dd.d.d.d and 8 others; paths of 9 lengths up to 300; one repeated attempt; one scheduler deviation", "thorough": "two repeated attempts, 2 scheduler deviations"},
  "The moment of the time-out is only required for TCP.", [KERNEL])
def p36(t):
    q = t == "quick"
    r = [J("p36_limit", steps=3, first=f) for f in range(3)] + [J("p36_limit", steps=2, delays=1, first=f) for f in range(3)] + [J("p36_limit", steps=2, peers=2, symbolic=1), J("p36_race", delays=1), J("p36_race", delays=2)]
    if not q: r += [J("p36_limit", time=900, steps=4, first=f, peers=2) for f in range(3)] + [J("p36_limit", time=900, steps=3, delays=1, first=f) for f in range(3)] + [J("p36_race", time=900, delays=3)]
    return r
P("P36", SRV, p36, {"quick": "histories of 2..3 steps of arrivals, departures, changes of the limit and disconnections by the server with up to 3 clients per step, limits -1..3 and (two steps) every 32-bit limit; arrivals in parallel to departures and changes of the limit with 2 scheduler deviations", "thorough": "histories of 4 steps, 3 deviations"},
  "Lowering the limit below the number of connections closes none; no further one is accepted.", [KERNEL])
def p37(t):
    q = t == "quick"
    r = [J("p37_ids", peers=2), J("p37_ids", peers=2, unix=1), J("p37_ids", peers=3), J("p37_ids", peers=2, gap=1), J("p37_ids", peers=2, delays=1), J("p37_race", delays=1), J("p37_race", delays=2), J("p37_race", looks=3, delays=1)]
    if not q: r += [J("p37_ids", time=600, peers=3, gap=1, delays=1), J("p37_ids", time=600, peers=2, delays=2), J("p37_race", time=900, delays=3), J("p37_race", time=900, looks=3, delays=2)]
    return r
P("P37", SRV, p37, {"quick": "2..3 clients arriving and leaving, every 32-bit ID and every tag of 0..2 bytes looked up; lookups and use of the references in parallel to arrivals, departures and Stop() with 2 scheduler deviations", "thorough": "3 deviations"},
  "The 32-bit ID counter wrapping is outside.", [KERNEL])
def p38(t):
    q = t == "quick"
    r = [J("p38_handlers", peers=2), J("p38_handlers", peers=1, delays=2), J("p38_handlers", peers=2, delays=1), J("p38_reject", delays=2)]
    if not q: r += [J("p38_handlers", time=600, peers=3), J("p38_handlers", time=900, peers=2, delays=2), J("p38_reject", time=600, delays=3)]
    return r
P("P38", SRV, p38, {"quick": "1..2 clients ending in every way (close, reset, forced or graceful disconnection by the server, not at all) with every subset of the handlers set, 1..2 scheduler deviations; a connected handler that disconnects", "thorough": "3 clients, 2..3 deviations"},
  "Connections that Stop() closes need no disconnected handler (P40).", [KERNEL])
def p39(t):
    q = t == "quick"
    r = [J("p39_start", unix=u, tries=1) for u in (0, 1)] + [J("p39_start", unix=u, tries=2) for u in (0, 1)] + [J("p39_start", unix=u, delays=1) for u in (0, 1)] + [J("p39_address")]
    if not q: r += [J("p39_start", time=900, unix=u, tries=3) for u in (0, 1)] + [J("p39_start", time=900, unix=u, delays=2) for u in (0, 1)]
    return r
P("P39", SRV, p39, {"quick": "1..2 attempts with a failure of each step, overlong paths, existing files, taken addresses, followed by a working start; every port, all addresses of single digits and 7 others", "thorough": "3 attempts, 2 scheduler deviations"},
  "Failures of eventfd() and of starting a thread are outside.", [KERNEL])
def p40(t):
    q = t == "quick"
    r = [J("p40_stop", time=120, unix=u, peers=2) for u in (0, 1)] + [J("p40_stop", time=120, peers=1, delays=1), J("p40_stop", time=120, unix=1, peers=1, delays=1, restart=0), J("p40_destroy", delays=2), J("p40_race", delays=1), J("p40_race", delays=2)]
    if not q: r += [J("p40_stop", time=900, unix=u, peers=2, delays=1) for u in (0, 1)] + [J("p40_destroy", time=900, delays=3), J("p40_race", time=900, delays=3)]
    return r
P("P40", SRV, p40, {"quick": "0..2 clients in six states (idle, half received, unsent, referenced, in a slow handler, disconnecting) and one pending, with and without handlers, 0..2 parallel callers, three time-outs, restart on the same or another address; destruction in five states; lookups, arrivals and departures in parallel; 1..2 scheduler deviations", "thorough": "2..3 deviations"},
  "Callers that still wait when the server is restarted at once are outside.", [KERNEL])
def p41(t):
    q = t == "quick"
    r = [J("p41_server", eintr=1), J("p41_server", eintr=1, delays=1), J("p41_server", eintr=2), J("p41_conn", eintr=1, delays=1), J("p41_conn", eintr=2)]
    if not q: r += [J("p41_server", time=900, eintr=2, delays=1), J("p41_conn", time=900, eintr=3), J("p41_conn", time=900, eintr=2, delays=1), J("p41_server", time=900, eintr=3)]
    return r
P("P41", SRV, p41, {"quick": "1..2 interrupted waits at every place, one failed accept with each of five errors, clients arriving and leaving, one scheduler deviation", "thorough": "3 interruptions, 2 with a scheduler deviation"},
  "Interruptions of other system calls than waits do not happen to non-blocking descriptors.", [KERNEL])
def p32(t):
    q = t == "quick"
    r = [J("p31_reconnect", timers=0), J("p33_destroy", delays=1), J("p27_stop"), J("p26_handler", delays=1), J("p30_hold", max=2), J("p35_tcp", tries=2), J("p35_unix", delays=1), J("p38_handlers", peers=2), J("p39_start", unix=0, tries=2), J("p39_start", unix=1, tries=2), J("p40_stop", time=120, unix=1, peers=1, delays=1), J("p40_destroy", delays=2), J("p40_race", delays=2), J("p37_race", delays=1)]
    if not q: r += [J("p31_reconnect", time=900, delays=1), J("p33_destroy", time=900, delays=3), J("p27_stop", time=900, delays=2), J("p39_start", time=900, unix=1, tries=3), J("p40_stop", time=900, unix=0, peers=2, delays=1), J("p40_race", time=900, delays=3)]
    return r
P("P32", LS, p32, {"quick": "the life cycles of P26, P27, P30, P31, P33, P35 and P37-P40 with the quick bounds of those", "thorough": "with more scheduler deviations"},
  "The kernel model never reuses a descriptor number, so every close or use of a closed descriptor is an error on the spot, and a descriptor left open is one at the end.", [KERNEL])
# entries of the other harnesses that also belong to properties defined above
def more(pid, harness, quick, thorough=()):
    p = PROPS[pid]; f = p["jobs"]; p["harness"] = list(dict.fromkeys(list(p["harness"]) + list(harness))); p["jobs"] = lambda t: f(t) + list(quick) + ([] if t == "quick" else list(thorough))
more("P19", CS, [J("p19_server", reqs=2), J("p19_server", reqs=1, delays=1), J("p19_server", reqs=2, unix=1, sndbuf=9), J("p19_server", reqs=1, clients=2), J("p19_server", reqs=1, fast=1, delays=1)], [J("p19_server", time=900, reqs=2, delays=1), J("p19_server", time=900, reqs=1, delays=2), J("p19_server", time=900, reqs=1, clients=2, delays=1)])
more("P30", LS, [J("p37_race", delays=1), J("p37_race", delays=2), J("p40_race", delays=1)], [J("p37_race", time=900, delays=3), J("p40_race", time=900, delays=2)])
more("P42", LIFE, [J("p42_wait", fn=f, happens=0, eintr=1) for f in range(4)] + [J("p42_wait", fn=0, happens=1, eintr=1)], [J("p42_wait", time=600, fn=0, happens=1, eintr=2)])
more("P42", LS, [J("p42_server", fn=f, happens=h) for f in (0, 1) for h in (0, 1)], [J("p42_server", time=600, fn=f, happens=1, delays=1) for f in (0, 1)] + [J("p42_wait", time=600, fn=f, happens=1, delays=1) for f in range(3)])
# ---------------------------------------------------------------- scheduling points at every access of shared memory
# pmem=1: at each access of a watched object (connection, client, server) while the thread holds no mutex; pmem=2: at each access
def M(entry, d, p=2, time=90, **k): return J(entry, time=time, samples=4, delays=d, pmem=p, **k)
def mem(pid, quick, thorough=()):
    more(pid, PROPS[pid]["harness"], quick, [dict(j, time=900) for j in thorough])
    p = PROPS[pid]; p["note"] += " Part of the schedules also switch threads at individual memory accesses (jobs with pmem)."
mem("P17", [M("p17_segments", 1, reqs=2, shape=0, cuts=1, block=1024)])
mem("P18", [M("p18_threads", 2, reqs=2), M("p18_threads", 3, reqs=1), M("p18_wire", 1, reqs=2, block=1024, how=0)], [M("p18_threads", 3, reqs=2), M("p18_wire", 2, reqs=2, block=1024, how=0)])
mem("P19", [M("p19_pair", 1, reqs=2), M("p19_pair", 2, 1, reqs=1), M("p19_echo", 1, reqs=2), M("p19_server", 1, reqs=1)], [M("p19_pair", 2, reqs=1), M("p19_echo", 2, reqs=1), M("p19_pair", 2, 1, reqs=2)])
mem("P21", [M("p21_stream", 1, n=11, settle=0)])
mem("P23", [M("p23_dispatch", 1, reqs=2, namelen=1, two=0)], [M("p23_dispatch", 2, reqs=1, namelen=1, two=0)])
mem("P24", [M("p24_threads", 2, reqs=2), M("p24_ids", 1, reqs=2, sessions=1)], [M("p24_threads", 3, reqs=2), M("p24_ids", 1, reqs=2, sessions=2)])
mem("P25", [M("p25_race", 2), M("p25_copy", 1)], [M("p25_race", 3)])
mem("P26", [M("p26_flush", 1, max=1, threads=1), M("p26_race", 2), M("p26_handler", 1)], [M("p26_flush", 1, max=2), M("p26_race", 3, 1)])
mem("P27", [M("p27_stop", 1, 1), M("p27_race", 1), M("p27_race", 2, 1)], [M("p27_stop", 1), M("p27_race", 2), M("p27_race", 3, 1)])
mem("P29", [M("p29_arrival", 1), M("p29_order", 1, reqs=2), M("p29_order", 2, reqs=1)], [M("p29_order", 2, reqs=2), M("p29_arrival", 2)])
mem("P30", [M("p30_hold", 1, max=1), M("p30_race", 2), M("p30_destroy", 2), M("p37_race", 1)], [M("p30_race", 3, 1), M("p30_destroy", 3)])
mem("P31", [M("p31_reconnect", 1, timers=0, state=s) for s in (0, 2, 4)], [M("p31_reconnect", 1, timers=0, state=s) for s in (1, 3, 5)])
mem("P32", [M("p33_destroy", 1), M("p40_destroy", 1), M("p40_race", 1)])
mem("P33", [M("p33_destroy", 1), M("p33_destroy", 2, 1)], [M("p33_destroy", 2)])
mem("P35", [M("p35_tcp", 1), M("p35_unix", 1, 1)], [M("p35_tcp", 2, 1), M("p35_unix", 1)])
mem("P36", [M("p36_race", 1)] + [M("p36_limit", 1, 1, steps=2, first=f) for f in range(3)], [M("p36_race", 2), M("p36_limit", 1, steps=2, first=0)])
mem("P37", [M("p37_ids", 1, peers=1), M("p37_race", 1), M("p37_race", 2, 1)], [M("p37_race", 2), M("p37_ids", 1, peers=2)])
mem("P38", [M("p38_handlers", 1, peers=1), M("p38_handlers", 2, 1, peers=1), M("p38_reject", 1)], [M("p38_handlers", 1, peers=2), M("p38_reject", 2)])
mem("P39", [M("p39_start", 1, unix=u) for u in (0, 1)])
mem("P40", [M("p40_stop", 1, peers=1, restart=0), M("p40_destroy", 1), M("p40_race", 1), M("p40_race", 2, 1)], [M("p40_stop", 1, peers=1), M("p40_race", 2), M("p40_destroy", 2)])
mem("P41", [M("p41_server", 1, 1, eintr=1), M("p41_conn", 1, eintr=1)], [M("p41_server", 1, eintr=1), M("p41_conn", 1, eintr=2)])
# ---------------------------------------------------------------- sizes beyond 8 and 16 bits
BI = 100000000
def bigV(what, kinds=(0, 1, 2, 3)): return [J("big_value", instr=BI, kind=k, n=n, what=what) for k, n in [(k, 70000) for k in kinds] + [(4, 300)]]
def bigR(what): return [J("big_request", instr=BI, what=what, **p) for p in (dict(namelen=300, args=2, n=300, argname=260), dict(namelen=65535, args=1, n=2), dict(namelen=2, args=1, argname=65535, n=2), dict(args=300, argname=2, n=3), dict(args=2, n=40000))]
def bigs(pid, quick, thorough=()):
    more(pid, PROPS[pid]["harness"], quick, thorough); p = PROPS[pid]; p["bounds"] = {t: b + "; contents, names, arrays and argument lists of sizes around and beyond 255 and 65535 with a few arbitrary bytes each" for t, b in (p["bounds"].items() if isinstance(p["bounds"], dict) else [("quick", p["bounds"]), ("thorough", p["bounds"])])}
LONG = [J("big_value", instr=2000000000, time=300, kind=4, n=66000, what=1), J("big_request", instr=2000000000, time=600, args=3000, argname=2, n=3, what=1)]
bigs("P01", bigV(1) + [J("big_value", instr=BI, kind=0, n=n, what=1) for n in (255, 256, 65531, 65536)], LONG[:1])
bigs("P02", bigR(1), LONG[1:])
bigs("P03", bigV(2) + bigR(2))
bigs("P05", bigV(4) + bigR(4))
bigs("P06", bigV(8) + bigR(8))
bigs("P13", [J("big_value", instr=BI, kind=k, n=70000 if k < 4 else 300, what=16) for k in range(5)] + [J("big_request", instr=BI, args=2, n=40000, what=17), J("big_request", instr=BI, args=30, n=3, argname=2, what=17)])
PROPS["P13"]["harness"] = ["cont.cpp", "codec.cpp"]
bigs("P18", [J("p18_long", instr=BI, len=70000), J("p18_long", instr=BI, len=300, block=7, sndbuf=50, wsplit=1), J("p18_long", instr=BI, len=5000, delays=1)], [J("p18_long", instr=BI, time=600, len=3000, block=100, sndbuf=300, wsplit=1)])
# ---------------------------------------------------------------- further schedules
# pmem=3: also at accesses of heap objects a watched object points to; pun=2: before mutex_unlock
mem("P19", [M("p19_pull", 1, 3, reqs=2), M("p19_pull", 2, 3, reqs=1), M("p19_pull", 1, 3, reqs=3, timeout=0)], [M("p19_pull", 2, 3, reqs=2), M("p19_pair", 1, 3, reqs=2)])
mem("P23", [M("p23_dispatch", 1, 3, reqs=2, namelen=1, two=0)])
mem("P29", [M("p29_order", 1, 3, reqs=2), M("p19_pull", 1, 3, reqs=2)], [M("p29_order", 2, 3, reqs=1)])
PROPS["P29"]["harness"] = ["life.cpp", "conn.cpp"]
more("P26", LIFE, [J("p26_flush", max=1, sndbuf=5, block=3, delays=1)], [J("p26_flush", time=600, max=2, sndbuf=5, block=3, delays=1)])
more("P28", LIFE, [J("p28_not_alive", steps=3, head=6, first=4, second=4), J("p28_not_alive", steps=2, head=4, first=4), J("p28_not_alive", steps=2, first=4)], [J("p28_not_alive", time=900, steps=4, head=h, first=4, second=4) for h in (2, 6)])
UN = dict(pun=2, delays=1)
more("P33", LS, [J("p33_destroy", **UN), J("p35_tcp", **UN), J("p35_unix", **UN), J("p40_destroy", **UN)], [J("p33_destroy", time=900, delays=2, pun=3)])
more("P35", SRV, [J("p35_tcp", **UN), J("p35_unix", **UN)], [J("p35_tcp", time=900, delays=2, pun=3)])
more("P40", SRV, [J("p40_destroy", **UN), J("p40_race", **UN)], [J("p40_race", time=900, delays=2, pun=3)])
more("P38", SRV, [J("p38_handlers", peers=1, **UN)])
more("P37", SRV, [J("p37_race", **UN)])
more("P30", PROPS["P30"]["harness"], [J("p30_race", **UN), J("p30_destroy", **UN)])
for pid in ("P19", "P23", "P29"): PROPS[pid]["note"] = PROPS[pid]["note"].replace(" Part of the schedules also switch threads at individual memory accesses (jobs with pmem).", "", PROPS[pid]["note"].count(" Part of") - 1)
more("P19", PROPS["P19"]["harness"], [J("p19_forward", delays=1), J("p19_forward", delays=2), M("p19_forward", 1)], [J("p19_forward", time=900, delays=3), M("p19_forward", 2, time=900)])
more("P23", PROPS["P23"]["harness"], [J("p23_inside"), J("p23_race", delays=1), M("p23_race", 1, 3, changes=1)], [M("p23_race", 2, 3, changes=1, time=900), M("p23_race", 1, 3, changes=2, time=900)])
more("P28", LIFE, [J("p28_slow", steps=2)], [J("p28_slow", time=900, steps=3)])
more("P18", PROPS["P18"]["harness"], [J("p18_wire", reqs=2, block=1024, eagain=1, how=0), J("p18_wire", reqs=2, block=5, sndbuf=9, eagain=2, how=0)], [J("p18_wire", time=900, reqs=3, block=5, sndbuf=9, eagain=3, how=0)])
more("P26", LIFE, [J("p26_flush", max=1, eagain=1, sndbuf=5, delays=1)])
more("P36", SRV, [J("p36_limit", steps=3, rush=1, peers=2, first=f) for f in (0, 2)] + [J("p36_limit", steps=2, rush=1, peers=2, first=2, delays=1)], [J("p36_limit", time=900, steps=3, rush=1, peers=2, first=2, delays=1)])
more("P37", SRV, [J("p37_tags", peers=2, len=4), J("p37_tags", peers=3, len=2)], [J("p37_tags", time=900, peers=3, len=4), J("p37_tags", time=900, peers=2, len=7)])
more("P24", PROPS["P24"]["harness"], [J("p24_ids", reqs=2, sessions=2, unix=1)], [J("p24_ids", time=600, reqs=3, sessions=2, unix=1)])
more("P28", LIFE, [J("p28_not_alive", steps=2, first=3, stuck=1), J("p28_not_alive", steps=3, first=3, second=2, stuck=1)], [J("p28_not_alive", time=900, steps=3, first=3, stuck=1)])
# the containers of a connection as they are after a longer life (the next insertion allocates a new block)
more("P19", PROPS["P19"]["harness"], [M("p19_pull", 1, 3, reqs=2, warm=62), M("p19_pull", 1, 3, reqs=2, warm=63, timeout=0), M("p19_pull", 2, 3, reqs=1, warm=63)], [M("p19_pull", 2, 3, reqs=2, warm=62, time=900)])
more("P29", PROPS["P29"]["harness"], [M("p19_pull", 1, 3, reqs=2, warm=62)])
more("P18", PROPS["P18"]["harness"], [M("p18_threads", 1, 3, reqs=1, warm=62), M("p18_threads", 2, 2, reqs=1, warm=63)], [M("p18_threads", 2, 3, reqs=2, warm=62, time=900)])
# ---------------------------------------------------------------- every size around the powers of two, deep nesting, valid encodings with arbitrary stretches
SZ = dict(instr=BI); LI = 3000000000
more("P01", ["codec.cpp"], [J("big_value", n=-1, kind=k, what=1, **SZ) for k in (0, 1, 2, 3)] + [J("deep_value", what=1, deep=16, instr=LI)], [J("deep_value", what=1, deep=18, time=600, instr=LI)])
more("P02", ["codec.cpp"], [J("big_request", what=1, **dict(SZ, **{k: -1})) for k in ("namelen", "argname", "n")])
more("P03", ["codec.cpp"], [J("big_value", n=-1, kind=k, what=2, **SZ) for k in (0, 1, 3)] + [J("big_request", what=2, **dict(SZ, **{k: -1})) for k in ("namelen", "argname", "n")] + [J("deep_value", what=2, deep=16, instr=LI)])
more("P04", ["codec.cpp"], [J("mutant", only=1, what=1, w=w) for w in (1, 2, 4)] + [J("deep_value", what=32)] + [J("deep_hostile", time=120, arg=a, instr=LI) for a in (0, 1)], [J("deep_hostile", time=900, rest=9, instr=LI), J("mutant", only=1, what=1, w=8, time=900), J("mutant", only=1, what=1, w=2, stretches=2, time=900), J("mutant", what=1, w=2, time=900)])
more("P05", ["codec.cpp"], [J("big_value", n=-1, kind=k, what=4, **SZ) for k in (0, 3)] + [J("big_request", what=4, **dict(SZ, **{k: -1})) for k in ("namelen", "argname", "n")] + [J("deep_value", what=4)])
more("P06", ["codec.cpp"], [J("big_value", n=-1, kind=k, what=8, **SZ) for k in (0, 3)] + [J("big_request", what=8, **dict(SZ, **{k: -1})) for k in ("namelen", "argname", "n")] + [J("deep_value", what=8, deep=16, instr=LI)])
more("P07", ["codec.cpp"], [J("mutant", only=1, what=2, w=4)], [J("mutant", only=1, what=2, w=8, time=900), J("mutant", what=2, w=4, time=900)])
more("P08", ["codec.cpp"], [J("mutant", only=1, what=4, w=w) for w in (1, 2)], [J("mutant", only=1, what=4, w=4, time=900), J("mutant", what=4, w=2, time=900)])
more("P13", PROPS["P13"]["harness"], [J("deep_value", what=16, deep=16, instr=LI)])
# ---------------------------------------------------------------- long histories of one connection or server
LI = 3000000000
def long_(pid, quick, thorough=(), text="histories of thousands of requests or hundreds of connections with one schedule (long queues, counters beyond 8 and 16 bits)"):
    p = PROPS[pid]; h = list(p["harness"]); h += [] if "many.cpp" in h else ["many.cpp"]; more(pid, h, [dict(j, instr=LI) for j in quick], [dict(j, instr=LI, time=900) for j in thorough]); b = p["bounds"]; b = b if isinstance(b, dict) else {"quick": b, "thorough": b}
    if text: p["bounds"] = {t: x + "; " + text for t, x in b.items()}
long_("P17", [J("many_receive", reqs=4000), J("many_receive", reqs=2000, block=7), J("many_receive", reqs=80, rsplit=1)], [J("many_receive", reqs=20000)])
long_("P29", [J("many_receive", reqs=4000, together=1), J("many_receive", reqs=300)])
long_("P23", [J("many_receive", reqs=1000, handler=h) for h in (1, 2)] + [J("long_names")])
long_("P34", [J("long_names")], text="names around and beyond 255 bytes")
long_("P18", [J("many_send", reqs=4000), J("many_send", reqs=1000, block=7, sndbuf=50)])
long_("P26", [J("many_send", reqs=2000, sndbuf=50)])
long_("P33", [J("many_unsent", reqs=2000)])
long_("P31", [J("many_unsent", reqs=2000)])
long_("P24", [J("many_ids", time=120, reqs=33000), J("many_ids", reqs=600, client=1)], [J("many_ids", reqs=70000), J("many_ids", reqs=70000, client=1)])
long_("P30", [J("many_refs", refs=300), J("many_refs", refs=66000)])
for pid in ("P37", "P38", "P40"): long_(pid, [J("many_connections", peers=270)], [J("many_connections", peers=260, together=260, unix=1)])
long_("P36", [J("many_connections", peers=258, limit=258), J("many_connections", peers=20, limit=3)], [J("many_connections", peers=260, together=260)])
# ---------------------------------------------------------------- containers beyond the sizes where representations change
def scale(pid, quick, thorough, text):
    p = PROPS[pid]; more(pid, p["harness"] + ["scale.cpp"], quick, [dict(j, instr=LI, time=900) for j in thorough]); p["bounds"] = {t: b + "; " + text for t, b in p["bounds"].items()}
scale("P10", [J("scale_string", max=257, instr=BI), J("scale_string", max=70000, tomax=16, instr=BI), J("scale_string", max=16, tomax=70000, instr=BI)], [J("scale_string", max=70000)], "from each of 31 sizes up to 70000 to each other one up to 16 (and up to 257 among each other) by every way to change a string, up to 5 arbitrary bytes each")
scale("P11", [J("scale_array", instr=BI)], [J("scale_array", n=70000)], "arrays of 254 to 257 and 300 elements made in 4 ways with one change anywhere (thorough: 70000 elements)")
scale("P12", [J("scale_args", n=258, instr=BI), J("scale_names", instr=BI)], [J("scale_args", n=1200)], "258 arguments (thorough: 1200) with one change anywhere; pairs of names of 13 lengths up to 1000 that are equal, differ in one byte, or of which one continues the other")
scale("P13", [J("scale_args", n=100, copied=1, instr=BI)], [J("scale_args", n=300, copied=1)], "copies of requests with 100 arguments (thorough: 300)")
scale("P16", [J("scale_valid", instr=BI)], [], "31 lengths up to 70000 with one arbitrary byte at five places")
more("P28", LIFE, [J("p28_still_alive", steps=1, wide=2, first=f) for f in (0, 2)] + [J("p28_not_alive", steps=1, wide=2), J("p28_when", wide=2)], [J("p28_still_alive", time=900, steps=2, first=2, second=s, wide=2) for s in range(4)])
PROPS["P28"]["bounds"] = {t: b + "; intervals up to 4.4e9 s (beyond 31 and 32 bits of seconds and milliseconds)" for t, b in PROPS["P28"]["bounds"].items()}
for pid, x in (("P01", "arrays nested 1..20, 31..33, ..., 257 deep (thorough: 1024)"), ("P04", "arrays nested 1 to 150,000 deep; a valid array encoding with any 1, 2 or 4 neighbouring bytes replaced by arbitrary ones"), ("P07", "a valid array encoding with any 4 neighbouring bytes replaced"), ("P08", "a valid array encoding with any 1 or 2 neighbouring bytes replaced")): PROPS[pid]["bounds"] = {k: b + "; " + x for k, b in PROPS[pid]["bounds"].items()}
# ---------------------------------------------------------------- descriptor numbers: a process without standard streams, one with more than 1024 descriptors; block sizes beyond 31 bits
ZERO = {"p17_segments": 8, "p18_wire": 8, "p19_pair": 12, "p21_stream": 8, "p27_stop": 9, "p29_order": 9, "p28_idle": 8, "p30_hold": 9, "p38_handlers": 9, "p31_reconnect": 14, "p33_destroy": 9, "p35_tcp": 10, "p35_unix": 10, "p37_ids": 16, "p39_start": 8, "p40_stop": 9, "p42_wait": 9}
for pid, e, p in (("P17", "p17_segments", dict(reqs=2, shape=0, cuts=1, block=1024)), ("P18", "p18_wire", dict(reqs=2, shape=1, block=3, sndbuf=16, how=0)), ("P19", "p19_pair", dict(reqs=2, delays=1)), ("P21", "p21_stream", dict(n=12)), ("P27", "p27_stop", {}), ("P29", "p29_order", dict(reqs=2)), ("P28", "p28_idle", {}), ("P30", "p30_hold", dict(max=2)), ("P38", "p38_handlers", dict(peers=1)), ("P31", "p31_reconnect", {}),
                  ("P32", "p33_destroy", {}), ("P32", "p35_tcp", {}), ("P32", "p39_start", dict(unix=0, tries=1)), ("P33", "p33_destroy", {}), ("P35", "p35_tcp", {}), ("P35", "p35_unix", {}), ("P37", "p37_ids", dict(peers=2)), ("P39", "p39_start", dict(unix=0, tries=1)), ("P39", "p39_start", dict(unix=1, tries=1)), ("P40", "p40_stop", dict(peers=1)), ("P40", "p40_stop", dict(peers=1, unix=1)), ("P42", "p42_wait", dict(fn=0, happens=1))):
    more(pid, PROPS[pid]["harness"], [J(e, fdbase=1022, **p), J(e, fdzero=ZERO[e], **p)]); b = PROPS[pid]["bounds"]; x = "; any one of the descriptors having number 0, all numbers beyond 1022"; PROPS[pid]["bounds"] = {t: y + ("" if x in y else x) for t, y in (b.items() if isinstance(b, dict) else [("quick", b), ("thorough", b)])}
HB = (0x80000000, 0xffffffff)
more("P17", PROPS["P17"]["harness"], [J("p17_segments", reqs=2, shape=0, cuts=1, block=b) for b in HB])
more("P18", PROPS["P18"]["harness"], [J("p18_wire", reqs=2, shape=1, block=b, sndbuf=16, wsplit=1, how=0) for b in HB])
more("P37", SRV + ["many.cpp"], [J("p37_longtags")])
PROPS["P37"]["bounds"] = {t: b + "; pairs of tags of 15 lengths up to 600" for t, b in PROPS["P37"]["bounds"].items()}
more("P20", CONN, [J("p20_length", setmax=3)])
PROPS["P20"]["bounds"] = {t: b + "; every 32-bit maximum against every declared length that is below 4,000,000 or above it" for t, b in PROPS["P20"]["bounds"].items()}
# sizes beyond 24 bits
HUGE = dict(n=17000000, instr=LI, time=200)
def huge(pid, quick, thorough=(), text="; contents of 17,000,000 bytes"): more(pid, PROPS[pid]["harness"], quick, thorough); PROPS[pid]["bounds"] = {t: b + text for t, b in PROPS[pid]["bounds"].items()}
huge("P01", [J("big_value", kind=k, what=1, **HUGE) for k in (0, 3)], [J("big_value", kind=k, what=1, **HUGE) for k in (1, 2)])
huge("P02", [J("big_request", namelen=2, args=1, what=1, **HUGE)])
huge("P03", [J("big_request", namelen=2, args=1, what=2, **HUGE)], [J("big_value", kind=k, what=2, **HUGE) for k in (0, 3)])
huge("P05", [J("big_request", namelen=2, args=1, what=4, **HUGE)])
huge("P06", [J("big_request", namelen=2, args=1, what=8, **HUGE)])
huge("P17", [J("p17_long", len=17000000, max=17100000, block=1000000, instr=LI)], text="; a frame of 17,000,000 bytes")
huge("P18", [J("p18_long", len=1000000, block=100000, instr=LI)], [J("p18_long", len=16800000, block=100000, instr=LI)], text="; a frame of 1,000,000 bytes (thorough: 16,800,000)")
huge("P20", [J("p20_exact", max=17000000, block=1000000, instr=LI)], text="; whole frames around 17,000,000 bytes")
# settings that change while data is on its way
for pid, q, t, x in (("P17", [J("p17_change", cuts=1), J("p17_change", cuts=1, blocks=2, delays=1), M("p17_change", 1, 1, cuts=1, blocks=2)], [J("p17_change", cuts=2, blocks=2, time=600), M("p17_change", 1, 2, cuts=1)], "block sizes, the limit and the intervals changed at any point of a stream of two requests (thorough: at two points)"),
                     ("P18", [J("p18_change", blocks=3), M("p18_change", 1, 1, changes=1, blocks=2)], [J("p18_change", time=600), J("p18_change", changes=1, sndbuf=16, wsplit=1)], "the block size and other settings changed twice in the middle of two requests"),
                     ("P20", [J("p20_change")], [J("p20_change", delays=1)], "the limit changed between two frames of 10..15 bytes, from outside or by the handler of the first one, with up to 3 bytes of the second one there")):
    more(pid, PROPS[pid]["harness"] + ["change.cpp"], q, t); PROPS[pid]["bounds"] = {k: b + "; " + x for k, b in PROPS[pid]["bounds"].items()}
# what servers keep and forget from run to run; handlers that change
for pid in ("P36", "P37", "P38", "P40"): more(pid, SRV, [J("p36_restart"), J("p36_restart", peers=1, delays=1)], [J("p36_restart", runs=3, time=600), J("p36_restart", delays=1, time=600)]); PROPS[pid]["bounds"] = {k: b + "; two runs (thorough: three) of TCP and UNIX servers of up to 2 clients with limits kept or changed" for k, b in PROPS[pid]["bounds"].items()}
more("P38", SRV, [J("p38_change"), J("p38_change", steps=2, delays=1)], [J("p38_change", steps=4, time=600), M("p38_change", 1, 1, steps=2)]); PROPS["P38"]["bounds"] = {k: b + "; handlers exchanged or removed between arrivals and departures (3 steps, thorough: 4)" for k, b in PROPS["P38"]["bounds"].items()}
# handlers that use the server and other connections
more("P37", SRV, [J("p37_handlers"), J("p37_handlers", delays=1), J("p37_handlers", delays=1, peers=2, fast=1), M("p37_handlers", 1, 1, peers=2)], [J("p37_handlers", delays=2, peers=2), M("p37_handlers", 1, 2, peers=3)]); PROPS["P37"]["bounds"] = {k: b + "; every subset of up to 3 connections ending at once while the handlers look all of them up" for k, b in PROPS["P37"]["bounds"].items()}
for pid in ("P38", "P40"): more(pid, SRV, [J("p38_inside", delays=1), J("p38_inside", delays=1, fast=1), M("p38_inside", 1, 1)], [J("p38_inside", delays=2), M("p38_inside", 1, 2)]); PROPS[pid]["bounds"] = {k: b + "; handlers (connected, disconnected, of a request) that stop the server, change its limit or handlers, start it, look connections up, pull, push, disconnect or change settings" for k, b in PROPS[pid]["bounds"].items()}
# several objects in one process
more("P40", SRV, [J("p40_two"), J("p40_two", delays=1, time=120)], [M("p40_two", 1, 1, time=600)]); PROPS["P40"]["bounds"] = {k: b + "; two servers with 2 clients and limits of their own, one of which stops, is destroyed or starts again" for k, b in PROPS["P40"]["bounds"].items()}
more("P36", SRV, [J("p40_two")])
more("P40", SRV, [J("p40_held"), J("p40_held", delays=1), J("p40_held", peers=3, time=120)], [J("p40_held", delays=2, time=600), M("p40_held", 1, 2, time=600)]); PROPS["P40"]["bounds"] = {k: b + "; 2 or 3 connections of a stopping server held by a thread that waits for requests of one of them" for k, b in PROPS["P40"]["bounds"].items()}
more("P30", SRV, [J("p40_held")])
for pid in ("P34", "P23", "P28"):
    more(pid, PROPS[pid]["harness"] + ([] if "change.cpp" in PROPS[pid]["harness"] else ["change.cpp"]), [J("p34_two"), J("p34_two", unix=1, delays=1)], [J("p34_two", delays=2)]); b = PROPS[pid]["bounds"]; b = b if isinstance(b, dict) else {"quick": b, "thorough": b}; PROPS[pid]["bounds"] = {k: x + "; two connections with different settings and handlers" for k, x in b.items()}
# ---------------------------------------------------------------- thorough jobs that turned out to be cheap also run in the quick tier
# costs.json: seconds of one core measured for thorough jobs that explored everything (measured by tools/costs.py); the cheapest ones are taken until a property has BUDGET seconds of them
import json as _json, os as _os
COSTS = _json.load(open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "costs.json"))); MAXCOST, BUDGET = 45, 130
def cost(j): return COSTS.get(j["entry"] + " " + _json.dumps(j["params"], sort_keys=True), 1e9)
def promote(pid):
    f = PROPS[pid]["jobs"]; q = f("quick"); left = BUDGET; out = []
    for j in sorted((j for j in f("thorough") if j not in q and cost(j) <= MAXCOST), key=cost):
        if cost(j) <= left: left -= cost(j); out.append(dict(j, time=max(j["time"], 120)))
    if not out: return
    same = lambda a, b: (a["entry"], a["params"]) == (b["entry"], b["params"])
    PROPS[pid]["jobs"] = lambda t: out[::-1] + [j for j in f(t) if not any(same(j, o) for o in out)]
    b = PROPS[pid]["bounds"]; b = dict(b) if isinstance(b, dict) else {"quick": b, "thorough": b}; b["quick"] += "; also these thorough jobs: " + "; ".join("%s(%s)" % (o["entry"], ", ".join("%s=%s" % x for x in o["params"].items())) for o in out); PROPS[pid]["bounds"] = b
for _p in list(PROPS): promote(_p)
def slow_first(pid):
    f = PROPS[pid]["jobs"]; PROPS[pid]["jobs"] = lambda t: sorted(f(t), key=lambda j: 0 if cost(j) < 1e9 else 1 if j["instr"] > BI else 2)
for _p in list(PROPS): slow_first(_p)
