"""Which harness, with which bounds, decides which property."""
import json, os

VERIF = os.path.dirname(os.path.abspath(__file__))

COMMON_ASSUMPTIONS = [
    "the code is executed as LLVM IR that clang 18 -O1 makes of it (x86-64, C++20, asio 1.28; standalone with separate compilation of src/asioext.cpp, Boost.Asio, header-only), with vectorisation off",
    "memory is sequentially consistent; pointers are concrete on each path; heap allocations are never adjacent",
    "operator new does not fail unless the harness makes it fail",
    "libstdc++ out-of-line pieces and leaf libc functions are modelled by rt/runtime.cpp and rt/libc.c; system calls by the harness",
    "trusted: clang 18 front end, the executor in engine/, z3/cvc5 (models are replayed against a g++ ASan/UBSan build of the same sources)",
]

DEFAULTS = dict(defs={}, libdefs=[], covers=[], jobs=1, max_time=780, max_steps=2000000, samples=6, preempt=0, depth=400, native=True, races=False, atomics=False, bound="", config="standalone", variant=False, thorough_only=False)


def H(name, src, **kw):
    h = dict(DEFAULTS)
    h.update(name=name, src=src)
    for k, v in kw.items():
        h[k] = v
    return h


def finish(h, tier):
    """Resolves quick/thorough values: a tuple (quick, thorough) for a define, time or bound."""
    i = 1 if tier == "thorough" and not h["variant"] else 0
    pick = lambda v: v[i] if isinstance(v, tuple) else v
    h = {k: pick(v) for k, v in h.items()}
    h["defs"] = {k: pick(v) for k, v in h["defs"].items()}
    if tier == "thorough":
        h["max_time"] = max(h["max_time"], 3000)
    return h


# Every harness also runs with Boost.Asio and with the library header-only, at the quick bounds; a quick check runs only these.
OTHER_QUICK = {
    "boost": {"P01": ["url_any"], "P02": None, "P03": None, "P06": ["read", "write"], "P07": ["open", "open_path"], "P08": ["read_some_at", "write_some"], "P09": ["permissions"], "P11": None, "P15": None, "P16": None,
              "P18": None, "P19": ["handlers"], "P20": None, "P21": None},
    "header": {"P01": ["url_any"], "P03": ["greet"], "P06": ["read"], "P11": ["read_buffers"], "P15": ["compose"], "P16": ["sync"], "P18": None, "P20": ["files"]},
}


def variants(pid, hs):
    out = []
    for config in ("boost", "header"):
        q = OTHER_QUICK[config].get(pid, [])
        for h in hs:
            if h["config"] != "standalone" and config == "header":
                continue  # these use Boost.Filesystem
            out.append(dict(h, name=h["name"] + "_" + config, config=config, variant=True, thorough_only=q is not None and h["name"] not in q))
    return out


def load_known(prop):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def match_known(known, h, v):
    for k in known:
        if k["assertion"] == v["id"] and h["src"] == k["source"]:
            return k
    return None


PROPS = {}


def prop(pid, bounds, outside, harnesses, assumptions=()):
    PROPS[pid] = dict(bounds=bounds, outside=outside, harnesses=harnesses + variants(pid, harnesses), assumptions=list(assumptions))


prop("P01", "every byte string of up to 6 (thorough 9) bytes; followed by arbitrary bytes: 'http://' up to 6 (8), 'http://h:' up to 6 (8) and up to 22 (30) decimal digits, 'http://[' up to 6 (8), 'ftp://u@' up to 5 (7), 'https://h/' up to 6 (8)", "longer URLs", [
    H("url_any", "url.cpp", defs={"VP_N": (6, 9), "VP_THROWING": None}, covers=["accepted", "rejected"], jobs=2),
    H("url_http", "url.cpp", defs={"VP_N": (6, 8), "VP_PREFIX": '"http://"'}, covers=["accepted", "rejected", "port"], jobs=3),
    H("url_port", "url.cpp", defs={"VP_N": (6, 8), "VP_PREFIX": '"http://h:"'}, covers=["accepted", "rejected", "port", "port overflow"], jobs=3),
    H("url_digits", "url.cpp", defs={"VP_N": (22, 30), "VP_PREFIX": '"http://h:"', "VP_DIGITS": None}, covers=["accepted", "rejected", "port", "port overflow"], jobs=2),
    H("url_v6", "url.cpp", defs={"VP_N": (6, 8), "VP_PREFIX": '"http://["'}, covers=["accepted", "rejected", "port", "bracketed", "zone"], jobs=3),
    H("url_user", "url.cpp", defs={"VP_N": (5, 7), "VP_PREFIX": '"ftp://u@"'}, covers=["accepted", "rejected", "port"], jobs=2),
    H("url_tail", "url.cpp", defs={"VP_N": (6, 8), "VP_PREFIX": '"https://h/"'}, covers=["accepted", "rejected"], jobs=2),
])

prop("P02", "every command byte, port, address and string byte; user/host/password lengths 0..3, 254..256, 300; 0..3, 255..257 authentication methods; one write split after a byte", "other string lengths; empty SOCKS4a and SOCKS5 host names are left unconstrained", [
    H("v4_endpoint", "socks_enc.cpp", defs={"VP_OP": 0}, covers=["rejected", "sent"]),
    H("v4_host", "socks_enc.cpp", defs={"VP_OP": 1}, covers=["rejected", "sent"]),
    H("v5_greet", "socks_enc.cpp", defs={"VP_OP": 2}, covers=["rejected", "sent"]),
    H("v5_login", "socks_enc.cpp", defs={"VP_OP": 3}, covers=["rejected", "sent"]),
    H("v5_endpoint", "socks_enc.cpp", defs={"VP_OP": 4}, covers=["sent"]),
    H("v5_host", "socks_enc.cpp", defs={"VP_OP": 5}, covers=["rejected", "sent"]),
])

prop("P03", "every reply of every length up to the full reply plus trailing bytes; domain names of 0..2 and 255 bytes; 2 (thorough 4) reads cut to a single byte; a transport error at any of the first 4 operations or none; operations whose handler's allocator fails at any of the first 4 (6) allocations", "other domain-name lengths, more splits, cancellation of the stream", [
    H("v4", "socks_reply.cpp", defs={"VP_OP": 0, "VP_SPLITS": (2, 4)}, covers=["granted", "refused", "bad version", "cut short", "transport error"]),
    H("greet", "socks_reply.cpp", defs={"VP_OP": 1, "VP_SPLITS": (2, 4)}, covers=["granted", "refused", "bad version", "cut short", "transport error"]),
    H("login", "socks_reply.cpp", defs={"VP_OP": 2, "VP_SPLITS": (2, 4)}, covers=["granted", "refused", "bad version", "cut short", "transport error"]),
    H("exec5", "socks_reply.cpp", defs={"VP_OP": 3, "VP_SPLITS": (2, 4)}, covers=["granted", "refused", "bad version", "cut short", "transport error", "bad address type", "address cut short"], jobs=4),
    H("session", "socks_session.cpp", defs={"VP_SPLITS": (1, 2), "VP_VER": 5}, covers=["connected", "no login needed", "login refused", "greeting refused", "connect refused", "second try"], jobs=4),
    H("session4", "socks_session.cpp", defs={"VP_SPLITS": (1, 2), "VP_VER": 4}, covers=["connected", "connect refused", "second try"]),
    H("handlers", "handlers.cpp", defs={"VP_OP": 1}, covers=["lvalue", "const lvalue", "rvalue"]),
    H("failing_alloc", "handlers.cpp", defs={"VP_OP": 1, "VP_ALLOC": (4, 6)}, covers=["not started", "done"]),
])

LBC = ["append", "insert", "erase one", "erase range", "reserve", "resize", "clear", "copy", "copy assign", "move", "move assign", "self assign", "length_error", "default allocator"]
prop("P04", "every initial capacity and size up to 3 (2 for the checked allocators), arbitrary contents and size limit, all sequences of 2 (thorough 3) of 12 operations with arbitrary positions and counts (appended blocks up to 3 bytes; 64-bit sizes for reserve and resize)", "larger buffers, longer histories, inserting a buffer's own bytes into itself", [
    H("std_alloc", "linear_buffer.cpp", defs={"VP_ALLOC": 0, "VP_CAP": 3, "VP_OPS": (2, 3)}, covers=LBC, jobs=4),
    H("equal_alloc", "linear_buffer.cpp", defs={"VP_ALLOC": 1, "VP_CAP": 2, "VP_OPS": (2, 3)}, covers=LBC + ["bad_alloc"], jobs=4),
    H("prop_alloc", "linear_buffer.cpp", defs={"VP_ALLOC": 2, "VP_CAP": 2, "VP_OPS": (2, 3)}, covers=LBC + ["bad_alloc"], jobs=4),
])

prop("P05", "every initial capacity and size up to 3, arbitrary limits, contents and 64-bit counts (successful growth up to 3 bytes at a time), all sequences of up to 3 (thorough 4) operations", "longer histories, a dynamic buffer whose buffer already exceeds its own limit", [
    H("v1", "dynbuf.cpp", defs={"VP_V": 1, "VP_OPS": (3, 4), "VP_K": 3}, covers=["prepare", "commit", "consume", "length_error", "commit more than prepared", "commit again"], jobs=4),
    H("v2", "dynbuf.cpp", defs={"VP_V": 2, "VP_OPS": (3, 4), "VP_K": 3}, covers=["grow", "shrink", "consume", "length_error"], jobs=4),
])

prop("P06", "all 64-bit seconds, all nanoseconds in [0,1e9), all 64-bit file times, any errno up to 255", "Windows and the birth-time variants, the run-time resolution of the system clock", [
    H("read", "times.cpp", defs={"VP_OP": 0}, covers=["failed", "not representable", "before the epoch", "read"]),
    H("write", "times.cpp", defs={"VP_OP": 1}, covers=["failed", "before the epoch", "omitted"]),
    H("write_us", "times.cpp", defs={"VP_OP": 1, "VP_US": None}, libdefs=["-DASIOEXT_DISABLE_FUTIMENS"], covers=["failed", "before the epoch", "omitted"]),
    H("file_read", "times.cpp", defs={"VP_OP": 0, "VP_FILE": None}, covers=["failed", "not representable", "before the epoch", "read"]),
    H("file_write", "times.cpp", defs={"VP_OP": 1, "VP_FILE": None}, covers=["failed", "before the epoch", "omitted"]),
    H("clock", "times.cpp", defs={"VP_OP": 3}, covers=["clock"]),
])

prop("P07", "all 10-bit flag sets, all 32-bit permission and attribute values, arbitrary native flags and modes, every 4-byte path, up to 2 interruptions and one failure with any errno up to 255", "Windows; systems with file flags; attributes on creation", [
    H("file_open", "file_open.cpp", covers=["opened", "failed", "adopted"], jobs=2),
    H("open_path", "open.cpp", defs={"VP_BFS": None}, config="asio", covers=["opened", "failed", "interrupted", "contradictory", "native options"], jobs=2),
    H("file_open_path", "file_open.cpp", defs={"VP_BFS": None}, config="asio", covers=["opened", "failed", "adopted"], jobs=2),
    H("open", "open.cpp", covers=["opened", "failed", "interrupted", "contradictory", "native options"], jobs=4),
])

IOC = ["transferred", "failed", "interrupted", "nothing requested", "many buffers"]
prop("P08", "single buffers, arrays of 2 and sequences of 0..3 buffers of any size up to 2^40 bytes, 66 one-byte buffers, every 64-bit offset, every system-call result, up to 2 interruptions and a failure with any errno up to 255; every 64-bit seek offset, size and position", "more than 64 buffers that begin with 64 empty ones; non-blocking descriptors; Windows", [
    H("read_some", "handle_io.cpp", defs={"VP_OP": 0}, covers=IOC + ["end of file"], jobs=2),
    H("write_some", "handle_io.cpp", defs={"VP_OP": 1}, covers=IOC, jobs=2),
    H("read_some_at", "handle_io.cpp", defs={"VP_OP": 2}, covers=IOC + ["end of file"], jobs=2),
    H("write_some_at", "handle_io.cpp", defs={"VP_OP": 3}, covers=IOC, jobs=2),
    H("read_some_at_plain", "handle_io.cpp", defs={"VP_OP": 2, "VP_NOPVEC": None}, covers=IOC + ["end of file"], jobs=2),
    H("write_some_at_plain", "handle_io.cpp", defs={"VP_OP": 3, "VP_NOPVEC": None}, covers=IOC, jobs=2),
    H("file_read_some", "handle_io.cpp", defs={"VP_OP": 0, "VP_FILE": None}, covers=IOC + ["end of file"], jobs=2),
    H("file_write_some", "handle_io.cpp", defs={"VP_OP": 1, "VP_FILE": None}, covers=IOC, jobs=2),
    H("file_read_some_at", "handle_io.cpp", defs={"VP_OP": 2, "VP_FILE": None}, covers=IOC + ["end of file"], jobs=2),
    H("file_write_some_at", "handle_io.cpp", defs={"VP_OP": 3, "VP_FILE": None}, covers=IOC, jobs=2),
    H("file_position", "handle_meta.cpp", defs={"VP_OP": 0, "VP_FILE": None}, covers=["position", "seek", "size", "truncate", "failed"]),
    H("position", "handle_meta.cpp", defs={"VP_OP": 0}, covers=["position", "seek", "size", "truncate", "failed"]),
])

prop("P09", "every 32-bit mode of the file, every 32-bit permission argument, all options, a failure of either system call", "file systems with attributes; combined add and remove options; special bits named in an argument", [
    H("permissions", "handle_meta.cpp", defs={"VP_OP": 1}, covers=["get", "replace", "add", "remove", "failed"]),
    H("file_permissions", "handle_meta.cpp", defs={"VP_OP": 1, "VP_FILE": None}, covers=["get", "replace", "add", "remove", "failed"]),
    H("file_attributes", "handle_meta.cpp", defs={"VP_OP": 2, "VP_FILE": None}, covers=["get", "set", "set with option"]),
    H("attributes", "handle_meta.cpp", defs={"VP_OP": 2}, covers=["get", "set", "set with option"]),
])

prop("P10", "two owning handles in every initial state, all histories of 3 (thorough 4) of 9 operations, up to 2 (thorough 1) failing closes/duplications/opens at any point with any errno up to 255", "longer histories, more handles, self-move-assignment, handles shared between threads", [
    H("ownership", "ownership.cpp", defs={"VP_OPS": (3, 4), "VP_FAULTS": (2, 1)}, covers=["close", "reset", "move assign", "move construct", "release", "duplicate", "duplicate failed", "close failed", "swap", "temporary"], jobs=8),
])

prop("P11", "files of up to 4 (thorough 6) arbitrary bytes whose size may have changed since it was asked, up to 2 (thorough 3) short transfers, an interruption and a failure of any call at any point with any errno up to 255; string, vector and linear-buffer containers with previous content, containers limited in size or failing to be resized; sequences of 1, 2 and 4 buffers (empty ones among them)", "larger files, more than one failure, whether a failing close is reported", [
    H("read_container", "whole_file.cpp", defs={"VP_OP": 0, "VP_MAXF": (4, 6), "VP_SHORTS": (2, 3)}, covers=["complete", "failed", "too short", "too large", "container throws"], jobs=3),
    H("read_buffers", "whole_file.cpp", defs={"VP_OP": 1, "VP_MAXF": (4, 6), "VP_SHORTS": (2, 3)}, covers=["complete", "failed", "too short"], jobs=3),
    H("read_container_path", "whole_file.cpp", defs={"VP_OP": 0, "VP_MAXF": (3, 5), "VP_SHORTS": (2, 3), "VP_BFS": None}, config="asio", covers=["complete", "failed", "too short", "too large", "container throws"], jobs=2),
    H("read_buffers_path", "whole_file.cpp", defs={"VP_OP": 1, "VP_MAXF": (3, 5), "VP_SHORTS": (2, 3), "VP_BFS": None}, config="asio", covers=["complete", "failed", "too short"], jobs=2),
    H("write_path", "whole_file.cpp", defs={"VP_OP": 2, "VP_MAXF": (3, 5), "VP_SHORTS": (2, 3), "VP_BFS": None}, config="asio", covers=["complete", "failed"], jobs=2),
    H("write", "whole_file.cpp", defs={"VP_OP": 2, "VP_MAXF": (4, 6), "VP_SHORTS": (2, 3)}, covers=["complete", "failed"], jobs=2),
])

prop("P12", "two token sources, all histories of 5 (thorough 6) of 9 operations on sources and tokens; one thread that owns a source and one that copies, asks and drops its tokens: all sequences of 3 operations, up to 2 (thorough 3) preemptions at atomic operations, with race detection", "longer histories, more sources or threads, weak-memory results that no interleaving gives (races are decided from the memory orders), allocation failures", [
    H("history", "cancel_token.cpp", defs={"VP_OPS": (5, 6)}, covers=["issued", "issued cancelled", "cancel", "destroy", "reset", "move construct", "move assign", "source gone", "token gone", "token assigned"], jobs=6),
    # shared_ptr as in a ThreadSanitizer build, so that one can replay the schedules; then with its double-word release
    H("threads", "cancel_threads.cpp", defs={"VP_OPS": (3, 3)}, libdefs=["-D_GLIBCXX_TSAN=1"], covers=["moved", "source gone", "issued", "seen cancelled", "seen live"], jobs=4, max_steps=20000000, preempt=(2, 3), native="tsan", races=True, atomics=True),
    H("threads_fast", "cancel_threads.cpp", defs={"VP_OPS": (3, 3)}, covers=["moved", "source gone", "issued", "seen cancelled", "seen live"], jobs=4, max_steps=20000000, preempt=(2, 3), native=False, thorough_only=True, races=True, atomics=True),
])

prop("P13", "two files on one or two contexts (plain or strand executors), all histories of 3 or 4 (thorough 4 or 5) of 10 operations (starting each kind of operation with an arbitrary offset and size, running one step of the pool or of a context, cancel, close, move construction and assignment, destruction, opening), every system result and one failure with any errno; cancellation while a transfer is running; handlers that start, close or destroy; handlers that own their file; a real pool thread (thorough 2) with up to 3 preemptions at lock operations (thorough also at atomic operations); I/O object holders over two stand-in services and two contexts, all histories of 4 (thorough 5) of 9 operations (construction, moving, converting, assignment, destruction); operations whose handler's allocator fails at any of the first 4 (6) allocations", "longer histories, more files, closing a file while a transfer on it is running, other executors and completion tokens", [
    H("history", "file_async.cpp", defs={"VP_OPS": (4, 5), "VP_FAULTS": 1, "VP_TWO": 0}, covers=["start", "cancel", "close", "drained", "abandoned"], jobs=6, max_steps=20000000),
    H("two_contexts", "file_async.cpp", defs={"VP_OPS": (3, 4), "VP_FAULTS": 0, "VP_TWO": 1}, covers=["start", "cancel", "close", "drained", "abandoned"], jobs=6, max_steps=20000000),
    H("strand", "file_async.cpp", defs={"VP_OPS": (3, 4), "VP_FAULTS": 0, "VP_TWO": 0, "VP_STRAND": None}, covers=["start", "cancel", "close", "drained", "abandoned"], jobs=6, max_steps=20000000),
    H("cancel_running", "file_async.cpp", defs={"VP_OPS": (3, 4), "VP_FAULTS": 1, "VP_TWO": 0, "VP_HOOK": None}, covers=["start", "cancel", "close", "drained", "abandoned", "cancel while running"], jobs=6, max_steps=20000000),
    H("nested", "file_async.cpp", defs={"VP_OPS": (3, 4), "VP_FAULTS": 0, "VP_TWO": 0, "VP_NEST": None}, covers=["start", "cancel", "close", "drained", "abandoned"], jobs=6, max_steps=20000000),
    H("owned", "file_owned.cpp", defs={"VP_OPS": (4, 5)}, covers=["chained", "completed", "abandoned"], jobs=4, max_steps=20000000),
    H("holder", "holder.cpp", defs={"VP_OPS": (4, 5)}, covers=["moved", "other executor", "other service", "assigned"], jobs=4, max_steps=20000000),
    H("handlers", "handlers.cpp", defs={"VP_OP": 0}, covers=["lvalue", "const lvalue", "rvalue"]),
    H("failing_alloc", "handlers.cpp", defs={"VP_OP": 0, "VP_ALLOC": (4, 6)}, covers=["not started", "done"]),
    H("threads", "file_threads.cpp", defs={"VP_POOL": (1, 2)}, covers=["cancel", "move", "poll", "drained", "abandoned", "aborted", "done"], jobs=6, max_steps=20000000, preempt=(3, 3), native="sched", races=True),
    H("threads_atomics", "file_threads.cpp", defs={"VP_POOL": (1, 1)}, libdefs=["-D_GLIBCXX_TSAN=1"], covers=["cancel", "move", "poll", "drained", "abandoned", "aborted", "done"], jobs=6, max_steps=20000000, preempt=(3, 3), native="tsan", races=True, atomics=True, thorough_only=True),
])

prop("P14", "two unique_handlers, handlers with and without an associated allocator, all histories of 5 (thorough 6) of 8 operations (assigning or constructing from an lvalue or an rvalue, with or without allocation failure, move assignment and construction, reset, completion with arbitrary arguments, swapping roles); handlers that return, throw or store a new handler", "longer histories, handlers whose move constructor throws, self-move-assignment", [
    H("history", "unique_handler.cpp", defs={"VP_OPS": (5, 6)}, covers=["assign", "assign lvalue", "construct", "move assign", "move construct", "reset", "complete", "complete empty", "bad_alloc", "new handler from handler", "handler throws"], jobs=6),
])

prop("P15", "composed operations with 0..4 (thorough 0..6) intermediate steps and 0..2 executors to keep busy, handlers with and without their own executor and allocator, continuation or not, completed directly or through a bound handler, run to completion or abandoned at any point, every argument value, handlers that return or throw; operations whose handler's allocator fails at any of the first 4 (6) allocations", "more steps, other contexts than io_context, buffered_stream (P19)", [
    H("compose", "compose.cpp", defs={"VP_STEPS": (4, 6)}, covers=["step", "direct", "bound", "finished", "abandoned"], jobs=4),
    H("handlers", "handlers.cpp", defs={"VP_OP": 2}, covers=["lvalue", "const lvalue", "rvalue"]),
    H("failing_alloc", "handlers.cpp", defs={"VP_OP": 2, "VP_ALLOC": (4, 6)}, covers=["not started", "done"]),
])

prop("P16", "answers of 0..3 (thorough 4) IPv4/IPv6 endpoints with arbitrary addresses, ports and scopes, four resolver failures, every errno for every attempt, failure to create the last socket, host and service strings of 0..2 arbitrary bytes, all resolver flags, sockets that were open or not; asynchronous attempts of TCP sockets and (with answers of up to 2, thorough 3) UDP sockets that end at once or later, abandoned before completion; operations whose handler's allocator fails at any of the first 4 (6) allocations", "longer answers and names, cancellation, timeouts, connect() interrupted by signals, descriptors failing to close", [
    H("sync", "connect.cpp", defs={"VP_OP": 0, "VP_ENT": (3, 4), "VP_HLEN": 2}, covers=["was open", "not resolved", "no endpoints", "connected", "no socket", "refused"], jobs=4),
    H("async", "connect.cpp", defs={"VP_OP": 1, "VP_ENT": (3, 4), "VP_HLEN": 1}, covers=["was open", "not resolved", "no endpoints", "connected", "no socket", "refused", "abandoned"], jobs=4, max_steps=20000000),
    H("async_udp", "connect.cpp", defs={"VP_OP": 1, "VP_UDP": 1, "VP_ENT": (2, 3), "VP_HLEN": 1}, covers=["was open", "not resolved", "no endpoints", "connected", "no socket", "refused", "abandoned"], jobs=4, max_steps=20000000),
    H("handlers", "handlers.cpp", defs={"VP_OP": 3}, covers=["lvalue", "const lvalue", "rvalue"]),
    H("failing_alloc", "handlers.cpp", defs={"VP_OP": 3, "VP_ALLOC": (4, 6)}, covers=["not started", "done"]),
])

RC = ["move assign", "move construct", "destroy", "drained", "abandoned"]
prop("P17", "two threads each with two files of their own, all pairs of sequences of 2 (thorough 3) of 6 operations, one or no pool thread, one service or two; every order of blocking, up to two further preemptions at mutex operations", "races inside asio itself that need more preemptions, weak memory beyond happens-before, more threads, file objects shared between threads", [
    H("one_service", "file_race.cpp", defs={"VP_OPS": (2, 3), "VP_POOL": 0, "VP_TWO": 0, "VP_LEAVE": 0}, covers=RC[:3] + RC[4:], jobs=4, max_steps=20000000, preempt=(2, 2), native="sched", races=True),
    H("pool", "file_race.cpp", defs={"VP_OPS": (1, 2), "VP_POOL": 1, "VP_TWO": 0, "VP_LEAVE": 0}, covers=RC, jobs=4, max_steps=20000000, preempt=(2, 2), native="sched", races=True),
    H("pool_left", "file_race.cpp", defs={"VP_OPS": (1, 2), "VP_POOL": 1, "VP_TWO": 0, "VP_LEAVE": 1}, covers=RC, jobs=4, max_steps=20000000, preempt=(2, 2), native="sched", races=True),
    H("two_services", "file_race.cpp", defs={"VP_OPS": (2, 3), "VP_POOL": 0, "VP_TWO": 1, "VP_LEAVE": 1}, covers=RC[:3] + RC[4:], jobs=4, max_steps=20000000, preempt=(2, 2), native="sched", races=True),
])

prop("P18", "every 32-bit error value of both categories; two translation units when header-only", "the message texts of other libraries' categories, the number in the text of an exception", [
    H("url", "errors.cpp", defs={"VP_OP": 0}, covers=["named", "unknown", "thrown"]),
    H("socks", "errors.cpp", defs={"VP_OP": 1}, covers=["named", "unknown", "thrown"]),
])

BC = ["append", "flushed", "flush failed", "flush refused", "async flushed", "async flush failed", "async flush refused", "filled", "fill failed", "async filled", "async fill failed", "close", "drained", "abandoned"]
prop("P19", "all histories of 5 (thorough 6) of 7 operations, up to 3 bytes to read, appends of 1 or 2 arbitrary bytes, one transfer cut to a single byte and one transport error at any point; histories of 4 (5) operations with buffers limited to 1 to 3 bytes, an own allocator, and received bytes consumed in between; operations whose handler's allocator fails at any of the first 4 (6) allocations", "longer histories, closing while an operation is pending, allocators that fail", [
    H("history", "buffered.cpp", defs={"VP_OPS": (5, 6), "VP_SPLITS": 1}, covers=BC, jobs=8),
    H("limits", "buffered.cpp", defs={"VP_OPS": (4, 5), "VP_SPLITS": 1, "VP_LIM": None}, covers=BC + ["full", "async full", "append refused", "consume"], jobs=8),
    H("handlers", "handlers.cpp", defs={"VP_OP": 4}, covers=["lvalue", "const lvalue", "rvalue"]),
    H("failing_alloc", "handlers.cpp", defs={"VP_OP": 4, "VP_ALLOC": (4, 6)}, covers=["not started", "done"]),
])

TC = ["direct", "later", "dropped"]
prop("P20", "every kind of asynchronous operation with every offset, address and one or two bytes of name, credential or data, two tokens (a handler made from the token; starting later or never), the file being cancelled, closed, destroyed, moved or reopened in between, success and failure; coroutines of two file operations, histories of 4 (thorough 6) steps of the pool and the context and a cancellation", "asio::use_future and asio::deferred (the latter is not supported at this commit), allocation failures, more than one operation at a time", [
    H("files", "tokens.cpp", defs={"VP_OP": 0}, covers=TC + ["cancelled before", "closed before", "destroyed before", "moved before", "reopened before"], jobs=2, max_steps=20000000),
    H("connect", "tokens.cpp", defs={"VP_OP": 1}, covers=TC, jobs=2, max_steps=20000000),
    H("socks", "tokens.cpp", defs={"VP_OP": 2}, covers=TC, jobs=2),
    H("buffered", "tokens.cpp", defs={"VP_OP": 3}, covers=TC, jobs=2),
    H("coroutine", "coroutine.cpp", defs={"VP_OPS": (4, 6)}, covers=["cancelled", "drained", "thrown", "abandoned"], jobs=4, max_steps=20000000),
])

prop("P21", "all 2^32 (pairs of) values of every flag type, all enumerators, all values of open_args", "flag types of the Windows branch", [
    H("flags", "flags.cpp", covers=["open_flags", "file_perms", "options", "file_attrs", "permission values", "open values", "attribute values", "open_args"], jobs=1),
])
