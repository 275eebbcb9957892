p("P01", "URL parsing yields exact components and never accepts malformed authorities",
  "For every byte string, parsing either reports an error from the URL error category or yields scheme, userinfo, host, port, path, query and fragment that are exactly the corresponding substrings of the input, with the numeric port equal to the decimal port text (at most 65535) or the scheme's default. No accepted URL contains spaces, control bytes (but for tab and form feed in a path, query or fragment), non-ASCII bytes, a host with illegal characters, an unclosed bracketed host or userinfo that no host or port follows; every plainly well-formed URL is accepted and a numeric port beyond 65535 is reported as a port overflow. The throwing constructor throws the same error exactly when the other one reports it, and parsing never reads outside the string.",
  ["inputs"], "every byte string up to the stated length, alone and behind the stated prefixes",
  "The tests parse a couple of dozen sample URLs; the parser is a table-driven character machine whose mistakes sit at single bytes and positions no sample hits.",
  ["url_view.hpp", "impl/url_view.cpp", "detail/impl/url_parser.cpp", "error.hpp"], [("character machine", "detail/impl/url_parser.cpp"), ("url_view construction", "impl/url_view.cpp"), ("url_view accessors", "url_view.hpp")],
  "bounded: all byte strings within the stated lengths; an independent splitter and validity predicates are the oracle",
  observe=["url_view accessors", "error_code of the constructor"])

p("P02", "SOCKS requests on the wire are byte-exact or refused",
  "For every command, endpoint, host name, port, user name, password and list of authentication methods, the bytes sent to the proxy are exactly those SOCKS4, SOCKS4a, SOCKS5 (RFC 1928) or username/password login (RFC 1929) prescribe, however the transport splits the writes. Arguments the protocol cannot represent (an IPv6 address or a name with a zero byte for SOCKS4, more than 255 methods, a SOCKS5 host name, user name or password longer than 255 bytes) are refused with an invalid-argument error and nothing is sent. The completion handler is called exactly once and never from inside the initiating function.",
  ["inputs", "schedules"], "arbitrary argument values and string contents, string lengths 0..3 and around the 255 limit, arbitrary short writes",
  "No test drives the SOCKS client end to end against a byte-level oracle, and length and address corner cases are never encoded.",
  ["socks/client.hpp", "socks/constants.hpp", "socks/detail/protocol.hpp", "socks/detail/client.hpp", "socks/impl/client.hpp"], [("request packets", "socks/detail/"), ("composed operations", "socks/detail/client.hpp")],
  "bounded: argument bytes fully symbolic, lengths bounded; the stream is an in-memory mock on a real io_context",
  observe=["bytes written to the stream", "completion handler"])

p("P03", "SOCKS replies are classified correctly and exactly consumed",
  "For every byte sequence a proxy can send, split up or cut short anywhere, the client reports success only for a complete success reply with the right version and a known address type, and every documented failure status as its documented error. A reply cut short is reported as end of file and a transport failure at any step is passed on unchanged. Exactly the reply's bytes are consumed, so that data following it stays in the stream and the buffer can be used for the next request, and the handler, copied if it is given as an lvalue, is called exactly once.",
  ["inputs", "schedules", "fault_sequences"], "arbitrary reply bytes, arbitrary split points, a transport error at any operation",
  "The tests contain no proxy replies beyond fixed happy-path packets; wrong versions, unknown statuses, split replies and trailing data need all values.",
  ["socks/client.hpp", "socks/detail/protocol.hpp", "socks/detail/client.hpp", "socks/impl/socks_error.cpp"], [("reply parsing", "socks/detail/"), ("composed operations", "socks/detail/client.hpp")],
  "bounded: reply bytes fully symbolic, domain-name lengths 0..2 and 255",
  observe=["completion handler", "stream read position"])

p("P04", "Linear buffers behave like a bounded byte sequence under any history",
  "After any sequence of appends, inserts, erases, reserves, resizes, clears, copies, moves and (self-)assignments, a linear buffer holds exactly the bytes a plain byte sequence would hold, with size <= capacity <= the size limit, and a length error occurs exactly when an operation would exceed the limit, leaving the buffer unchanged. No reallocation happens while the capacity suffices, a failing allocator leaves the content intact, and a moved-from buffer is empty and usable. Every block is returned exactly once, with its size, to an equal allocator, for stateless, stateful and propagating allocators.",
  ["histories", "inputs", "fault_sequences"], "arbitrary initial content and operation sequences with arbitrary arguments, and allocation failures",
  "The tests run a handful of fixed operations with the default allocator; aliasing, limits, assignment between unequal allocators and failure atomicity need all histories.",
  ["linear_buffer.hpp", "impl/linear_buffer.hpp"], [("basic_linear_buffer", "linear_buffer.hpp"), ("reallocation", "impl/linear_buffer.hpp")],
  "bounded: small capacities, short operation sequences, arbitrary contents and arguments",
  observe=["size/capacity/data", "allocator calls"])

p("P05", "Dynamic buffers over a linear buffer never lose, invent or overrun bytes",
  "For any sequence of prepare, commit and consume (or grow, shrink and consume) with arbitrary counts, the readable bytes are exactly those committed and not yet consumed, in order, and the writable region directly follows them and lies inside the buffer's memory. Committing, consuming or shrinking more than available is clamped, exceeding the smaller of both size limits is reported (length error or no-memory) without changing anything, and a view of any position and length, however large, never exceeds the readable memory.",
  ["histories", "inputs"], "arbitrary 64-bit counts in short operation sequences, arbitrary limits and contents",
  "Unit tests use small, well-behaved counts; overflow and clamping need all 64-bit values and all orders of operations.",
  ["linear_buffer.hpp"], [("dynamic_linear_buffer", "linear_buffer.hpp")],
  "bounded: short operation sequences with arbitrary 64-bit arguments",
  observe=["size/capacity/data of the dynamic buffer"])

p("P06", "File times convert exactly or are reported as out of range",
  "Reading a file's times yields exactly the times the operating system reports whenever all of them are representable, also before 1970, and otherwise the value-too-large error; setting times passes exactly the given time on (to the microsecond on systems without nanosecond support), normalised, and leaves a time given as zero unchanged. Converting clock values from and to time_t is exact and reversible. A failing system call is reported with its error code by throwing and non-throwing overloads alike.",
  ["inputs", "fault_sequences"], "every 64-bit second count and nanosecond value, every file time value, any failing system call",
  "The tests set and read back one or two current times; the arithmetic's mistakes are at negative times, at the ends of the range and at carries.",
  ["chrono.hpp", "impl/chrono.cpp", "detail/impl/chrono.hpp", "detail/impl/posix_file_ops.cpp"], [("time composition", "detail/impl/chrono.hpp"), ("get/set file times", "detail/impl/posix_file_ops.cpp")],
  "unbounded in values: no loops, all 64-bit inputs; system calls are modelled",
  observe=["file_handle times()", "arguments of futimens/futimes"])

p("P07", "Opening a file asks the system for exactly what was requested",
  "For every combination of open flags, permissions and path, the system is asked to open exactly that path with exactly the requested access mode, creation disposition and permissions (or the caller's native options), and always so that child processes do not inherit the handle. An interrupted call is repeated unchanged, contradictory or default-constructed options are refused without asking the system, and any other failure is reported with its error code by throwing and non-throwing overloads alike, with an empty handle. On success exactly one descriptor is open and the returned handle closes it exactly once.",
  ["inputs", "fault_sequences"], "all flag sets, permissions, native options and paths; interruptions and failures of the system call",
  "The tests open a few temporary files with a few flag combinations; a wrong native flag, a lost permission or a leak on failure shows only for particular flags or faults.",
  ["open.hpp", "open_args.hpp", "open_flags.hpp", "impl/open.cpp", "impl/open_args.hpp", "impl/open_flags.cpp", "detail/impl/posix_file_ops.cpp"], [("flag parsing and open()", "detail/impl/posix_file_ops.cpp"), ("option validation", "impl/open_flags.cpp")],
  "bounded only in path length and number of interruptions; flags, permissions and error codes are fully symbolic",
  observe=["arguments of open(2)", "returned handle and error_code"])

p("P08", "Handle I/O transfers the buffers in order and reports results truthfully",
  "For every buffer sequence, offset and outcome of the system call, reading and writing through a file handle hands the system a non-empty prefix of the caller's buffers in order, at the requested offset, and returns exactly the number of bytes transferred; empty buffers transfer nothing without error, and end of file is reported only when nothing could be read into non-empty buffers. Interrupted calls are repeated unchanged, every other failure is reported with its code and zero bytes, and throwing and non-throwing overloads agree. Seeking, querying position and size and truncating pass their arguments on unchanged and return the system's result.",
  ["inputs", "fault_sequences"], "all buffer shapes and sizes, all 64-bit offsets and results, interruptions and failures",
  "The tests do simple reads and writes of small temporary files; short transfers, interruptions, failures, empty buffers inside a sequence and large offsets are not reached.",
  ["file_handle.hpp", "unique_file_handle.hpp", "impl/file_handle.hpp", "impl/file_handle.cpp", "impl/file_handle_posix.hpp", "impl/file_handle_posix.cpp", "detail/impl/posix_file_ops.cpp", "detail/buffer.hpp"], [("vectored I/O", "detail/impl/posix_file_ops.cpp"), ("buffer adaptation", "impl/file_handle_posix.hpp")],
  "bounded in the number of buffers; sizes, offsets, results and error codes are fully symbolic; system calls are modelled",
  observe=["arguments of readv/writev/preadv/pwritev/lseek/ftruncate", "return value and error_code"])

p("P09", "Permission changes are exact and failures are reported",
  "Querying permissions returns exactly the file's access permissions, and replacing, adding or removing permissions sets exactly the given bits, their union with, or their removal from the current permissions, leaving special bits that were not named alone when adding or removing. If a system call fails, its error is reported by throwing and non-throwing overloads alike and the file is left unchanged. On systems without file attributes, attribute queries yield none and attribute changes succeed without effect.",
  ["inputs", "fault_sequences"], "all file modes, all permission arguments, all options, all failures",
  "The tests set two or three permission values on one file; mask mistakes show only for particular bit combinations and failures are never injected.",
  ["file_handle.hpp", "file_perms.hpp", "file_attrs.hpp", "impl/file_handle.cpp", "impl/file_handle_posix.cpp", "detail/impl/posix_file_ops.cpp"], [("permissions and attributes", "detail/impl/posix_file_ops.cpp")],
  "unbounded in values: no loops, all 32-bit inputs; system calls are modelled",
  observe=["argument of fchmod", "return value and error_code"])

p("P10", "Every owned file descriptor is closed exactly once",
  "For any history of construction, move, assignment, reset, release, duplication, opening, closing and destruction of owning file handles, each descriptor they own is closed exactly once, and no other descriptor is ever closed or leaked, even when closing or duplicating fails at any point. A handle reports being open exactly while it owns a descriptor, a moved-from or released handle is empty, and copies of non-owning handles own nothing. Failures are reported with the system's error by throwing and non-throwing overloads alike, and successful operations reset the error.",
  ["histories", "fault_sequences"], "all short histories over two handles with failures at any point",
  "The tests cover single operations on the success path; leaks and double closes need particular histories combined with a failing close.",
  ["unique_file_handle.hpp", "impl/unique_file_handle.cpp", "duplicate.hpp", "impl/duplicate.cpp", "standard_streams.hpp", "impl/standard_streams.cpp", "impl/file_handle_posix.cpp"], [("ownership", "impl/unique_file_handle.cpp"), ("closing", "impl/file_handle_posix.cpp")],
  "bounded histories; error codes fully symbolic; system calls are modelled",
  observe=["calls of close(2) and dup(2)", "is_open() and get()"])

p("P11", "Whole-file reads and writes are complete or reported as failed",
  "Reading a file into a container or buffers stores exactly the file's leading bytes, however the system splits or interrupts the transfers, resizes a container to the file's size, and reports end-of-file when the file is shorter than the buffers to fill. Writing a file creates or truncates it with the default permissions and writes exactly the given bytes, all of them unless an error is reported. The first failure of any step is reported as that step's error (a file its container cannot hold as message_size, an exception of the container by passing it on), and a file opened by path is closed exactly once on every path.",
  ["inputs", "schedules", "fault_sequences"], "arbitrary contents and sizes, every way to split or interrupt the transfers, failure of any system call",
  "The tests read and write small files on a real file system, which never returns short counts, interruptions or errors.",
  ["read_file.hpp", "write_file.hpp", "impl/read_file.hpp", "impl/write_file.hpp", "is_raw_byte_container.hpp"], [("read_file", "impl/read_file.hpp"), ("write_file", "impl/write_file.hpp")],
  "bounded: file sizes and number of transfers bounded, contents and error codes fully symbolic; system calls are modelled",
  observe=["container contents", "bytes passed to writev/readv", "error_code"])

p("P12", "A cancellation token is cancelled exactly when its source cancelled it",
  "For every history of issuing tokens, cancelling, destroying, resetting, moving and dropping token sources and copying tokens, a token reports being cancelled exactly from the moment its source was cancelled, destroyed, assigned to or went out of scope after the token was issued. Moving a source keeps its tokens alive and leaves the moved-from source as if destroyed; tokens issued by a destroyed source start cancelled, and resetting a source makes later tokens live without affecting tokens of a live source. Tokens may outlive their source and be used by other threads without a data race, and nothing is leaked.",
  ["histories", "schedules"], "all short histories over two sources and several tokens, and of one source whose tokens another thread uses",
  "The tests walk one straight-line history; stale or lost cancellations need particular orders of moves, resets and token creation.",
  ["cancellation_token.hpp", "impl/cancellation_token.cpp"], [("token source state", "impl/cancellation_token.cpp")],
  "bounded histories", observe=["cancellation_token::cancelled()"])

p("P13", "Asynchronous file operations complete exactly once, truthfully, where due",
  "For every history of starting, cancelling, closing, moving, destroying and reopening files, every started operation performs at most one transfer, on the thread pool and with the descriptor, offset and buffers it was given, and its handler (copied if it is given as an lvalue) is invoked exactly once, never from within the initiating call, on its associated executor or else the file's, with the transfer's true result. Operations cancelled, closed or destroyed before they start transfer nothing and report operation_aborted, operations and implementations follow a file or I/O object holder that is moved, and one already transferring reports its result. Until its handler has run an operation keeps its executor's context running, and when contexts are destroyed with operations outstanding every descriptor is still closed exactly once and nothing is leaked or used after destruction.",
  ["histories", "schedules", "fault_sequences"], "all short histories of two files and their operations, step by step or with real pool threads, any system results",
  "The tests start one operation at a time and run the context to completion; cancellation, moves, destruction and lost work need particular orders of operations and steps.",
  ["basic_file.hpp", "file.hpp", "thread_pool_file_service.hpp", "impl/thread_pool_file_service.hpp", "impl/thread_pool_file_service.cpp", "io_object_holder.hpp", "compose.hpp", "bind_handler.hpp", "work.hpp"], [("operations and cancellation", "impl/thread_pool_file_service.hpp"), ("file life cycle", "impl/thread_pool_file_service.cpp")],
  "bounded histories and preemptions; offsets, sizes and results fully symbolic; system calls are modelled",
  observe=["handler invocations and arguments", "system calls", "io_context::stopped()"])

p("P14", "A unique_handler invokes and destroys what it stores exactly once",
  "For any history of assignments, constructions, moves, resets and completions, a handler stored in a unique_handler is invoked at most once, by complete(), with exactly the given arguments, and is destroyed exactly once; storing one never invokes it. The object is empty exactly if it stores no handler: after construction, reset(), being moved from and complete(), while the handler itself runs (which may store a new one), and after a failed attempt to store a handler; completing an empty object throws bad_function_call. Storage comes from and returns to the handler's associated allocator, before the handler is invoked, and nothing leaks.",
  ["histories", "fault_sequences"], "all short histories over two objects, allocation failures, handlers that throw or store another handler",
  "The tests store, move and complete a few handlers on the success path; mistakes in the type-erased storage need particular histories, a failing allocation or a re-entrant handler.",
  ["unique_handler.hpp", "associated_allocator.hpp"], [("type-erased storage and completion", "unique_handler.hpp")],
  "bounded histories; arguments fully symbolic",
  observe=["invocations and destructions of handlers", "allocations", "operator bool"])

p("P15", "Composed operations deliver results, keep work and leak nothing",
  "A composed operation invokes its handler exactly once, when it completes, with exactly the arguments it completed with, passes its intermediate steps exactly their arguments, and uses the handler's associated executor and allocator for each of them; steps after the first are continuations. The executors it was given are kept busy until the handler has run and released afterwards, whether the operation completes directly or through a bound handler. An operation that is abandoned at any point destroys its handler exactly once without invoking it and leaks nothing; handlers, implementations and arguments given as lvalues are copied and left untouched.",
  ["inputs", "histories", "schedules"], "all short operations, completion forms, handler kinds and points of abandonment",
  "The tests run one composed operation to its end; lost work, use after move and wrong executors show only with particular combinations of executors, completion form and abandonment.",
  ["compose.hpp", "bind_handler.hpp", "detail/bound_handler.hpp", "work.hpp", "associated_allocator.hpp"], [("composed operations", "compose.hpp"), ("bound handlers", "detail/bound_handler.hpp"), ("outstanding work", "work.hpp")],
  "bounded number of steps and executors; argument values fully symbolic",
  observe=["arguments of handlers and steps", "whether io_contexts run out of work", "allocations"])

p("P16", "connect() tries every resolved endpoint in order and reports faithfully",
  "connect() and async_connect() ask the resolver exactly for the given host, service and flags, then try the endpoints it returned in order, each with exactly its address and port on a freshly opened socket of its family, and stop at the first success. The outcome is success exactly if an attempt succeeded; a resolver failure is passed on unchanged, an empty answer is not_found and otherwise the last attempt's error is reported; throwing and error_code overloads agree, and async_connect() calls its handler exactly once, through its associated executor, with the connected endpoint. A socket that was already open is closed first, no descriptor is leaked or closed twice, and an abandoned operation leaks nothing.",
  ["inputs", "fault_sequences", "histories"], "every query, resolver answer, combination of attempt outcomes and point of abandonment",
  "No test calls connect() at all; the order of attempts, stale sockets and the reported error only show with particular answers and failures.",
  ["connect.hpp", "impl/connect.cpp"], [("synchronous connect", "impl/connect.cpp"), ("asynchronous connect", "connect.hpp")],
  "bounded: answers of up to 2 (3) endpoints; addresses, ports, flags, names and errors symbolic; getaddrinfo and the socket calls are modelled",
  observe=["calls to getaddrinfo, socket, connect and close", "error_code, exception or handler arguments"])

p("P17", "Distinct file objects can be used from different threads",
  "Threads that construct, use, cancel, close, move and destroy file objects of their own, on one service or between two and with operations in flight on the service's pool, never access the same memory without synchronisation and never block each other for good. Every operation completes or is abandoned, every descriptor is closed exactly once and nothing is leaked, also when the contexts are destroyed while pool threads are still at work.",
  ["schedules", "histories"], "all short operation sequences of two threads and a pool thread, all bounded interleavings",
  "The tests use one thread; a missing or misdirected lock in the service's bookkeeping is invisible without the right interleaving and without a race analysis.",
  ["thread_pool_file_service.hpp", "impl/thread_pool_file_service.cpp", "impl/thread_pool_file_service.hpp", "basic_file.hpp", "io_object_holder.hpp", "cancellation_token.hpp"], [("list of implementations", "impl/thread_pool_file_service.cpp"), ("shutdown", "impl/thread_pool_file_service.cpp")],
  "bounded: two user threads with sequences of 2 (3) operations, up to one pool thread, bounded preemptions at mutex operations; happens-before analysis of every explored schedule",
  observe=["memory accesses and their happens-before order", "descriptors closed", "heap"])

p("P18", "Error values keep category, comparison, message and exception consistent",
  "For every integer, an error_code of the URL or SOCKS category is an error exactly if the value is not zero, compares equal exactly to the enumerator of that value, and its message is that enumerator's name or \"unknown\"; enumerators convert to exactly their code. Each category is a single object with its own name, and none of its errors equals one of another category. throw_error() throws a system_error carrying exactly the given code exactly if it is an error.",
  ["inputs"], "every 32-bit value",
  "The tests compare two or three error codes; the remaining values, messages and cross-category comparisons are never looked at.",
  ["error.hpp", "impl/error.cpp", "socks/error.hpp", "socks/impl/socks_error.cpp", "error_code.hpp", "detail/throw_error.hpp", "detail/impl/throw_error.cpp"], [("URL errors", "impl/error.cpp"), ("SOCKS errors", "socks/impl/socks_error.cpp"), ("throwing", "detail/impl/throw_error.cpp")],
  "all 32-bit values, no further bound",
  observe=["error_code, error_category and system_error accessors"])

p("P19", "Buffered streams pass data through once and in order",
  "Whatever the order of appends, flushes and fills, synchronous or not, and however the next layer splits transfers or fails, the bytes it receives are exactly the appended ones, once and in order; a successful flush sends everything appended before it and not yet sent (after a failed one, all that one left), and nothing is lost by a failed one. Received bytes arrive in the read buffer once and in order, every operation reports exactly what it transferred and passes errors on unchanged, and fills transfer at least a byte unless the buffer is at its limit, which no buffer ever outgrows. A flush is pending until its handler has been invoked, or not at all if starting it throws, further ones are refused meanwhile without sending anything; closing drops what is buffered and abandoned operations leak nothing.",
  ["histories", "inputs", "fault_sequences"], "all short histories of operations, with short transfers and errors at any point",
  "No test includes buffered_stream at all.",
  ["experimental/buffered_stream.hpp", "linear_buffer.hpp", "compose.hpp", "bind_handler.hpp"], [("write buffers", "experimental/buffered_stream.hpp"), ("asynchronous flush", "experimental/buffered_stream.hpp")],
  "bounded histories; byte values symbolic; the next layer is an in-memory mock on a real io_context",
  state=[("buffers", "bytes appended, locked for flushing and received")],
  observe=["bytes received by the next layer", "read_buffer()", "flush_pending()", "results and handlers"])

p("P20", "Operations can be started through any completion token, now or later",
  "Asynchronous file, connect, SOCKS and buffered stream operations work with any completion token: the handler the token makes is invoked exactly once with the operation's result, the initiating function returns what the token prescribes, and a coroutine gets its error as an exception. With a token that starts the operation later, nothing is transferred, sent or resolved before that, the names, credentials, lists of buffers or methods given are not needed any more by then, and the operation has the same effect as when started directly, unless its file was closed or destroyed meanwhile: then it is aborted and touches no other descriptor. An operation that is never started, or whose coroutine is abandoned, does nothing more and leaks nothing.",
  ["histories", "inputs", "fault_sequences"], "every operation, argument and outcome, started at once, later or never, with the file used otherwise in between",
  "The tests only use plain handlers and futures, which start every operation at once, while all its arguments are alive.",
  ["impl/basic_file.hpp", "impl/thread_pool_file_service.hpp", "compose.hpp", "connect.hpp", "socks/client.hpp", "socks/detail/client.hpp", "experimental/buffered_stream.hpp"], [("file operations", "impl/thread_pool_file_service.hpp"), ("connecting", "connect.hpp"), ("composed operations", "compose.hpp")],
  "bounded: one operation at a time (two in a coroutine) with symbolic arguments, results and failures; the token stores the initiation as asio's own do; the system is modelled",
  observe=["handler invocations and arguments", "system calls", "heap"])

p("P21", "Flags, permissions and options behave as sets of bits",
  "For all values of every flag type (open flags, permissions, attributes and their options), &, |, ^, ~ and the assigning forms are exactly the set operations, and enumerators are distinct bits or the documented unions of such. Permission constants have the system's values and SOCKS commands, methods and versions the protocol's. open_args keep and copy exactly what is set, and are invalid exactly if default-constructed, made from invalid flags or given the value -1.",
  ["inputs"], "every pair of 32-bit values, every enumerator",
  "The tests combine a handful of flags; an operator or a constant that is wrong for others is not noticed.",
  ["detail/enum.hpp", "open_flags.hpp", "file_perms.hpp", "file_attrs.hpp", "open_args.hpp", "impl/open_args.hpp", "socks/constants.hpp"], [("flag operators", "detail/enum.hpp"), ("permissions", "file_perms.hpp"), ("native open arguments", "open_args.hpp")],
  "all values, no further bound",
  observe=["values of flags, constants and open_args"])
