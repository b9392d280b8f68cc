SETUP = "python3 tools/selftest.py"
NOTES = """Family: model-based verification with explicit TLA+ specifications (spec/*.tla) checked by TLC.
Every check (1) model-checks the specification, (2) builds drivers against /repo's working tree, (3) runs the real
code on behaviours generated from the specification or at random, under a controlled scheduler / virtual kernel /
virtual clock, and (4) lets TLC decide whether every recorded trace is a behaviour of the specification.
No hooks in /repo are used."""
MC = "TLA+ specification model-checked with TLC; TLC trace validation of real executions"
PROPS = []


def P(**k):
    PROPS.append(k)


COMM = MC + """ (real event loop on a virtual kernel: sockets, epoll, faults, clock and peers are played by the driver; the
  application is random)"""
COMMF = ["src/CCommMgr.cpp", "include/CCommMgr.h", "src/CEvent.cpp", "include/CEvent.h", "include/Utils.h"]
COMMN = """Random histories with faults (short reads and writes, EAGAIN, EINTR, resets, accept errors), each judged by TLC;
  the design model is explored exhaustively for small constants. The virtual kernel models the socket calls used."""
P(id="C01", title="Inbound framing: every package delivered whole, once and in order",
  statement="""Whatever the way the bytes of a connection are cut up on arrival, the application receives exactly the
  packages the peer sent, each whole, byte for byte, once and in order, for every package format including user-defined
  and raw ones. A complete package that has arrived and fits the receive limit is delivered without waiting for more
  input, also when the peer closes right after sending it.""",
  over=["inputs", "histories", "fault_sequences"],
  qtext="all package sequences and sizes, all segmentations of the stream, all five package formats, all buffer limits",
  why="Tests see the segmentation loopback happens to produce; cut points inside headers and buffer growth boundaries are not hit.",
  files=COMMF + ["include/CHttpPackageFilter.h", "include/CPackageFilter.h", "include/CBuffer.h"],
  mech=[("receive loop, buffer growth and package extraction", "CCommMgr::onTcpRead"),
        ("format filters", "isWholePkg of the package filters")],
  tech=COMM, note=COMMN)
P(id="C02", title="Outbound stream: accepted writes arrive complete and in order",
  statement="""Everything a successful write accepted reaches the peer exactly once, byte for byte and in the order of the
  calls, however slowly the peer reads and however few bytes the system takes at a time. A write that would exceed the
  send limit or hits a lost connection is refused and contributes nothing after what was already taken. A write that asks
  for closing closes the connection after, and only after, all accepted data was handed over.""",
  over=["inputs", "histories", "fault_sequences"],
  qtext="all sequences of writes (zero-length and oversized ones included), all partial sends, all peer reading patterns",
  why="On loopback with small messages the kernel takes every send whole, so the buffering path hardly ever runs.",
  files=COMMF, mech=[("direct send, buffering and EPOLLOUT", "CCommMgr::write, CCommMgr::onWrite"), ("close after flush", "CCommMgr::write(bClose)")],
  tech=COMM, note=COMMN)
P(id="C03", title="Connection lifecycle: paired callbacks, everything released once",
  statement="""Every accepted connection is announced once before any of its data, and its end is reported exactly once
  unless the application itself closed it; after the end or the application's close there are no more callbacks for it.
  Its descriptor is closed exactly once, and when all connections are gone nothing remains open. An orderly shutdown,
  a reset, an error and removal of the server all end that way.""",
  over=["histories", "fault_sequences"],
  qtext="all orders of peer close, reset, application close, close-after-write, server removal, read and write events",
  why="Tests close connections in one orderly way; the error paths and simultaneous events are not reached.",
  files=COMMF, mech=[("close paths", "CCommMgr::close, onTcpRead, onWrite, rmSrv"), ("accept path", "CCommMgr::onAccept")],
  tech=COMM, note=COMMN)
P(id="C04", title="Isolation: a connection never receives another connection's data or events",
  statement="""Data, callbacks, writes and closes always concern the connection they were meant for, also when the system
  gives the descriptor of a closed connection to a new one while replies, pending events or stored sessions of the old one
  still exist. A write or close through the session of a connection that is gone fails without touching any other connection.""",
  over=["histories", "schedules"],
  qtext="all orders of closing, accepting and connecting that reuse descriptors, in callbacks and between them, with late replies",
  why="Descriptor reuse within one event batch or before a late reply needs a precise order of events that tests do not produce.",
  files=COMMF, mech=[("session checked against the connection", "CCommMgr::write, CCommMgr::close"), ("stale events dropped", "CEvent::run")],
  tech=COMM, note=COMMN)
P(id="C05", title="Client limit: enforced exactly, capacity always recovered",
  statement="""At no time are there more client connections than the configured limit; a connection within the limit is
  always accepted, and one beyond it is closed at once and reported without disturbing the others. Every connection that
  ends, for whatever reason, frees its place.""",
  over=["histories", "configurations"],
  qtext="all limits, all arrival and departure sequences, descriptor numbers up to and beyond the connection table",
  why="Tests open a few connections, far below the limit.",
  files=COMMF, mech=[("limit check and table bounds", "CCommMgr::onAccept"), ("place given back", "CCommMgr::close and error paths")],
  tech=COMM, note=COMMN)
P(id="C06", title="Malformed or oversized input ends only its own connection",
  statement="""Input that is not a valid package, or announces a package larger than the receive limit, never crashes the
  program, reads beyond what was received or is delivered as a package: the connection is reported with the matching error
  and closed. Packages completed before it are still delivered and other connections are unaffected.""",
  over=["inputs", "histories"],
  qtext="all byte sequences a peer can send, in all segmentations, on all package formats; out-of-bounds access is detected",
  why="Tests send well-formed packages only.",
  files=COMMF + ["include/CHttpPackageFilter.h", "include/CPackageFilter.h"],
  mech=[("filters reject bad headers", "isWholePkg of the package filters"), ("no-buffer and invalid-package errors", "CCommMgr::onTcpRead")],
  tech=COMM + "; AddressSanitizer reports are events the specification does not allow", note=COMMN)
P(id="C07", title="Timers fire once, never early, in order of their deadlines",
  statement="""Every timer fires exactly once with its own data, never before its time and as soon as the event loop is
  free after it, and timers that are due fire in the order of their deadlines. Setting a timer that exists replaces it and
  a deleted timer never fires, also when that happens inside callbacks.""",
  over=["histories", "inputs"],
  qtext="all sequences of setting, replacing and deleting timers, all delays from zero to the largest, all clock positions",
  why="Tests set one timer and wait; replacement inside callbacks, equal deadlines and huge delays are not tried.",
  files=["src/CEvent.cpp", "include/CEvent.h", "include/CMinHeap.h", "src/CCommMgr.cpp"],
  mech=[("timer heap", "CEvent::addTimer, delTimer, run"), ("epoll timeout from the next deadline", "CEvent::run")],
  tech=COMM, note=COMMN)
P(id="C08", title="Messages from other threads: each delivered once, in order, without deadlock",
  statement="""Every message sent to the event loop, from any thread including the loop's own, is delivered exactly once on
  the loop's thread with its type and data. A message whose sending returned before another was sent is delivered before
  it. Sending never blocks for ever, however many messages are pending.""",
  over=["schedules", "histories"],
  qtext="all interleavings of any number of senders with the loop, all numbers of pending messages, wake-up channel full included",
  why="The test sends one message; a full wake-up pipe and the races between draining and signalling need load and schedules.",
  files=["src/CEvent.cpp", "include/CEvent.h", "src/CCommMgr.cpp"],
  mech=[("queue and wake-up pipe", "CEvent::addMessage, CEvent::run"), ("message dispatch", "CCommMgr::sendMessage, onMessage")],
  tech=COMM + " under the controlled scheduler", note=COMMN)
P(id="C09", title="Outgoing connections: the outcome is reported once, then they work as others",
  statement="""Every started outgoing connection ends in exactly one report, success or failure, carrying the data given
  when it was started, unless the start itself returned failure. A connection reported as established delivers packages and
  takes writes like an accepted one; a failed one is closed and leaves nothing behind.""",
  over=["histories", "fault_sequences"],
  qtext="all outcomes (at once, later, refused, timed out, failing synchronously) in all orders with other events",
  why="Tests connect to a listening local port, which always succeeds.",
  files=COMMF, mech=[("non-blocking connect and completion", "CCommMgr::connect, CCommMgr::onConnect")],
  tech=COMM, note=COMMN)
P(id="C10", title="Datagrams: received whole with their sender, sent as given",
  statement="""Every datagram received is reported exactly once: delivered whole with its sender's address if it is one
  valid package that fits the receive limit, and otherwise as an error, never cut or merged. A datagram sent is passed to
  the system exactly once, unchanged and to the address given.""",
  over=["inputs", "histories"],
  qtext="all datagram sizes (empty and larger than the buffers included), formats, bursts and faults",
  why="Tests send one short datagram.",
  files=COMMF, mech=[("datagram receive with buffer growth", "CCommMgr::onUdpRead"), ("datagram send", "CCommMgr::writeTo")],
  tech=COMM, note=COMMN)
NETF = ["src/CNetWorker.cpp", "include/CNetWorker.h", "include/CNetWorkerMgr.h", "src/CEvent.cpp", "include/CCircleQueue.h"]
NET = MC + """ (one accepting thread and 1-4 worker threads on a virtual kernel under a controlled scheduler that also
  preempts at memory accesses of the library)"""
NETN = """Random histories, schedules and faults, each judged by TLC; the design model (workers taking turns, limit, timers,
  messages) is explored exhaustively for small constants. Sequential consistency is assumed."""
P(id="C11", title="Multi-reactor: a connection belongs to one worker from announcement to end",
  statement="""Every connection CNetWorkerMgr accepts is handed to exactly one worker, consecutive ones to the workers in turn,
  and is announced, served and ended by that worker alone with its own session, however accepting and serving interleave.
  Its end is reported exactly once unless the application closed it, nothing of it reaches another connection that gets
  its descriptor, and all descriptors are released. A client whose descriptor number exceeds the limit is refused, closed
  and reported through the error handler.""",
  over=["schedules", "histories", "fault_sequences"],
  qtext="all interleavings of the accepting thread and the workers, all orders of accept, close, reset and descriptor reuse, all limits",
  why="The one test starts the server and never connects; hand-over races and descriptor reuse between threads cannot be hit by it.",
  files=NETF, mech=[("hand-over through queue and eventfd", "CNetWorker::watch, CNetWorker::onEvent"),
                    ("round robin and limit", "CNetWorkerMgr::onAccept"), ("end of a connection", "CNetWorker::close, CNetWorker::onTcpRead")],
  tech=NET, note=NETN)
P(id="C27", title="Multi-reactor: worker connections keep packages whole and writes in order",
  statement="""On a worker's connection the application receives exactly the packages the peer sent, each whole, once and in
  order, for every format and every segmentation, and a malformed or oversized package ends the connection with its error
  code and delivers nothing. What a successful write accepted reaches the peer exactly once in the order of the calls,
  a refused write adds nothing after what was taken, and a write that asks for closing closes after everything was sent.""",
  over=["inputs", "histories", "fault_sequences"],
  qtext="all package sequences and segmentations, all formats and limits, all sequences of writes and partial sends, on every worker",
  why="No test sends a byte through a worker; partial sends and split packages need a peer and a kernel that misbehave on purpose.",
  files=NETF, mech=[("receive loop", "CNetWorker::onTcpRead"), ("send path", "CNetWorker::write, CNetWorker::onWrite")],
  tech=NET, note=NETN)
P(id="C28", title="Multi-reactor: timers, messages and outgoing connections of each worker",
  statement="""A worker's timer fires once, not before its time, in order of expiry, with its data, on that worker's thread,
  unless deleted. A message sent to a worker from any thread is delivered exactly once, on that worker, in the order of
  completed sends. An outgoing connection of a worker is reported exactly once as connected or failed with the data it was
  started with, and is read from and written to like any other once connected.""",
  over=["schedules", "histories", "fault_sequences"],
  qtext="all interleavings of senders and workers, all timer sets and clock positions, all outcomes and timings of connects",
  why="Tests never use a worker's timers, messages or connects, and a lost wake-up needs one particular interleaving.",
  files=NETF, mech=[("timers and messages", "CNetWorker::addTimer, CNetWorker::sendMessage, CEvent::run"),
                    ("connect and its completion", "CNetWorker::connect, CNetWorker::onTcpConnect")],
  tech=NET, note=NETN)
P(id="C12", title="Task pool: every accepted task runs exactly once, dispatch order kept",
  statement="""Every task the pool accepted runs exactly once, with the type and data it was dispatched with, on one of
  its threads, and tasks are taken in the order they were dispatched; no accepted task keeps waiting while a thread is
  free. The queue holds as many waiting tasks as it was created for, and dispatching fails, running nothing, only if full. Stopping the threads at any moment never leaves the pool locked: callers go on.""",
  over=["schedules", "histories", "configurations"],
  qtext="all interleavings of dispatchers and threads, all thread and queue sizes, stopping at any moment",
  why="The test dispatches a few tasks and sleeps; full queues, lost wake-ups and cancellation inside the wait need particular schedules.",
  files=["src/CTask.cpp", "include/CTask.h", "src/CThread.cpp", "include/CLock.h"],
  mech=[("bounded task queue", "CTask::dispatch"), ("thread loop", "CTask thread run loop"), ("cancellation", "CThread::stop")],
  tech=MC + " under a controlled scheduler with preemption at memory accesses and deferred cancellation",
  note="Bounded exploration of schedules, sequential consistency; TLC decides each recorded history.")
P(id="C13", title="Worker pools: each answer reaches the connection that asked, once",
  statement="""Every request read from a connection of a raw, HTTP or any-package worker pool reaches one worker complete and
  unchanged with the session that sent it, in order of arrival, or is refused with the error handler told when the queue is full;
  a request that cannot be decoded costs only its own connection. The answer of a worker reaches exactly that session, once, whole, and is followed by
  closing if the worker asked for it; nobody else ever gets it, even if the asker has left. A worker that throws loses only its own answer, the pool goes on, and what the pool holds does not grow with what passed through it.""",
  over=["schedules", "inputs", "histories", "configurations"],
  qtext="all interleavings of reactor and workers, all request sizes, peers leaving at any moment, workers that throw, all pool and queue sizes",
  why="The tests run one request at a time; reused descriptors, full queues, answers to departed peers and malformed packages need particular histories.",
  files=["include/CRawWorkerPool.h", "include/CHttpWorkerPool.h", "include/CAnyWorkerPool.h", "include/CRawWorker.h", "include/CHttpWorker.h", "include/CAnyWorker.h", "src/CTask.cpp", "src/CCommMgr.cpp"],
  mech=[("reading and dispatching a request", "CRawWorkerPool::onRead, CHttpWorkerPool::onRead, CAnyWorkerPool::onRead"),
        ("running the worker, sending the answer", "onWork, CCommMgr::sendMessage"), ("writing to the session", "onMessage, CCommMgr::write")],
  tech=MC + " of the whole pool (Pool.tla extends Task.tla) behind the reactor on a virtual kernel under a controlled scheduler",
  note="Bounded exploration of schedules and histories; TLC decides each recorded history. The HTTP pool's treatment of a request without a URI is left open.")
P(id="C14", title="Blocking queue: FIFO, bounded, exactly once, no lost wake-up",
  statement="""For any number of producers and consumers, every item pushed into the bounded blocking queue comes out
  exactly once and in the order of pushing, the queue never holds more items than its capacity, and every call
  (push, pop, timed pop, front, back, size, empty, full, clear) takes effect atomically between its start and its end.
  A call never stays blocked while the queue would let it proceed, and nobody blocks forever because of another
  caller. A timed pop gives up only when the queue is empty and only after its whole timeout.""",
  over=["schedules", "inputs", "configurations"],
  qtext="""all interleavings of any number of threads, all capacities, all sequences of operations, spurious wake-ups
  and clock positions included""",
  why="""The one test pushes and pops from a few threads under the scheduling the machine happens to give; a race window,
  a lost wake-up or a wrong deadline needs a particular schedule or a particular fraction of a second.""",
  files=["include/CBlockQueue.h", "include/CLock.h"],
  mech=[("push/pop wait on two condition variables under one mutex", "CBlockQueue::push, CBlockQueue::pop"),
        ("timed pop computes an absolute deadline", "CBlockQueue::pop(T&, int)"), ("clear", "CBlockQueue::clear")],
  state=[("ring of items with front/back/size", "the queue", "CBlockQueue::m_pData, m_iFront, m_iBack, m_iSize")],
  tech=MC + " (linearizability: TLC searches the linearization points) under a controlled scheduler with a virtual clock",
  note="""Bounded exploration of schedules: random-walk and PCT scheduling with preemption at memory accesses; TLC decides
  each recorded history. Sequential consistency is assumed (one thread runs at a time).""")
P(id="C15", title="Single-producer single-consumer ring: lock-free FIFO",
  statement="""With one producer thread and one consumer thread, the lock-free ring delivers every accepted item exactly
  once, in order and untorn; enqueueing is refused only when the ring is full and dequeueing only when it is empty, at
  some moment during the call. It holds exactly as many items as it was initialised for.""",
  over=["schedules", "inputs", "configurations"],
  qtext="all interleavings of the two threads at memory-access granularity, all capacities, all operation sequences",
  why="The test is single-threaded; ordering of slot write and index publication only shows in particular interleavings.",
  files=["include/CCircleQueue.h"],
  mech=[("slot is written before the index is published", "CCircleQueue::enque"),
        ("slot is read before the index is advanced", "CCircleQueue::deque")],
  tech=MC + " under a controlled scheduler that preempts at every memory access",
  note="""Bounded exploration of interleavings under sequential consistency (hardware reordering is not explored).""")
P(id="C16", title="Variable-length message ring: FIFO, whole messages, survives a dying side",
  statement="""Messages put into the ring come out exactly once, in order, byte for byte and never joined or cut, for every
  length and wherever the ring wraps; pushing is refused only when there is no room and changes nothing then, and a
  message longer than the reader's buffer is reported and dropped alone. It holds with one producer and one consumer
  at the same time, and when either dies at any point the other still sees only whole messages in order.""",
  over=["schedules", "inputs", "crash_points", "histories"],
  qtext="all message lengths including zero, all ring sizes, all operation sequences, all interleavings, death at every memory access",
  why="Tests put a few short messages into a large ring from one thread; wrap positions, torn lengths and crashes are not reached.",
  files=["include/CBufferQueue.h"],
  mech=[("append with wrap-around", "CBufferQueue::push"), ("take with wrap-around", "CBufferQueue::pop"),
        ("indices in shared memory", "CBufferQueue::Header")],
  tech=MC + "; TLC-generated scripts and controlled schedules with threads killed at every memory access",
  note="""Scripts cover the transitions of the bounded specification; schedules and kill points are sampled. Sequential
  consistency is assumed.""")
P(id="C17", title="LRU cache: map semantics, recency order, capacity and expiry",
  statement="""The LRU cache answers every lookup with the value last set for that key unless the key was deleted, evicted,
  cleared or has expired; it never holds more keys than its configured capacity, evicts only when a new key needs room,
  and evicts the least recently used keys first (the divided cache: in the part the key falls into). An entry with a lifetime is returned up to and never after its expiry.""",
  over=["inputs", "histories", "configurations"],
  qtext="all sequences of set/get/del/clear/size, all capacities (0 and 1 included), all lifetimes and clock positions",
  why="The test sets and reads a handful of keys far below capacity and never lets one expire or be evicted.",
  files=["include/CLruCache.h"],
  mech=[("recency list", "CLruCache::removeFromList/addToListHead"), ("eviction", "CLruCache::set"),
        ("expiry", "CLruCache::get")],
  tech=MC + "; scripts that cover every transition of the specification's state graph replayed into the real cache",
  note="""Complete over the transitions of the bounded specification (3 keys, 2 values, capacities 0-2, expiry clock); random
  histories beyond it. Of the divided cache only what its client can see: a key that may have been evicted may be missing.""")
P(id="C18", title="LRU cache is safe to share between threads",
  statement="""When several threads use one LRU cache, every operation appears to take effect at one moment between its
  call and its return: the results are those of some sequential order of the operations on the cache (of a divided cache: those on single keys). No operation
  crashes, corrupts the cache or blocks forever.""",
  over=["schedules", "inputs"],
  qtext="all interleavings of concurrent set/get/del/clear/size (divided cache: set/get/del) at memory-access granularity",
  why="The test uses one thread; a missing or misplaced lock only shows under particular interleavings.",
  files=["include/CLruCache.h", "include/CLock.h"],
  mech=[("one lock around each operation", "CLruCache::get, set, del, clear, size")],
  tech=MC + " (linearizability) under a controlled scheduler",
  note="Bounded exploration of schedules; sequential consistency assumed; freed memory is poisoned to expose use after free.")
P(id="C22", title="AnyValue: a value tree that survives its binary form",
  statement="""A value tree built with CAnyValue holds what was put into it - every type over its whole range, and a copy is
  independent of its origin - and decoding its binary encoding, with its package header, gives the same tree back. Decoding
  any other bytes gives the value they encode, in whatever width; what is truncated or of an unknown type throws, and no
  input of any size or depth reads outside it, crashes or exhausts the stack.""",
  over=["inputs", "histories", "programs"],
  qtext="all value trees and sequences of operations on them, all byte strings of any length and nesting",
  why="The tests print a few small values; range boundaries, reuse of a value, aliasing and hostile bytes are never tried.",
  files=["include/CAnyValue.h", "include/CAnyPackage.h"],
  mech=[("type-length-value encoding", "CAnyValue::encode_*, decode_*"), ("deep copies", "CAnyValue::assign"),
        ("bounds of every read", "CAnyValue::check"), ("packages", "CAnyValuePackage::encode, decode; AnyHeader")],
  tech=MC + ": random programs, byte strings and packages judged by the specification's encoder, decoder and tree operations",
  note="""Random histories under AddressSanitizer. What a map does with a value of type EXT, and operations on an empty vector's
  ends, are left open.""")
P(id="C29", title="AnyValue: JSON and XML text",
  statement="""The JSON text of a value tree is valid JSON which decodes to the same tree (floats that 16 digits identify), and
  every valid JSON text decodes to its value: escapes, surrogate pairs, exponents and integers over their whole range. The
  beginning of an object, array or string alone throws, and no text, valid or not, of any depth is read outside its bounds
  or crashes. The XML text is the tree's elements in order with character data intact.""",
  over=["inputs"],
  qtext="all value trees, all texts of any length and nesting",
  why="The tests parse one file and print it; escapes, limits of numbers, cut or hostile texts are never tried.",
  files=["include/CAnyValue.h"],
  mech=[("writer", "CAnyValue::encodeJSON, textEncodeJSON, encodeXML"), ("reader", "CAnyValue::decodeJSON, readObj, readArray, readString, readNumber")],
  tech=MC + ": random trees and texts judged by the specification's JSON grammar",
  note="""Random histories under AddressSanitizer. Left open: repeated keys, integers beyond 64 bits, what an invalid text that is
  not merely cut decodes to. The values of numbers with a fraction or exponent come from strtod.""")
P(id="C21", title="HTTP requests are read as they were written",
  statement="""Of a well-formed request CHttpReader reports the command, URI, version, headers (names in any case), cookies, URL
  coded values of query or body, and the fields and files of a multipart form, each exactly as sent, whatever the reader
  was used for before; a value that was not sent has its default. No sequence of bytes makes it throw, crash or read
  outside the data.""",
  over=["inputs", "histories"],
  qtext="all requests, well-formed or not, all sequences of requests through one reader",
  why="The test serves one fixed page; coded, empty, binary or cut values, uploads and reused readers are never tried.",
  files=["include/CHttpReader.h", "src/CHttpReader.cpp", "src/Utils.cpp"],
  mech=[("request line and headers", "CHttpReader::setData"), ("query, form and cookies", "CHttpReader::parseValues, parseCookies"),
        ("uploads", "CHttpReader::parsePostFormData"), ("URL coding", "FormUrlDecode")],
  tech=MC + ": random requests, spoiled and not, judged by the specification's request grammar",
  note="""Random histories under AddressSanitizer. Left open: repeated header names, HEAD with a query, quoted boundaries,
  malformed requests beyond not crashing.""")
P(id="C30", title="HTTP responses say what was set, once, and nothing else",
  statement="""What CHttpWriter produces is a status line, exactly one header line for everything that was set since begin() - of
  any length, dates in GMT, cookies with their attributes - and the body byte for byte, with a Content-Length that is the
  body's or the one set. Nothing of an earlier response remains in a later one.""",
  over=["inputs", "histories"],
  qtext="all responses and all sequences of them through one writer, all clock values",
  why="The test writes one short response per writer.",
  files=["include/CHttpWriter.h", "src/CHttpWriter.cpp", "src/Utils.cpp"],
  mech=[("response", "CHttpWriter::end"), ("defaults", "CHttpWriter::begin"), ("dates", "GetGMTDate")],
  tech=MC + ": random responses under a virtual clock judged by the specification's response grammar",
  note="""Random histories under AddressSanitizer. Left open: a cookie set twice, header texts with line breaks, whether an empty
  body has a Content-Length.""")
P(id="C31", title="URL coding, HTTP dates and string helpers",
  statement="""URL-coded text decodes to the original bytes; an HTTP date is the date of its time for every second from 1970 to
  2039 and reads back as that time; the current time as text is that of the call; splitting, replacing, trimming and cutting strings do so at every occurrence and never
  read outside the text. All of these, and readers and writers of HTTP, give the same result when other threads use them.""",
  over=["inputs", "schedules"],
  qtext="all strings, all times from 1970 to 2039, all interleavings of threads with objects of their own",
  why="The tests try a few strings in one thread.",
  files=["src/Utils.cpp", "include/Utils.h", "include/StringHelper.h"],
  mech=[("URL coding", "FormUrlEncode, FormUrlDecode"), ("dates", "GetGMTDate, Gmt2Time"), ("time of day", "GetTimeString, GetTickCount"), ("strings", "SplitStr, ReplaceStr, TrimStr, GetMiddleStr, ToStr")],
  tech=MC + ": random inputs, and controlled schedules of several threads, judged by the specification's functions",
  note="Random inputs and schedules. Left open: empty patterns, escapes that are not hexadecimal.")
P(id="C19", title="Asynchronous log: every accepted line reaches the file once",
  statement="""Every line the asynchronous log (or CLog, of the levels it is set to) accepted gets into the log file whole, exactly once, in the order of the
  calls, with the time of its call: at the latest when a flush that began after it returns, when the configured seconds have
  passed, or when the log is destroyed. A line is refused, and leaves no trace, only if what still waits in memory leaves no
  room for it in one buffer. It holds for any number of threads writing and flushing at the same time, and nobody blocks forever.""",
  over=["schedules", "histories", "configurations"],
  qtext="all interleavings of writers, flushers and the log's own thread; all line and buffer sizes and intervals",
  why="The tests write a few lines from one thread and never read the file; the overflow into the second buffer and the race of two flushes need particular moments.",
  files=["src/CAsyncLog.cpp", "include/CAsyncLog.h", "src/CLog.cpp", "include/CLog.h", "src/CThread.cpp", "include/CThread.h"],
  mech=[("two buffers, one written, one flushed", "CAsyncLog::writeRaw, CLogBuffer"), ("flush and the log's thread", "CAsyncLog::flush, CAsyncLog::run"),
        ("line format", "CAsyncLog::write, CLog::log")],
  tech=MC + " under a controlled scheduler with a virtual clock; the files are read back at any moment",
  note="Bounded exploration of schedules, sequential consistency; CLog with all levels switched on.")
P(id="C20", title="Log files: size limit, rotation and change of day",
  statement="""A log writes to the file of the current day; when that file has reached the size limit it becomes number 1, the
  others move up by one, and beyond the configured number of files the oldest goes - nothing else is ever lost, repeated or
  changed, whenever the log is closed and opened again. Every line is in the file as soon as it was written (flushed, for the
  asynchronous log), whole, also if several threads write; writing to a file that cannot be opened is reported.""",
  over=["histories", "inputs", "configurations", "schedules"],
  qtext="all sequences of lines, lengths, limits, numbers of files, changes of day, closing and opening",
  why="The tests never reach the limit, never read the files, and cannot wait for midnight.",
  files=["src/CFileLog.cpp", "include/CFileLog.h", "src/CAsyncLog.cpp", "include/CAsyncLog.h"],
  mech=[("rotation", "CFileLog::shiftFiles, CAsyncLog::shiftFiles"), ("change of day", "getDate, m_sCurDate"), ("writing", "CFileLog::write, operator<<")],
  tech=MC + ": random histories with a virtual clock; all files are read back and compared with the specification's",
  note="Random histories. A line or flush larger than the limit goes to one file; files are only judged up to nine of a day.")
P(id="C23", title="Configuration files: what is written is what is read",
  statement="""A configuration file of sections and name = value lines gives, for every section and name, the last value written
  for it, without the blanks around it, converted to the type asked for over that type's whole range, and the caller's default
  where there is none. Comments, empty lines and lines without = set nothing, wherever blanks are; a list is split at its
  separators, an entry without a port left out, addresses are read as IP and port. Writing values and reading the file again gives the same values.""",
  over=["inputs", "histories"],
  qtext="all files of sections, comments, blanks, names and values; all reads with all types and defaults",
  why="One sample file is read in a demo; blanks before comments, missing =, and limits of numbers are not in it.",
  files=["src/CConfig.cpp", "include/CConfig.h", "src/Utils.cpp", "include/Utils.h"],
  mech=[("reading lines", "CConfig::load"), ("values", "CConfig::getValue")],
  tech=MC + ": random files and reads, each answer judged by TLC",
  note="Random files. Left open: an empty section name, texts which are no number, words for true other than the usual, odd addresses.")
P(id="C24", title="Bitmaps and shared arrays: a cell holds what was last set, others keep theirs",
  statement="""A cell of a bitmap (of any width) or of an array in shared memory gives the value last set through any handle to
  the same memory, zero if none was or all were cleared; setting a cell changes no other cell. A cell that does not exist
  is refused, also by handles for fewer cells, and nothing outside the memory asked for is read or written. The contents
  outlast the handles; memory which is too small for a handle is refused.""",
  over=["inputs", "histories", "configurations"],
  qtext="all sizes and widths, all sequences of attaching, setting, reading, clearing and detaching through several handles",
  why="Cells that straddle bytes, the last cell and values too large need particular positions; tests use one size.",
  files=["include/CBitMap.h", "include/CShmArray.h", "include/CShm.h"],
  mech=[("cells in bytes", "CBitMap::setValue, CBitMap::getValue"), ("memory", "CShm::init, CShmArray")],
  tech=MC + ": random histories on real shared memory under AddressSanitizer",
  note="Random histories; one process attaches the same memory several times. A value too large leaves its own cell open.")
P(id="C25", title="Binary packages: what is written is read back, and nothing else",
  statement="""Values and bytes written to a package are read back in the same order with the same types and values, through
  copies, assignment and the package's bytes as well; the head holds what was set and always exists. Reading beyond the end
  fails without touching anything; seeking stays within the body; writing in the middle replaces exactly the bytes there.""",
  over=["inputs", "histories"],
  qtext="all sequences of writing, reading, seeking, copying and assigning; all lengths, truncated packages included",
  why="A test writes a few values and reads them in order; truncated data and positions near the ends never occur.",
  files=["include/CPackage.h", "include/Utils.h"],
  mech=[("writing and reading", "CPackage::append, operator<<, operator>>"), ("position", "CPackage::seek, isEnd")],
  tech=MC + ": random histories under AddressSanitizer, every result judged by TLC",
  note="Random histories, two head types. After a failed read the package's position is left open.")
P(id="C26", title="Client connectors: connect, read and write within their timeouts, in order",
  statement="""A TCP connector connects exactly if the system does so within the timeout; what it reads is the peer's stream in
  order without gaps, its end is reported once everything was read, and a read gives up no earlier and no later than its
  timeout. A write reports the bytes taken, or fails for a reason and closes; a closed connector connects again to write. A
  UDP connector sends each datagram whole to the peer named and reads them whole, in order. At most one descriptor is open.""",
  over=["schedules", "fault_sequences", "inputs"],
  qtext="all answers and delays to connects, all pieces and times of arrival, ends, resets, partial sends, interfaces",
  why="On loopback a connect is always answered at once and a read always gets everything; delays and faults do not happen.",
  files=["src/CTcpConnector.cpp", "include/CTcpConnector.h", "src/CUdpConnector.cpp", "include/CUdpConnector.h"],
  mech=[("connect with timeout", "CTcpConnector::_imp_connect"), ("reads", "CTcpConnector::read, readn"), ("datagrams", "CUdpConnector::read, write, getLocalIp")],
  tech=MC + ": the real connectors on simulated sockets with a virtual clock; every call's answer, data and duration judged by TLC",
  note="Random histories. Left open: zero timeouts, EINTR, reading an empty datagram; readn that times out loses what it got.")
P(id="C32", title="Locks and conditions: exclusion, honest tries, no lost wake-up, exact timeouts",
  statement="""A mutex or spin lock is held by one thread at a time, a read-write lock by one writer or by readers only; a try
  call succeeds exactly if the lock can be taken at that moment, and a scoped lock is given back at the end of its scope. A
  condition's wait gives the mutex up and comes back holding it; a signal wakes at least one waiter and a broadcast all of
  them. A wait with a timeout returns false exactly if that many milliseconds passed without a wake-up, no earlier and no later.""",
  over=["schedules", "histories"],
  qtext="all interleavings of random programs of up to four threads on mutexes, spin locks, read-write locks, conditions",
  why="A lost wake-up or a timeout that is off depends on the interleaving and on the fraction of a second of the clock.",
  files=["include/CLock.h"],
  mech=[("locks", "CMutex, CSpinLock, CReadWriteLock, CAutoLock"), ("conditions", "Condition::wait, signal, broadcast")],
  tech=MC + """: random programs under a controlled scheduler and a virtual clock; the recorded calls must be linearizable, and
  time may pass only while every unfinished call has a reason to wait""",
  note="Random schedules and programs. The primitives of the C library are simulated; sequential consistency is assumed.")
P(id="C33", title="Thread objects and singletons: run once per start, join waits, one instance",
  statement="""Starting a thread object executes its run() exactly once, in a thread of its own that is shielded from SIGPIPE and
  does not see the object as stopped before somebody stops it; stop makes isStoped true and ends a thread that waits; join
  returns only after run() has ended; a failed start reports it and runs nothing. Objects can be started again and deleted at
  any such point without touching a thread that is gone. A singleton is made once and everybody gets it complete.""",
  over=["schedules", "histories", "fault_sequences"],
  qtext="all interleavings of owners, running threads and users of singletons; failing thread creation; any order of calls",
  why="The windows between starting, stopping and ending are a few instructions wide; tests start a thread and sleep.",
  files=["src/CThread.cpp", "include/CThread.h", "include/CSingleton.h"],
  mech=[("life of a thread", "CThread::start, stop, join, detach, ~CThread"), ("one instance", "CSingleton::getInstance")],
  tech=MC + ": random owners and run() bodies under a controlled scheduler; every call and every event of run() judged by TLC",
  note="Random schedules; one owner per object. Stopping a thread that was detached and may have ended is the caller's error.")
