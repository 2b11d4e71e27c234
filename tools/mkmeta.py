#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "framework/core/"
EX = C + "src/concurrency/executor/"
RS = C + "include/plain/concurrency/result/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state, observe, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=x) for x in state],
                                observe_at=observe, hook_needed=None)), note))


ALLX = [EX + f for f in ("thread_pool.cc", "worker_thread.cc", "thread.cc", "manual.cc", "inline.cc")]
prop("E01", "Every accepted task runs exactly once and reports its own outcome",
     "While an executor is open, every task it accepts (single or bulk, with or without a result, from outside or from "
     "within another task) is eventually run exactly once, whatever other callers, idle time-outs and worker wake-ups "
     "do at the same time, also while other tasks keep enqueueing themselves again. A task's result delivers precisely the value that task returned or the exception it threw, "
     "and a bulk submission returns one result per task in order.",
     ["schedules", "programs", "configurations"],
     "every interleaving of producers, workers and idle time-outs; every executor kind, pool size and idle time; every "
     "mix of post, submit, bulk and nested submissions, including between several executors",
     "The tests post fixed batches on an idle machine; lost wake-ups, donations to a worker that is just going idle and "
     "double enqueues need a switch inside a few instructions.",
     ALLX + [C + "include/plain/concurrency/executor/basic.h"],
     [("post/submit/bulk_post/bulk_submit", C + "include/plain/concurrency/executor/basic.h"),
      ("pool worker queue, idle set and donation", EX + "thread_pool.cc"),
      ("worker thread queues and semaphore", EX + "worker_thread.cc")],
     ["public and private task queues of workers", "idle worker set", "manual executor queue"],
     ["entry and exit of each task body", "the result of each submit"],
     "random schedules of the real executors; per-task run counts and results checked against the issue log; progress "
     "within 120 simulated seconds after the last submission")
prop("E02", "Executor shutdown refuses new work, settles old work and leaves nothing behind",
     "Shutting an executor down at any instant completes: a submission that begins after it returned is refused and its task "
     "never runs, no pool, worker or thread executor runs a task after it returned, and no submission is refused and no task "
     "is interrupted unless shutdown was requested. Every accepted task has either run to completion or been dropped, in "
     "which case its result reports the interruption and its callable is destroyed; nothing hangs, is leaked or is destroyed twice.",
     ["schedules", "programs", "histories"],
     "every instant of shutdown relative to concurrent submissions, running tasks, idle workers and a second shutdown, on every executor kind",
     "Tests shut down once, from one thread, at a quiet moment; the property is about every point at which shutdown can overtake a submission.",
     ALLX,
     [("shutdown and abort flags", EX + "thread_pool.cc"), ("worker stop and join", EX + "worker_thread.cc"),
      ("retired threads", EX + "thread.cc"), ("loop interruption", EX + "manual.cc")],
     ["shutdown flags", "queued tasks at the time of shutdown"],
     ["return of shutdown()", "exception of post", "outcome of results", "live copies of the callable"],
     "shutdown injected at random points of the executor workload; refusal, settlement and callable destruction counted")
prop("E03", "Tasks run on their executor's threads, within its concurrency and in order",
     "A task runs only on a thread that belongs to the executor it was given to (the caller's own for the inline executor, a "
     "fresh one per task for the thread executor, the looping thread for the manual one), also when submitted from another "
     "executor's thread. At no time do more tasks run on an executor than its concurrency allows, while an idle pool of n threads "
     "runs n tasks at once. Single-threaded executors start the tasks they accept from other threads in that order, and likewise "
     "those that their own tasks enqueue. Each thread's start notification is paired with one termination notification.",
     ["schedules", "programs", "configurations"],
     "every interleaving and every nesting of submissions between several executors",
     "Tests use one executor at a time; thread identity mix-ups need two executors posting to each other.",
     ALLX + [C + "src/sys/thread.cc"],
     [("thread-local worker identity", EX + "thread_pool.cc"), ("single consumer queue", EX + "worker_thread.cc"),
      ("start/terminate callbacks", C + "include/plain/sys/thread.h")],
     ["thread local current worker", "public and private queues"],
     ["thread id, start sequence and number of running task bodies"],
     "per-task thread ids, global start sequence numbers and running counts compared with the acceptance order")
prop("R01", "A result delivers its producer's outcome once, never early, never late",
     "For one producer and one consumer on any two threads, whatever way the consumer waits (blocking, timed, polling, "
     "awaiting, resolving), it obtains exactly the value or exception the producer set, exactly once and never before it "
     "was set, and a producer that is destroyed without setting anything delivers an interruption. A consumer never hangs "
     "once the producer is through; a timed wait that reports \"not ready\" has waited at least the requested time of "
     "elapsed (not wall clock) time and reports \"not ready\" only if the outcome was not there when it began.",
     ["schedules", "programs", "fault_sequences"],
     "every interleaving of setting and waiting, spurious wake-ups, late wake-ups, and wall clock jumps",
     "Tests sleep between producing and consuming; the hand-off races are a handful of instructions wide.",
     [C + "src/concurrency/result/detail/state.cc", RS + "detail/state.h", RS + "basic.h", RS + "promise.h", C + "include/plain/sys/atomic_wait.h"],
     [("state hand-off", C + "src/concurrency/result/detail/state.cc"), ("futex waits", C + "src/sys/atomic_wait.cc")],
     ["process status word of the shared state"], ["get/wait/wait_for/status/co_await/resolve on the consumer side"],
     "producer and consumer threads with all styles under random schedules, compared with a one-slot reference channel")
prop("R02", "Every holder of a shared result sees the same settled outcome",
     "Any number of copies of a shared result, waited on from any number of threads and coroutines in any manner, all obtain the "
     "one outcome of the producer and the same stored object, never before it was produced and none of them hangs after it. "
     "Dropping any subset of the copies at any time neither loses the outcome for the others nor touches freed memory.",
     ["schedules", "programs", "fault_sequences"],
     "every interleaving of one producer and several consumers that copy, wait, await and drop",
     "Tests share a result between a few consumers at fixed points in time.",
     [RS + "shared.h", RS + "detail/shared_state.h", C + "src/concurrency/result/detail/shared_state.cc", C + "src/concurrency/result/detail/consumer_context.cc"],
     [("awaiter list", C + "src/concurrency/result/detail/shared_state.cc"), ("completion hand-off", RS + "detail/shared_state.h")],
     ["shared status word", "lock free list of awaiters"], ["get/wait/wait_for/status/co_await/resolve of each copy"],
     "several consumers against a set-once cell; heap checking for freed state; all consumers served")
prop("R03", "when_all waits for all, when_any for the first, and neither loses a result",
     "A combined result of \"all\" completes exactly when every input is settled and hands back every input, in order, settled. A "
     "combined result of \"any\" completes as soon as one input is settled, names an input that really is settled, and hands back "
     "all inputs still usable. Both resume on the executor they were given and never hang, however completions race with the combination.",
     ["schedules", "programs"],
     "every interleaving of input completion (before, during and after registration), every number and outcome of inputs, repeated combination",
     "Tests complete the inputs at fixed delays; completions that fall inside the registration loop are not reached.",
     [RS + "when.h", C + "src/concurrency/result/detail/consumer_context.cc", C + "src/concurrency/result/detail/state.cc"],
     [("registration loop and rewind", RS + "when.h"), ("first-completion election", C + "src/concurrency/result/detail/consumer_context.cc")],
     ["when-any context status word", "consumer context of each input"], ["value of the combined result", "thread it resumes on"],
     "random completions of 1-4 inputs during registration; index, order, readiness and later use of the inputs checked")
prop("R04", "Lazy chains run once, resume where told and settle even when executors stop",
     "A lazy result does nothing until it is awaited or started, then runs exactly once, and its awaiter gets its value or exception. "
     "After an explicit hop to an executor a coroutine continues on a thread of that executor. If that executor is shut down at any "
     "moment the chain still settles, with an interruption, and all coroutine frames are released exactly once.",
     ["schedules", "programs", "histories"],
     "every nesting of lazy results and hops, every interleaving with executor shutdown",
     "Tests hop between healthy executors only.",
     [RS + "lazy.h", RS + "resume_on.h", RS + "detail/lazy_state.h", C + "src/concurrency/result/detail/consumer_context.cc"],
     [("lazy continuation", RS + "detail/lazy_state.h"), ("hop functor interrupted on destruction", C + "src/concurrency/result/detail/consumer_context.cc")],
     ["continuation handle", "interrupted flag"], ["value of the chain", "thread after a hop", "live frames"],
     "random trees of lazy coroutines hopping between executors, shutdown injected mid-chain; frame and outcome accounting")
TQ = C + "src/engine/timer_queue.cc"
prop("T01", "Timers fire on time, once per period, in order, and never after cancel",
     "A timer's callable never starts before its due time of elapsed (not wall clock) time has passed, a repeating timer fires once per "
     "period, a one-shot timer exactly once, and timers of one executor fire in deadline order. On an otherwise idle system each "
     "firing happens promptly, also when timers are added, cancelled or re-timed meanwhile and however short the queue's idle time "
     "is. No firing begins after cancel() returned or the last handle was dropped, other timers are unaffected, and the callable is destroyed.",
     ["schedules", "programs", "fault_sequences"],
     "every set of timers with equal and different due times and periods; every interleaving with creation, cancel, re-timing, idle time-out and clock jumps",
     "Tests use a few timers with generous real-time margins and never move the wall clock.",
     [TQ, C + "src/engine/timer.cc", C + "include/plain/engine/timer_queue.h"],
     [("deadline ordered queue", TQ), ("request batching and idle thread", TQ), ("cancel flag", C + "src/engine/timer.cc")],
     ["timers ordered by deadline", "pending add/remove requests", "idle flag of the timer thread"],
     ["time each firing is handed to the executor", "start of each callable"],
     "random timer sets on a recording executor in simulated time: earliness, count, order, promptness and silence checked per firing")
prop("T02", "Timer queue shutdown and delay objects settle everything",
     "Shutting the timer queue down at any instant completes, after which no timer fires, no new timer or delay is accepted, and every "
     "pending callable is destroyed. A coroutine awaiting a delay resumes exactly once, not before the delay elapsed, on the executor "
     "it named, or is interrupted when the queue or that executor stops. Callables and executors may call back into the queue at any time, "
     "and an executor that refuses a firing stops neither the queue nor the process.",
     ["schedules", "programs", "histories"],
     "every instant of queue and executor shutdown relative to additions, firings, cancels and delays",
     "Tests shut an idle queue down.",
     [TQ, C + "src/engine/timer.cc", C + "include/plain/engine/timer_queue.h"],
     [("abort flag and thread join", TQ), ("delay object", TQ)],
     ["abort flag", "pending timers at shutdown"],
     ["return of shutdown()", "exceptions of make_timer and make_delay_object", "resumption of awaiting coroutines", "live callables and frames"],
     "queue and executor shutdown injected at random points; outcome, refusal, resumption and frame accounting")
MX = EX + "manual.cc"
prop("M01", "Manual executor loops run and wait exactly as asked",
     "A looping call runs as many queued tasks as it reports, at most the number asked for, in order, and each task goes to only one of several "
     "loopers. A waiting call returns as soon as its condition holds, reports truthfully whether it does, never waits longer than its "
     "time-out of elapsed (not wall clock) time nor gives up earlier, and is released by shutdown. clear() drops exactly the tasks it "
     "reports, and size()/empty() agree with what is queued.",
     ["schedules", "programs", "fault_sequences"],
     "every mix of loop, timed and waiting calls on several threads against concurrent posts, clear, shutdown, spurious wake-ups and clock jumps",
     "Tests drive the executor from one or two threads with real sleeps.",
     [MX, C + "include/plain/concurrency/executor/manual.h"],
     [("loop_impl/loop_until_impl", MX), ("wait_for_tasks_impl", MX), ("clear and shutdown", MX)],
     ["task queue", "abort flag"], ["return values of loop_*/wait_for_*/clear", "task bodies run"],
     "several loopers, waiters and posters in simulated time against a queue model")
LG = C + "src/basic/async_logger.cc"
prop("L01", "The asynchronous logger writes every accepted line once, whole and in order",
     "Each line appended from any thread before stop() or destruction began reaches the log files exactly once, unaltered, and after every line whose "
     "append returned before it began; only when the disk is too far behind may lines be dropped, and then the log says so. If the process "
     "dies, every line older than the flush interval is already in the file. A transient disk error costs no more than the lines of its "
     "time. A new file is begun only when the size limit is reached or the day changes.",
     ["schedules", "crash_points", "fault_sequences"],
     "every interleaving of appenders with the writer thread and stop; every crash instant; slow disks, partial writes and disk errors",
     "Tests log a few lines on a healthy disk and look at nothing afterwards.",
     [LG, C + "include/plain/basic/async_logger.h", C + "src/basic/logger.cc"],
     [("double buffer swap", LG), ("flush and roll", LG), ("formatting", C + "src/basic/logger.cc")],
     ["current, next and full buffers", "file and written size"], ["bytes in the simulated files"],
     "several appenders on a simulated disk with faults and crash points; the files' content is parsed and compared with the append log")
NC = C + "src/net/connection/"
prop("N01", "Packets arrive once, whole, in order, on their own connection",
     "Every packet that send() accepted on a connection that stays up is delivered to the peer's dispatcher exactly once, with "
     "its id and bytes unaltered, after all packets accepted before it on that connection and never on another one. This "
     "holds for any packet sizes, any number of sending threads and connections, any splitting, short writes, full or slow sockets and "
     "interrupted system calls, with the epoll and select managers and both shipped codecs. One connection's packets are dispatched one at a time, "
     "a busy connection does not starve others, and the byte counters of both sides agree in the end. A broadcast reaches each connection that was up "
     "before it exactly once, and broadcasts of one thread arrive in order.",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     "every interleaving of senders, the polling thread and executor threads; every segmentation and back-pressure of the stream",
     "Tests send a few small packets over a fast loopback, where segments arrive whole and buffers never fill or wrap.",
     [NC + "basic.cc", NC + "manager.cc", NC + "epoll.cc", NC + "select.cc", C + "src/net/stream/basic.cc", C + "src/net/stream/codec.cc", C + "include/plain/basic/ring.h"],
     [("work flags and their clearing", NC + "basic.cc"), ("work queue of connections", NC + "manager.cc"), ("ring buffers", C + "include/plain/basic/ring.h"),
      ("framing", C + "src/net/stream/codec.cc")],
     ["input and output ring buffers", "work flags", "waiting and working connection ids"], ["each call of the dispatcher", "send_size/recv_size"],
     "several clients and senders over a simulated TCP network; each self-describing packet is compared with the sender's log")
prop("N02", "Each connection is announced once, ended once, and its place reused",
     "Every accepted or made connection is announced by one connect callback before its first packet, and when either peer closes or shuts it "
     "down, its dispatcher refuses a packet, or the network resets it, one disconnect callback follows its last packet, promptly and "
     "on both sides. A listener never has more live connections than its limit and refuses the others. The slot, id and descriptor of "
     "an ended connection are released and usable again, live connections never share an id, and none of this disturbs the other connections. Callbacks may take locks "
     "that the application holds while it calls the library.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of connecting, accepting, sending, ending and resetting on several connections that reuse slots and descriptors",
     "Tests connect and close one connection at a time and check no callback.",
     [NC + "manager.cc", NC + "basic.cc", C + "src/net/connector.cc", NC + "epoll.cc", NC + "select.cc", C + "src/net/socket/basic.cc"],
     [("slots and ids", NC + "manager.cc"), ("connect and callbacks", C + "src/net/connector.cc"), ("end of work", NC + "basic.cc")],
     ["free, used and announced ids", "connection objects reused per slot"], ["connect and disconnect callbacks", "dispatcher calls", "open descriptors"],
     "connections that come, talk and end in every way around a bystander; callback pairing, capacity, reuse and descriptors counted")
prop("N04", "A listener or connector can be stopped at any instant, completely",
     "stop(), or destruction, of a listener or connector (from outside its own callbacks) completes at whatever instant it is called: before start, while connections are being made, "
     "accepted, served or ended, again, or at the same time as the other side. No callback or dispatcher call is running when it has returned and none begins later; "
     "running() is false; every connection is ended, so that the peers are told by their own disconnect callbacks; all descriptors are "
     "released, nothing listens on the address any more, and a new listener can be started on it.",
     ["schedules", "crash_points", "fault_sequences"],
     "every instant of stop relative to connecting, accepting, sending, dispatching and ending connections on both sides",
     "Tests stop an idle listener after fixed sleeps.",
     [C + "src/net/listener.cc", C + "src/net/connector.cc", NC + "manager.cc", NC + "epoll.cc", NC + "select.cc"],
     [("stop", NC + "manager.cc"), ("loop end", NC + "epoll.cc"), ("loop end", NC + "select.cc")],
     ["running flag", "control socket pair", "connection table"], ["return of stop()", "callbacks", "open descriptors"],
     "clients in full activity while one or both sides stop or are destroyed; callbacks after stop, untold peers and open descriptors are violations")
prop("N05", "A remote call settles exactly once with its own outcome",
     "Every remote call on a connection settles exactly once: with the value its own invocation of the named function returned on the peer, or with an error when "
     "the function does not exist, the call's time-out has passed (never earlier), or the connection ended or was stopped before the "
     "answer came. The peer runs a call at most once with the arguments given, exactly once when it is answered; calls of functions with and without arguments and results, of any packable types and values, "
     "work, notifications run once, and any number of threads may call on one connection while answers arrive.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of callers, answers, time-outs and connection ends on several connections",
     "Tests make a few calls one after another on a fast loopback that never breaks.",
     [NC + "basic.cc", C + "src/net/rpc/dispatcher.cc", C + "include/plain/net/rpc/dispatcher.h", C + "include/plain/net/connection/basic.h"],
     [("pending calls and their indexes", NC + "basic.cc"), ("invocation and answer", C + "src/net/rpc/dispatcher.cc")],
     ["pending calls", "call indexes", "bound functions"], ["futures of async_call", "call()", "bound functions' invocations"],
     "several callers on connections that may break; each answer, error and server-side run is checked against the call log")
prop("N03", "Whatever bytes a peer sends, only that peer's connection can suffer",
     "A connection treats any bytes its peer sends, in any pieces and at any moment, the same way: the packets dispatched are exactly the frames those bytes "
     "define up to the first invalid one, at which this connection, and no other, is ended. Remote call requests and answers with wrong types, counts, sizes, names or "
     "indexes neither crash, hang nor write outside of their data and never settle another call. "
     "A connection that reuses the slot of an ended one starts clean, and other connections of the same listener or connector go on undisturbed.",
     ["inputs", "schedules", "fault_sequences"],
     "every byte stream and its every segmentation, against every state of the connections beside it and of the slot before it",
     "Tests only ever talk to a well-behaved peer of the same version.",
     [NC + "basic.cc", C + "src/net/stream/codec.cc", C + "src/net/rpc/dispatcher.cc", C + "include/plain/net/rpc/dispatcher.h", C + "src/net/packet/basic.cc"],
     [("framing and its limits", C + "src/net/stream/codec.cc"), ("unpacking of calls and answers", C + "include/plain/net/rpc/dispatcher.h"), ("end of a bad connection", NC + "basic.cc")],
     ["input buffers", "unfinished headers", "pending calls"], ["dispatcher calls", "disconnect callbacks", "results of calls"],
     "raw hostile peers on both sides of the simulated network beside well-behaved ones; a reference decoder says what must be dispatched")
prop("N06", "connect() tells the truth and each connection keeps to itself",
     "connect() returns a connection only when it is established, and nothing only when the server refused, the time-out passed (not before it, and not long after), the init "
     "function refused, or the connector is full; a failed attempt runs no callback and gives back its slot and descriptor, so that attempts may go on forever and "
     "the connector's full capacity remains. The dispatcher, callbacks, name and time-outs given to one connection serve that connection only and end with it. "
     "A kept connection keeps its slot and can be connected again after any number of failed attempts, each time as a fresh session; its slot returns when it is kept no longer.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of attempts from several threads with a server that comes and goes and a network that delays or loses attempts",
     "Tests connect once to a server that is up.",
     [C + "src/net/connector.cc", NC + "manager.cc", NC + "basic.cc", C + "src/net/socket/basic.cc", C + "src/net/socket/api.cc"],
     [("connect with time-out", C + "src/net/socket/api.cc"), ("release of a failed attempt", C + "src/net/connector.cc"), ("per-connection callbacks", NC + "basic.cc")],
     ["free, used and kept slots", "per-connection dispatcher and callbacks"], ["return of connect()", "callbacks and dispatchers", "open descriptors"],
     "attempts against a server that is stopped and restarted while connection requests are lost; truthfulness, timing, ownership and capacity checked")
prop("K01", "The kernel's executors and timers work as configured and end with it",
     "The executors and timer queue of a kernel obey its options: the thread pool and the background executor each run up to their own configured number of tasks at once and never more, "
     "tasks given to any of them run exactly once and timers fire. Destroying the kernel at any instant, also while tasks still give each other work, make executors or start timers, "
     "completes: every executor it ever handed out is shut down and refuses work, nothing runs afterwards, every task has run or been dropped, every thread start "
     "notification has its termination.",
     ["schedules", "programs", "configurations", "crash_points"],
     "every option set, every mix of executors and timers used from threads and tasks, and every instant of destruction",
     "Tests construct one kernel and shut it down when idle.",
     [C + "src/engine/kernel.cc", C + "include/plain/engine/kernel.h", C + "src/engine/timer_queue.cc", EX + "thread_pool.cc"],
     [("construction from options", C + "src/engine/kernel.cc"), ("shutdown of registered executors", C + "src/engine/kernel.cc")],
     ["registered executors", "engine options"], ["task bodies", "shutdown_requested() and refused posts", "thread callbacks"],
     "threads and nested tasks use a kernel that is destroyed at a random point; concurrency, run counts, refusal and pairing checked")
prop("K02", "The console answers each command line once, in order, and survives its use",
     "Every line a console client sends, in whatever pieces, is one command: its handler runs with the words of the line and its answer is sent back once, in order, to that client; "
     "empty lines are ignored and an unknown command ends only that connection. A command registered, or registered again, is in effect for every line sent after that. Commands that list or kill "
     "nets tell the truth and never take the console down. All this holds from the console's first client on, while handlers are registered and listeners come and go, and the process can exit "
     "cleanly at any instant.",
     ["schedules", "fault_sequences", "inputs"],
     "every segmentation of the lines and every interleaving of clients, registrations, nets that start and stop, and process exit",
     "No test uses the console.",
     [C + "src/engine/kernel.cc", C + "src/net/stream/codec.cc", NC + "manager.cc", C + "src/basic/utility.cc"],
     [("console dispatcher", C + "src/engine/kernel.cc"), ("console commands", C + "src/engine/kernel.cc"), ("leaving the engine", NC + "manager.cc")],
     ["console handlers", "list of nets"], ["bytes a console client reads", "state of killed listeners", "destruction of the engine instance"],
     "raw clients talk to the real console over the simulated network while handlers and nets change and the engine is destroyed; answers compared with a reference")
prop("B01", "A ring hands each element over once, in order, without a lock",
     "A fixed ring used by one producing and one consuming thread without any lock delivers every element that was accepted exactly once, unchanged and in order, "
     "whichever mix of single and block operations, peeking and skipping the two use; it refuses an element only when it is full and claims to be empty only when "
     "it may be, and its counts never exceed its size. A growing ring does the same as long as it need not grow. Used by one thread, every ring, also one that grows, behaves as a queue.",
     ["schedules", "programs", "configurations"],
     "every interleaving of a producer and a consumer, every ring size and mix of operations including wrap-around and growth",
     "No test uses a ring from two threads; a lost element needs a switch between two particular loads or stores.",
     [C + "include/plain/basic/ring.h"],
     [("producer and consumer positions", C + "include/plain/basic/ring.h"), ("block copies around the end", C + "include/plain/basic/ring.h")],
     ["head and tail positions", "stored elements"], ["elements the consumer reads", "return values and counts"],
     "producer and consumer threads under seeded schedules; sequence numbers checked on the consumer's side, a reference queue for sequential use")
prop("A01", "The memory pool never hands out memory that is in use",
     "Blocks that threads have from the memory pool at the same time never overlap and lie inside it, each is at least as large as asked for and keeps its contents until it is freed. "
     "Freeing gives the memory back: the pool can be used without end, and a pool whose blocks have all been freed can again serve what it could serve when new. Memory that does not come from the pool is "
     "refused by it and goes back to where it came from, and the pool works with what memory the system has for it.",
     ["schedules", "programs", "histories"],
     "every interleaving of allocating and freeing threads, including frees by other threads than the allocating one, and every sequence of sizes",
     "The test allocates and frees from one thread; an overlap needs two threads inside the allocation at once.",
     [C + "include/plain/sys/memory/pool.h", C + "include/plain/sys/memory/config.h"],
     [("lock-free allocation in leaves", C + "include/plain/sys/memory/pool.h"), ("release of a block", C + "include/plain/sys/memory/pool.h")],
     ["free and used space of each leaf", "headers of blocks"], ["addresses and contents of blocks", "return values"],
     "threads allocate, fill, verify, hand over and free blocks; overlap, contents and reusability checked against the set of live blocks")
prop("S01", "The thread pool and the task queue run each task once and lose none",
     "Every task given to a plain thread pool or task queue runs exactly once, and its future delivers its value or exception. The pool runs as many tasks at once as it has threads, never more, and one thread runs them in the order they came; a queue "
     "worked by one thread runs a producer's tasks in order, and working all of it runs everything that was there. Destroying either, also while tasks add tasks, first runs everything that was accepted and then "
     "runs nothing any more; adding to a pool that is being destroyed is refused with an exception.",
     ["schedules", "programs"],
     "every interleaving of producers, workers and destruction, with tasks that throw and tasks that add tasks",
     "No test uses either.",
     [C + "include/plain/sys/thread.h", C + "src/sys/thread.cc", C + "include/plain/basic/task_queue.h"],
     [("pool workers", C + "src/sys/thread.cc"), ("enqueue", C + "include/plain/sys/thread.h"), ("work_one and work_all", C + "include/plain/basic/task_queue.h")],
     ["queued tasks", "stop flag"], ["task bodies", "futures"],
     "producers, nested producers and destruction under seeded schedules; run counts, order, concurrency and futures checked")
prop("S02", "Looping threads obey stop, and variables and globals are safe to share",
     "A thread made by thread::create calls its function again and again until the function says no (once, if it returns nothing), and not once more; told to stop at any time after its creation it ends "
     "after the call it is in or about to make. Variables behave, whichever threads use them at once, as if their operations happened one after another: no update is lost, no value is seen that nobody stored, and comparisons "
     "order values. The globals, which every log line reads, may be read, set and added by all threads at any time and each keeps the value it was given.",
     ["schedules", "programs"],
     "every interleaving of creating, stopping and ending threads and of operations on shared variables and globals",
     "No test uses looping threads, or variables from two threads.",
     [C + "include/plain/sys/thread.h", C + "include/plain/basic/type/variable.h", C + "include/plain/basic/global.h", C + "src/basic/global.cc"],
     [("loop and status of threads", C + "include/plain/sys/thread.h"), ("locked operators", C + "include/plain/basic/type/variable.h"), ("table of globals", C + "include/plain/basic/global.h")],
     ["thread status globals", "values of variables"], ["calls of the function", "end of the thread", "values read"],
     "threads created, stopped and ended while others log and use globals; counters, sums, texts and cross assignments of shared variables checked")
prop("R05", "A generator gives its values one at a time, on demand, and can be given up",
     "A generator runs only as far as it is asked: each step gives the next value of its body, unchanged until the next step, whichever thread takes the step, then the end, or the exception its body threw "
     "at that step. It may be abandoned, moved before its use or destroyed at any point, and everything its body still owns is then destroyed exactly once; an empty generator refuses to start.",
     ["histories", "programs", "schedules"],
     "every number of values, every step at which the body throws or the generator is given up, nested generators, and turns taken by different threads",
     "Tests run a few fixed generators to their end on one thread.",
     [RS + "generator.h", RS + "detail/generator_state.h"],
     [("resumption and end of the coroutine", RS + "detail/generator_state.h"), ("ownership of the coroutine", RS + "generator.h")],
     ["coroutine frame", "current value", "stored exception"], ["values, end and exceptions seen by the iterating code", "objects alive in the coroutine frame"],
     "bodies with a seeded number of values, throw point and abandonment point, stepped by several threads in turn; a frame-object census and value reference decide")
prop("F01", "Settings and tables are read and saved completely or the failure is reported",
     "Opening a settings file (Ini) or a table (Tab, as text or in its binary form) either fails and says so, or gives exactly what the file contains: every section, key and value, every row, column name "
     "and cell, found by position, by name and by value, and nothing that is not there; also when reads come short, are interrupted or fail and descriptors run out, when a setting or a row is long, and when the object was "
     "opened before. Saving a table returns true only when all of it is in the file: a table that was saved, as text or binary, opens again with equal cells.",
     ["inputs", "faults", "histories"],
     "every settings file and table, every place where a read, write or open fails or comes short, and every sequence of opening and saving with the same object",
     "Tests open one settings file and no table; no read or write of theirs fails.",
     [C + "src/file/ini.cc", C + "src/file/tab.cc", C + "include/plain/file/ini.h", C + "include/plain/file/tab.h"],
     [("reading of sections and keys", C + "src/file/ini.cc"), ("reading, indexing and saving of tables", C + "src/file/tab.cc")],
     ["sections and keys", "rows, string pool and index of a table", "the file on disk"], ["values, cells and search results", "return values of open and save", "the file opened again"],
     "random settings and tables on a simulated disk with short, interrupted and failing reads, failing opens, short and failing writes; every value compared with a reference")
prop("F02", "A process id file names the process that wrote it or none",
     "Writing a process id file returns true only when the whole number is in the file, and a crash or a full disk at any moment leaves the old number or the new one, never a part of it. A file that is missing, empty or "
     "no number names no process. Waiting for a process to exit asks the process the file names to end, and no other, and returns true only once it has gone; when the file names nobody it signals nobody and returns false.",
     ["crashes", "faults", "histories"],
     "every moment at which the writing process dies or the disk fails, every content of the file, and every moment at which the other process ends",
     "Tests write and read one id on a disk that works.",
     [C + "src/sys/process.cc", C + "include/plain/sys/process.h"],
     [("writing and reading the id", C + "src/sys/process.cc"), ("waiting for the exit", C + "src/sys/process.cc")],
     ["the id file", "the running process"], ["id read back", "signals sent", "return values"],
     "ids written on a simulated disk that fails, with crashes between any two operations on it, read back, and waited for with recorded signals")
#EXTRA
NA = [
    ("X01", "Pure functions give their specified value for every input",
     "Digest, text encoding, address classification and typed value conversion return for every input the value their format defines.",
     ["inputs"], "every input value",
     "The tests sample a few inputs.",
     [C + "src/basic/md5.cc", C + "src/basic/base64.cc", C + "src/net/address.cc"],
     "pure functions of their input: no schedule, clock, I/O fault or second party for a simulation to control"),
]


def git(*a):
    return subprocess.run(["git", "-C", "/repo"] + list(a), stdout=subprocess.PIPE, text=True).stdout


def main():
    sys.path.insert(0, V)
    from props import PROPS
    na = []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
        for id, title, st, over, text, why, files, reason in NA:
            f.write(json.dumps(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[], state=[], observe_at=["return values"], hook_needed=None))) + "\n")
            na.append(dict(property=id, reason=reason))
    checks = []
    for p, note in P:
        id = p["id"]
        if id not in PROPS:
            na.append(dict(property=id, reason="simulation of this part is not built yet"))
            continue
        assert len(p["title"]) <= 80, p["title"]
        checks.append(dict(property=id, quick_cmd="python3 run.py %s quick" % id, thorough_cmd="python3 run.py %s thorough" % id,
                           technique="deterministic simulation with fault injection: seeded search over schedules and faults",
                           level="exploration", level_note=note))
    m = dict(version=1, setup_cmd="python3 build.py",
             checks=checks, not_applicable=na,
             notes="No hooks in /repo are needed: the simulator takes the place of libpthread, futex, the clocks, the heap, sockets "
                   "and files at link time, and compiler instrumentation of the unmodified sources provides the scheduling points. "
                   "Replay: python3 run.py --replay FILE.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
