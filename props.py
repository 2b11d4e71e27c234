"""Which scenarios decide which property, and the per-check budgets."""
COMMON_ASSUMPTIONS = [
    "sequentially consistent interleavings of instrumented accesses; weaker hardware memory orders are not simulated",
    "code inside libstdc++/libc that is not inlined runs atomically between scheduling points",
    "runs are sampled: a clean batch is evidence, not proof",
]
STUBS = [
    "OS scheduler, mutexes, condition variables, rwlocks, futexes, thread creation/join (simulated at the pthread/syscall boundary)",
    "monotonic and wall clocks, sleeping (simulated time)",
    "heap (deterministic bump allocator that never reuses freed memory and checks every instrumented access)",
]
CORE = "framework/core compiled unmodified from /repo's working tree with compiler instrumentation: "

# Violation classes that speak about one property only.  A check that shares a
# scenario with other properties does not report their classes; memory errors,
# failed assertions, hangs and crashes belong to every property.
_E01 = ["task-ran-twice", "value-without-run", "exception-lost", "wrong-value", "wrong-exception", "broken-after-run",
        "bulk-result-count", "empty-result", "half-run"]
_E02 = ["accepted-after-shutdown", "task-ran-after-shutdown", "callable-leaked", "shutdown-flag", "broken-while-open",
        "refused-while-open", "loop-threw", "shutdown-late"]
_E03 = ["order-inverted", "affinity", "inline-affinity", "too-much-concurrency", "callback-pairing", "no-parallelism"]

_EXEC = [("exec_pool", 4), ("exec_worker", 2), ("exec_manual", 2), ("exec_thread", 1), ("exec_inline", 1), ("exec_cross", 3)]
_EXEC_REAL = [CORE + "all five executors, Task, results, sys::thread"]
_RES_REAL = [CORE + "Result/ResultPromise/SharedResult/LazyResult, when_all/when_any, resume_on, coroutine promises, executors"]

_NET_REAL = CORE + "Listener, Connector, connection managers (epoll and select), connections, streams, codecs, packets, sockets, executors"
_NET_STUB = "TCP sockets, epoll, select, socketpair (simulated in-process network with delay, splitting, back-pressure, resets and errors)"

PROPS = {
    "E01": dict(scenarios=_EXEC + [("exec_fair", 1)], quick_runs=390000, quick_s=50, ignore=_E02 + _E03, real=_EXEC_REAL),
    "E02": dict(scenarios=_EXEC, quick_runs=390000, quick_s=50, ignore=_E01 + _E03, real=_EXEC_REAL),
    "E03": dict(scenarios=_EXEC + [("exec_par", 2)], quick_runs=390000, quick_s=50, ignore=_E01 + _E02, real=_EXEC_REAL),
    "R01": dict(scenarios=[("res_single", 6), ("res_hands", 1)], quick_runs=480000, quick_s=50, real=_RES_REAL),
    "R02": dict(scenarios=[("res_shared", 6), ("shared_hands", 1)], quick_runs=600000, quick_s=50, real=_RES_REAL),
    "R03": dict(scenarios=[("res_when", 1)], quick_runs=480000, quick_s=50, real=_RES_REAL),
    "R04": dict(scenarios=[("res_lazy", 3), ("lazy_hands", 1)], quick_runs=480000, quick_s=50, real=_RES_REAL),
    "R05": dict(scenarios=[("res_gen", 1)], quick_runs=450000, quick_s=40, real=_RES_REAL),
    "T01": dict(scenarios=[("timer_fire", 1)], quick_runs=360000, quick_s=50, real=[CORE + "TimerQueue, Timer, executors, sys::thread"]),
    "T02": dict(scenarios=[("timer_shutdown", 1)], quick_runs=360000, quick_s=50, real=[CORE + "TimerQueue, Timer, delay objects, executors, lazy results"]),
    "M01": dict(scenarios=[("manual_loop", 2), ("manual_wait", 1)], quick_runs=480000, quick_s=50, real=[CORE + "executor::Manual, Task"]),
    "L01": dict(scenarios=[("log_async", 6), ("log_crash", 3), ("log_roll", 1)], quick_runs=180000, quick_s=50,
                real=[CORE + "AsyncLogger, Logger, log buffers and file layer (kLargeBufferSize reduced to 16 KiB)"]),
    "N01": dict(scenarios=[("net_stream", 1)], quick_runs=72000, quick_s=60, real=[_NET_REAL], stubs=[_NET_STUB]),
    "N02": dict(scenarios=[("net_life", 1)], quick_runs=120000, quick_s=60, real=[_NET_REAL], stubs=[_NET_STUB]),
    "N04": dict(scenarios=[("net_stop", 1)], quick_runs=210000, quick_s=55, real=[_NET_REAL], stubs=[_NET_STUB]),
    "N05": dict(scenarios=[("net_rpc", 1)], quick_runs=180000, quick_s=55, real=[_NET_REAL + ", rpc dispatcher and packing"], stubs=[_NET_STUB]),
    "N03": dict(scenarios=[("net_garbage", 2), ("net_badsrv", 1)], quick_runs=150000, quick_s=55,
                real=[_NET_REAL + ", rpc dispatcher and packing"], stubs=[_NET_STUB]),
    "N06": dict(scenarios=[("net_conn", 1), ("net_alive", 1)], quick_runs=150000, quick_s=55, real=[_NET_REAL], stubs=[_NET_STUB]),
    "K01": dict(scenarios=[("kernel_life", 1)], quick_runs=300000, quick_s=50, real=[CORE + "Kernel, all executors, TimerQueue, Timer, Task, results"]),
    "K02": dict(scenarios=[("console", 1)], quick_runs=240000, quick_s=50, real=[_NET_REAL + ", Kernel with its console"], stubs=[_NET_STUB]),
    "B01": dict(scenarios=[("ring_spsc", 1)], quick_runs=750000, quick_s=40, real=[CORE + "FixedRing, DynamicRing"]),
    "A01": dict(scenarios=[("mem_pool", 1)], quick_runs=600000, quick_s=40, real=[CORE + "memory::Pool"]),
    "S01": dict(scenarios=[("sys_pool", 1), ("sys_queue", 1)], quick_runs=600000, quick_s=40, real=[CORE + "sys::ThreadPool, TaskQueue"]),
    "S02": dict(scenarios=[("sys_thread", 2), ("sys_var", 1)], quick_runs=450000, quick_s=40,
                real=[CORE + "thread::create/start/stop, variable_t, globals, Logger"]),
    "F01": dict(scenarios=[("file_ini", 1), ("file_tab", 1)], quick_runs=150000, quick_s=40, real=[CORE + "Ini, Tab"],
                stubs=["files: a simulated disk with short, interrupted and failing reads, writes and opens"]),
    "F02": dict(scenarios=[("file_pid", 1)], quick_runs=200000, quick_s=30, real=[CORE + "process id files, waiting for exit"],
                stubs=["files: a simulated disk that fails, is full or loses the process", "kill(): recorded only"]),
}
