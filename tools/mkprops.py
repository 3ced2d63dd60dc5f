#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run from anywhere; rewrites both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = {}
NA = {}


def prop(id, title, st, over, qt, why, files, mech, note, tech="path-sensitive interprocedural typestate analysis over LLVM IR"):
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})
    TECH[id] = (tech, note)


H, S, C, I, G, F = "histories", "schedules", "configurations", "inputs", "programs", "fault_sequences"

prop("C01", "Start-up runs the callbacks once and in order, then the real main",
     "In preloaded and statically wrapped programs, the library, start-main, process and at-main callbacks are each delivered exactly "
     "once and in that order before the application's main function starts, whatever ran first (thread creation, fork or an explicit "
     "initialisation before main). The real main runs exactly once with the program's own argc, argv and environment, its return value "
     "is the process status, and the reported address of main is the application's own.",
     [G, H, C], "every start-up history (plain, thread or fork before main, explicit or repeated initialisation), both link modes",
     "The tests start a handful of programs in one order; they never fork or initialise before main in both link modes.",
     ["src/main.c"], [("run-once guards and process begin", "monitor_begin_process_fcn, monitor_begin_library_fcn"),
                      ("main wrapper", "monitor_main, __libc_start_main, __wrap_main")],
     "All paths through start-up for the analysed entry histories.")
prop("C02", "Every way to end the process delivers the exit callbacks exactly once",
     "Whenever the main thread or a monitored thread ends the process (return from main, exit, _exit, _Exit, pthread_exit in the main "
     "thread, or a fatal signal), the begin-exit callback and then the fini-process callback are each delivered exactly once, with the "
     "correct reason code and the process data that init-process returned, before control passes to the real terminating operation. "
     "The exit status, thread value or killing signal the outside world sees is the one the application asked for. "
     "A callback that itself calls exit or _exit or dies from a signal still ends the process without repeating a callback or deadlocking.",
     [H, S, G], "every exit route x thread situation x re-entrant exit from a callback",
     "Tests end the process through a few routes and never re-enter exit from inside callbacks.",
     ["src/main.c", "src/signal.c", "src/pthread.c"],
     [("exit race cookie and repeat winner", "monitor_end_process_fcn"), ("exit overrides", "exit, _exit, _Exit, pthread_exit, monitor_signal_handler")],
     "All paths of each exit route, one side thread at most.")
prop("C03", "Concurrent exits: one winner, everyone else waits for fini-process",
     "When two threads end the process at the same time, by any combination of exit, _exit, a fatal signal or exec, the exit callbacks "
     "are still delivered exactly once. No thread reaches the real exit, signal death or successful exec, and fini-library is not "
     "delivered, before fini-process has returned. A thread that comes late is released afterwards and is not blocked for ever.",
     [S, H], "every interleaving point of two exiting threads",
     "A test samples one timing; the race window is a few instructions.",
     ["src/main.c"], [("compare-and-swap winner election, done flag", "monitor_end_process_fcn")],
     "Interference of the second thread at every shared access of the first (two threads, sequential consistency).",
     "interference analysis (second thread inserted at every shared point) with a typestate automaton")
prop("C04", "init-library and fini-library bracket the process image",
     "init-library is delivered exactly once per process image and before every other callback except start-main-init and the fork callbacks. "
     "In preloaded programs fini-library is delivered exactly once at the end of every process, parent or forked child, after "
     "fini-process and before the real terminating operation, whether the end is return from main, exit, _exit, _Exit, a fatal signal or "
     "a successful exec. In statically linked programs it is never delivered.",
     [H, G, C], "all life histories of an image (fork, threads, failed exec) and all exits, both link modes",
     "Tests never count fini-library on every route nor re-enter it.",
     ["src/main.c", "src/fork.c", "src/signal.c"], [("library begin/end guards", "monitor_begin_library_fcn, monitor_end_library_fcn")],
     "All paths of the analysed life histories.")
prop("C05", "fork brackets the real fork and the child starts as a clean process",
     "fork and vfork deliver pre-fork before and, in the parent only, post-fork after exactly one real fork, with the true result and "
     "the pre-fork data, also on failure. The child gets init-process with the pre-fork data exactly once, is single-threaded with "
     "thread number 0 and its own process data, never signals or finalises threads of its parent, and can create threads, fork again "
     "and end with its own complete exit callbacks, no matter what other parent threads were doing at the time of the fork. "
     "The client's unmonitored fork delivers no fork or init-process callback.",
     [H, S, G, F], "fork from main/side thread, during exit, with another thread stopped at any point of its library calls; success and failure",
     "Forking while another thread holds internal state needs a precise interleaving no test produces.",
     ["src/fork.c", "src/main.c", "src/pthread.c"], [("fork override", "monitor_fork"), ("child reset", "monitor_begin_process_fcn, monitor_reset_thread_list")],
     "All fork points of the analysed histories, with interference.",
     "typestate analysis with interference at every shared point")
prop("C06", "exec ends the process view exactly when it will succeed, and is transparent",
     "Every exec-family call passes the caller's path, argument list (of any length) and environment unchanged to the real exec, tries it "
     "exactly once and returns its result. If the named file is executable (found directly, or in a PATH directory for the p-variants when the name has no slash) "
     "begin-exit and fini-process are delivered once with the exec reason before the real exec; if it is not, no exit callback "
     "is delivered and the process stays fully monitored.",
     [I, H], "all argument counts, path kinds, PATH shapes and accessibility results",
     "Tests use short argument lists and one PATH.",
     ["src/fork.c"], [("executable prediction", "monitor_is_executable"), ("varargs copy", "monitor_copy_va_args"), ("exec overrides", "monitor_execv, monitor_execvp, monitor_execve")],
     "Argument counts 0..200 with tokens, representative PATH strings, all access() outcomes.")
prop("C07", "system() keeps POSIX semantics and brackets its child with the fork callbacks",
     "An application's system call delivers pre-fork before and post-fork after running the command through the shell, ignores SIGINT and SIGQUIT "
     "and blocks SIGCHLD only meanwhile and restores all three in parent and child on every path including failures, waits for exactly its "
     "own child across interruptions and returns its status (or -1, or 127 from the child if the shell cannot run), and passes the "
     "environment unchanged. A null command only reports whether a shell exists, and setting the no-override variable makes it a plain call of the real system.",
     [F, H, I], "every outcome of fork, exec and wait, both values of the override switch",
     "Tests run one successful command.", ["src/fork.c"], [("system reimplementation", "monitor_system")], "All paths of all outcomes.")
prop("C08", "The client's real-function services bypass monitoring",
     "The client services for the real exit, abort, fork, execve, system, dlopen, dlclose, sigprocmask and pthread_sigmask deliver no "
     "callbacks, pass their arguments through to the real function exactly once and return its result, even if used as the very first "
     "call into the library. The client's execve and system hand over the environment with only the LD_PRELOAD variable removed, in the "
     "original order, for environments of any size.",
     [I, H, C], "all services x argument values x environment sizes and contents",
     "Tests call few of the services with ordinary environments.", ["src/main.c", "src/fork.c", "src/dlopen.c", "src/pthread.c", "src/signal.c"],
     [("client services", "monitor_real_*"), ("environment copy", "monitor_copy_environ")], "All paths; environments across the internal buffer boundary.")
prop("C09", "dlopen and dlclose are bracketed by their callbacks and nothing else is",
     "Each application dlopen or dlclose delivers its pre and post callbacks exactly once around exactly one real call with the same "
     "arguments and passes on the real result, failures included. Work the library does for itself (symbol lookup, start-up, fallbacks) "
     "never delivers these callbacks.",
     [I, F, C], "all arguments and results, including symbol-lookup fallback", "Tests open one library successfully.",
     ["src/dlopen.c", "src/common.c"], [("dlopen/dlclose overrides", "src/dlopen.c"), ("symbol lookup fallback", "monitor_dlsym")],
     "All paths with symbolic arguments; lookup failure at each symbol.")
prop("C10", "pthread_create: callback protocol and transparency",
     "Every monitored pthread_create delivers thread-pre-create before and thread-post-create after exactly one real thread creation, both "
     "in the creating thread, post-create with the value pre-create returned, on success and on failure; thread-support is delivered "
     "once per process image before the first pre-create. The caller sees the real result and thread handle and its attributes object is used.",
     [H, F, S], "success/failure, first/later creation, any creator thread, any progress of the new thread before the creator resumes",
     "The order between a fast new thread and its creator is timing-dependent.", ["src/pthread.c"], [("pthread_create override", "pthread_create")],
     "All paths; new thread runs to any of: not started, finished and recycled, before the creator resumes.")
prop("C11", "A new thread gets init-thread first, then its routine, argument and result",
     "A monitored thread runs the init-thread callback exactly once, in itself and before any application code, with its thread number "
     "and the pre-create data. Then the application's start routine runs exactly once with the original argument; its return value, "
     "pthread_exit value or cancellation is what joiners see, and the thread-start address reported inside the thread is the application's routine.",
     [H, G], "return, pthread_exit, cancellation; any argument", "Tests check one ending each.", ["src/pthread.c"], [("thread trampoline", "monitor_begin_thread")],
     "All paths of the trampoline for each ending.")
prop("C12", "fini-thread exactly once per started thread, however it ends",
     "Every monitored thread whose application code started gets fini-thread exactly once, in that thread, with the data init-thread "
     "returned: when it returns, calls pthread_exit or is cancelled, or when the process ends. This holds even if the shutdown signal "
     "arrives at any moment of its own ending; a thread that never started application code gets none.",
     [S, H], "every instant at which the shutdown signal can arrive relative to the thread's own end",
     "The window between check and set of the per-thread state cannot be sampled.", ["src/pthread.c"],
     [("cleanup routine, shutdown handler", "monitor_pthread_cleanup_routine, monitor_shootdown_handler, monitor_sigwait_helper, monitor_thread_shootdown")],
     "Signal inserted before every memory access/call of the ending thread.", "interference analysis (signal at every point) with a typestate automaton")
prop("C13", "Ignored threads are invisible",
     "A thread created while the creating thread has disabled new threads, or for which pre-create returned the ignore value, or created by an unmonitored "
     "thread, is created by one real call with the caller's own routine, argument and attributes. It causes no init-, fini- or post-create callback, "
     "is never signalled, and reports no user data, number -1 and no stack bottom. Re-enabling restores monitoring of later threads, and the setting is per thread.",
     [H, G], "all ways to ignore x nested creation x process end", "Tests ignore one thread.", ["src/pthread.c"], [("ignore paths", "pthread_create, monitor_disable_new_threads")],
     "All paths.")
prop("C14", "Stack-size adjustment never leaks or changes the application's attributes",
     "If the client changes the stack size, the real creation uses the new size; after pthread_create returns, on every path including failures of any attribute "
     "operation or of the creation, the application's attributes object again has its original size and any internal attributes object "
     "was destroyed exactly once. If the client keeps the size, the application's own attributes pointer is passed unchanged.",
     [F, I], "every failure combination of attribute operations and creation, with and without attributes", "Fault combinations are not reachable from tests.",
     ["src/pthread.c"], [("stack size adjust/restore", "monitor_adjust_stack_size, pthread_create")], "All failure combinations.")
prop("C15", "New-thread info is available only during pthread_create",
     "During the creator-side callbacks of a pthread_create (pre-create, stack-size and post-create), the new-thread query succeeds and returns that call's start routine and a "
     "return address inside its caller. Outside a pthread_create of the calling thread, including after creations of ignored threads, it fails and writes nothing; a "
     "null destination fails.",
     [H], "all creation histories, including ignored and failing creations", "Tests query only inside callbacks.", ["src/pthread.c"],
     [("thread info lifetime", "pthread_create, monitor_get_new_thread_info")], "All paths of the analysed histories.")
prop("C16", "Internal locks: no deadlock, no lost or corrupt thread entries",
     "Thread creation, thread end, broadcast and process exit may interleave in any way, including a broadcast from a signal handler that interrupts any of "
     "them: none of them waits for ever on the library's own lock, every lock taken is released on every path, and every live monitored thread "
     "stays known (reachable by broadcast and by the exit shutdown) exactly once.",
     [S, H], "every interleaving point of two threads, and of a handler with the code it interrupts", "Needs precise preemption.",
     ["src/pthread.c", "src/spinlock.h", "src/queue.h"], [("thread lock", "MONITOR_THREAD_LOCK users")],
     "Interference at every shared point (two threads or thread+handler).", "lock/typestate analysis with interference at every shared point")
prop("C17", "Thread numbers are unique and never change",
     "The main thread has number 0; every other monitored thread gets a positive number that no other thread of the process has had, also when threads "
     "start concurrently or after others ended. init-thread and later queries in that thread report the same number for the thread's whole life.",
     [S, H], "concurrent starts, recycled entries", "Uniqueness under races is not sampled.", ["src/pthread.c"], [("number assignment under the lock", "monitor_link_thread_node")],
     "Interference at every shared point; three threads in sequence.", "interference analysis with a typestate automaton")
prop("C18", "Broadcast reaches exactly the other live threads",
     "A signal broadcast sends the given signal exactly once to every other thread that is running application code and to the main thread, "
     "never to the caller, to ignored threads, to threads not yet started or already in or past fini-thread, and returns success. If "
     "the thread list is busy it returns failure without sending anything; in a single-threaded process it succeeds and sends nothing.",
     [H, S], "all list contents and thread states", "Tests broadcast to running threads only.", ["src/pthread.c"], [("broadcast", "monitor_broadcast_signal")], "All thread-state combinations of up to three threads.")
prop("C19", "Exit shutdown finalises every running thread before fini-process",
     "When the process ends, every other running monitored thread (and main, if another thread ends the process) gets fini-thread before fini-process starts; the "
     "exiting thread itself, if not main, gets it too, with nobody signalled after its fini-thread started. The exiting thread waits as long as needed for a "
     "fini-thread that has started and gives up only if threads fail to react for the timeout; threads that blocked shutdown are retried after they unblock.",
     [S, H], "all reaction orders and delays of other threads", "Timing-dependent.", ["src/pthread.c", "src/main.c"], [("shootdown loop", "monitor_thread_shootdown")],
     "Other threads react at any poll round; widening over rounds.")
prop("C20", "Signal delivery: client first, then exactly the application's disposition",
     "For every catchable signal the client's handler is offered the signal first with the original arguments; if it accepts, nothing else happens. Otherwise the "
     "application's disposition applies exactly: ignored signals do nothing, handlers are called once with the right arguments, default "
     "actions terminate (with full exit callbacks, by the same signal, even with the signal blocked meanwhile), stop, or ignore as the system default would.",
     [I, H], "every signal number x disposition x client answer", "Tests raise a few signals.", ["src/signal.c"], [("dispatcher", "monitor_signal_handler")],
     "All 64 signals x all dispositions.")
prop("C21", "signal and sigaction behave like the system's",
     "For every signal number, sigaction and signal report the previously set application action (or the inherited one), store the new one, and reject invalid "
     "numbers with the error and errno of the real call; the uncatchable signals are passed to the real function. The application can never displace the library's handler, install one-shot or "
     "alternate-stack delivery, or lose restart and siginfo delivery.",
     [I, H], "every signal number and any sequence of settings", "Tests set few signals.", ["src/signal.c"], [("application sigaction", "monitor_appl_sigaction")],
     "All signals, sequences of settings.")
prop("C22", "The application cannot block the client's or the shutdown signal",
     "Through sigprocmask, pthread_sigmask or handler masks the application cannot change whether a protected signal (one the client registered or kept open "
     "in the configuration, or the shutdown signal) is blocked; all other signals are changed exactly as requested. The previous mask is reported unchanged, null sets and "
     "the caller's set object are left untouched, and inside handlers the shutdown signal is held back.",
     [I, H, C], "every mask operation and set content", "Set contents are not enumerated by tests.", ["src/signal.c", "src/pthread.c"],
     [("mask filter", "monitor_remove_client_signals, monitor_adjust_samask")], "Bit-precise per-signal set tracking.")
prop("C23", "sigwait family returns only signals meant for the application",
     "sigwait, sigwaitinfo and sigtimedwait return to the application exactly the signals (or errors other than interruption) the real wait yields that are in its set and that "
     "the client does not accept, with correct number, info, return value and errno. A signal the client accepts is consumed and waiting resumes, and the shutdown signal during "
     "process end runs the thread's fini-thread exactly once in the waiting thread.",
     [I, H, S], "every result sequence of the real wait", "Sequences are not enumerated.", ["src/pthread.c"], [("wait helper", "monitor_sigwait_helper")],
     "All result kinds per round; loop widened.")
prop("C24", "The shutdown signal is valid, stable and avoids the client's signals",
     "The shutdown signal is chosen once, before any application signal setting, and never changes; it is a catchable non-stopping signal number. A valid "
     "environment or configured choice is honoured, any invalid environment text is ignored, and otherwise a signal not held open for the client is chosen.",
     [I, C], "every environment text and configured client-signal list", "Tests use the default.", ["src/signal.c"], [("early choice", "monitor_choose_shootdown_early")],
     "All numeric choices -3..70, non-numeric text, several configurations.")
prop("C25", "MPI init and finalize callbacks bracket the outermost real call",
     "For every C, Fortran and profiling-interface variant, MPI initialisation delivers mpi-pre-init before and init-mpi after, and finalisation fini-mpi before and mpi-post-fini "
     "after, the real function of the same name, called exactly once with the caller's arguments and its result returned. When one variant's real function calls another, only the "
     "outermost call delivers the callbacks; Fortran variants give init-mpi the program's own argument vector.",
     [G, I, C], "all variants and nestings", "No MPI tests exist here.", ["src/mpi.c", "src/pmpi.c", "src/mpi_init_c.c", "src/mpi_final_c.c"],
     [("nesting counters", "monitor_mpi_init_count, monitor_mpi_fini_count")], "All variants, all pairwise nestings.")
prop("C26", "MPI size and rank: first report after init wins",
     "Size and rank are -1 until known; then they are those of the first rank query the application makes after MPI initialisation has completed (or the first explicit setting by the "
     "client), and never change afterwards. Rank queries during initialisation do not count, and each rank query passes through to the real function and returns its "
     "results.",
     [H, G], "all call orders and variants", "No MPI tests exist here.", ["src/mpi.c", "src/mpi_comm_c.c", "src/pmpi.c"], [("first-wins latch", "monitor_set_size_rank, monitor_set_mpi_size_rank")],
     "All variants and orders.")
prop("C27", "Unwind predicates and stack bottoms identify the real bottom frames",
     "All unwind predicates are true for the return address of the call into the application's main (process predicates) or thread routine (thread predicates), and the wide and bottom-frame predicates also for "
     "the calls in the start functions through which the start and normal-return callbacks run. They are true only inside the two start functions, and the process and thread bottom-frame predicates never for the other kind. "
     "The stack bottom reported in a thread is an address in that thread's own live bottom frame, also in callbacks, handlers and forked children.",
     [C, G], "all code addresses, both link modes", "Layout depends on the compiler.", ["src/main.c", "src/pthread.c"], [("assembly fences", "MONITOR_ASM_LABEL, fence predicates")],
     "Fence order and placement in the IR of every configuration.", "structural analysis of fence order in the IR plus dataflow of predicate bounds")
prop("C28", "Interception is complete and consistent in both link modes",
     "Every function the library documents as intercepted is overridden in both the preloaded and the wrapped build, and each override, when it needs the original, calls the "
     "real function of its own name. The link script wraps exactly the functions the static library overrides, and each documented feature subset still builds "
     "a complete library.",
     [C], "all functions x link modes x feature configurations", "Tests run one configuration.", ["src/monitor-link.in", "src/Makefile.am", "src/main.c", "src/pthread.c"],
     [("wrap list", "src/monitor-link.in"), ("name macros", "src/common.h")], "Whole-program symbol analysis for each configuration.", "whole-program symbol and call-graph analysis")
prop("C29", "Any entry point may be the first one",
     "Whichever public function or override a program, constructor or client calls first, and in whatever order, the library is "
     "sufficiently initialised before use: it never calls through an unresolved pointer, never recurses without bound or deadlocks, and the call behaves as specified.",
     [H, G, C], "every public entry point as first call, and as second call after any other", "Constructors calling each entry first are not tested.",
     ["src/main.c", "src/fork.c", "src/pthread.c", "src/signal.c", "src/dlopen.c"], [("lazy initialisers", "MONITOR_GET_REAL_NAME, *_init")],
     "All entries, all ordered pairs in thorough mode.")
prop("C31", "No out-of-bounds access for any input or environment",
     "For any environment, PATH, file name, argument list, signal number or thread count, the library reads and writes only inside its own objects and those the caller handed over; "
     "over-long or missing values are handled, not overrun.",
     [I], "all lengths of strings and lists", "Sizes at the limits are not tested.", ["src/fork.c", "src/utils.c", "src/signal.c", "src/pthread.c"],
     [("buffers", "monitor_is_executable, monitor_copy_va_args, monitor_copy_environ, monitor_sigset_string")], "Boundary-size inputs, symbolic lengths.", "bounds analysis by abstract interpretation of the IR")
prop("C32", "User data and identity queries are per thread and consistent",
     "In every thread at every time the user-data query returns what that thread's init callback returned (process data in main, pre-create data until init-thread returns), thread number and "
     "threadedness match the thread, also inside callbacks, signal handlers and forked children. Nothing another thread does changes them.",
     [H, S], "all phases of every thread", "Only sampled at one point.", ["src/pthread.c", "src/main.c"], [("thread-specific node", "monitor_get_tn")], "All phases; several threads.")
prop("C37", "Any number of threads: entries are recycled without cross-talk",
     "Creating and ending any number of threads, far beyond the preallocated number, never mixes up two threads' routines, arguments, data, numbers or state: a live thread's entry is "
     "never reused, a new thread inherits nothing from an earlier one, and ended or failed creations do not consume entries for ever.",
     [H, I, S], "thread counts beyond every internal table size, any order of ends", "Tests create few threads.", ["src/pthread.c"], [("free list and tables", "monitor_make_thread_node, monitor_unlink_thread_node")],
     "Counts across table boundaries; interference for recycling.")
prop("C40", "Exit shutdown time is bounded in wall-clock terms",
     "Process exit is never delayed by more than the shutdown timeout plus the time spent in client callbacks.",
     [S], "all schedules and clocks", "Depends on real time.", ["src/pthread.c"], [("timeout", "monitor_thread_shootdown")], "")
NA["C40"] = "quantifies over wall-clock time and operating-system scheduling; no static argument over the source bounds it (C19 decides the untimed part)"
prop("C41", "Data-race freedom under the hardware memory model",
     "All accesses to data shared between threads are ordered so that no thread observes a stale or torn value under the memory model of any supported processor.",
     [S], "all weak-memory executions", "Not observable in tests on one machine.", ["src/pthread.c", "src/atomic.h"], [("spin lock barriers", "src/spinlock.h")], "")
NA["C41"] = "the code relies on volatile flags and inline-assembly barriers outside the C memory model, so a sound static race analysis rejects the correct code; C03, C12, C16 and C17 decide the observable consequences under sequential consistency"
prop("C42", "monitor-run and monitor-link pass every command line through unchanged",
     "The launcher scripts run or link exactly the given command with only the preload or wrap settings added, for every argument content.",
     [I], "all command lines", "Quoting cases are not tested.", ["src/monitor-run.in", "src/monitor-link.in"], [("scripts", "src/*.in")], "")
NA["C42"] = "shell-script behaviour under arbitrary quoting is not decidable with the IR analysis built here and no sound shell analyser is installed; the wrap list itself is decided by C28"

built = sorted(f[:-3] for f in os.listdir(os.path.join(V, "sa", "props")) if f.startswith("C") and f.endswith(".py"))
with open(os.path.join(V, "properties.jsonl"), "w") as h:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        h.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 sa/setup.py", "checks": [], "not_applicable": [],
     "notes": "All checks are static: clang front end to LLVM IR, abstract interpretation in sa/engine.py; nothing of /repo is run. See DESIGN.md."}
for p in P:
    i = p["id"]
    if i in built:
        t, n = TECH[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 sa/check.py %s quick" % i,
                            "thorough_cmd": "python3 sa/check.py %s thorough" % i, "technique": t, "level": "other",
                            "level_note": n + " Trusts clang's IR, the models of external functions in sa/models.py and the environment drivers; "
                            "each driver is non-deterministic, but histories outside the drivers are not covered."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as h:
    json.dump(m, h, indent=1)
    h.write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
