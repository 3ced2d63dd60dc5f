"""interception: symbols in every configuration, and real functions of the same name"""
import itertools, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from fw import *
from ir import REPO, BuildError
EXPLAIN = ("(a) Whole-program symbol analysis of every feature configuration in both link modes: the overrides defined must be exactly the documented ones of the enabled features, the link script's wrap "
           "list must be the set of wrapped functions, every undefined symbol must be resolved by the library itself, the C library or a wrapped real function, every public function must be "
           "defined and every client callback must be a weak default. (b) Abstract interpretation: each override that passes through is called by the application, and on every path the original it "
           "reaches must be the function of its own name.")
BASE = {"exit", "_exit", "_Exit"}
F = {"dlfcn": {"dlopen", "dlclose"},
     "fork": {"fork", "vfork", "system", "execl", "execlp", "execle", "execv", "execvp", "execve"},
     "mpi": {m + s for m in ("mpi_init", "mpi_init_thread", "mpi_finalize", "mpi_comm_rank") for s in ("", "_", "__")} | {"MPI_Init", "MPI_Init_thread", "MPI_Finalize", "MPI_Comm_rank"},
     "pthreads": {"pthread_create", "pthread_exit", "sigwait", "sigwaitinfo", "sigtimedwait"},
     "signals": {"signal", "sigaction", "sigprocmask"}}
CALLBACKS = """monitor_init_library monitor_fini_library monitor_init_process monitor_fini_process monitor_start_main_init monitor_at_main monitor_begin_process_exit monitor_pre_fork
 monitor_post_fork monitor_thread_pre_create monitor_thread_post_create monitor_init_thread_support monitor_init_thread monitor_fini_thread monitor_reset_stacksize monitor_pre_dlopen
 monitor_dlopen monitor_dlclose monitor_post_dlclose monitor_mpi_pre_init monitor_init_mpi monitor_fini_mpi monitor_mpi_post_fini""".split()
API = {"": "monitor_initialize monitor_real_exit monitor_is_threaded monitor_get_addr_main monitor_get_user_data monitor_get_thread_num monitor_stack_bottom monitor_in_start_func_wide "
           "monitor_in_start_func_narrow monitor_unwind_process_bottom_frame monitor_unwind_thread_bottom_frame monitor_set_size_rank monitor_mpi_comm_size monitor_mpi_comm_rank",
       "fork": "monitor_real_fork monitor_real_execve monitor_real_system", "dlfcn": "monitor_real_dlopen monitor_real_dlclose",
       "signals": "monitor_real_abort monitor_real_sigprocmask monitor_sigaction",
       "pthreads": "monitor_real_pthread_sigmask monitor_broadcast_signal monitor_get_addr_thread_start monitor_block_shootdown monitor_unblock_shootdown monitor_disable_new_threads "
                   "monitor_enable_new_threads monitor_get_new_thread_info"}
MPILIB = {"MPI_Comm_size", "mpi_comm_size", "mpi_comm_size_", "mpi_comm_size__"}      # from the MPI library that supplies the rank function
FEAT = ("dlfcn", "fork", "mpi", "pthreads", "signals")


def expected(on, mode):
    s = set(BASE)
    for f in on:
        s |= F[f]
    if "pthreads" in on and "signals" in on:
        s.add("pthread_sigmask")
    if mode == "static":
        s.add("main")
    else:
        s.add("__libc_start_main")
        if "mpi" in on:
            s |= {("P" if n[0] == "M" else "p") + n for n in F["mpi"]}
    return s


def libc_syms():
    out = set()
    for lib in ("libc.so.6", "libpthread.so.0", "libdl.so.2", "ld-linux-x86-64.so.2"):
        p = subprocess.run(["gcc", "-print-file-name=" + lib], capture_output=True, text=True).stdout.strip()
        if os.path.exists(p):
            for l in subprocess.run(["nm", "-D", "--defined-only", p], capture_output=True, text=True).stdout.splitlines():
                out.add(l.split()[-1].split("@")[0])
    a = subprocess.run(["gcc", "-print-file-name=libc.a"], capture_output=True, text=True).stdout.strip()
    n = subprocess.run(["gcc", "-print-file-name=libc_nonshared.a"], capture_output=True, text=True).stdout.strip()
    for p in (n,):
        if os.path.exists(p):
            for l in subprocess.run(["nm", "--defined-only", p], capture_output=True, text=True).stdout.splitlines():
                f = l.split()
                if len(f) == 3:
                    out.add(f[2])
    return out | {"_GLOBAL_OFFSET_TABLE_", "__stack_chk_fail", "environ"}


def symbols(cfg, mode, tmp, tag):
    """{symbol: (unit, type)} defined, {symbol: (unit, type)} undefined"""
    d, u = {}, {}
    jobs = []
    for src, flags in cfg.units[mode]:
        tu = os.path.splitext(os.path.basename(src))[0]
        out = os.path.join(tmp, "c28-%s-%s-%s.o" % (tag, mode, tu))
        jobs.append((src, flags, tu, out))
    bo = list(getattr(cfg, "codegen", ())) or ["-O"]
    dup = []

    def go(j):
        src, flags, tu, out = j
        cmd = ["gcc"] + bo + (["-fPIC"] if mode == "dynamic" else []) + ["-w", "-c"] + flags + ["-I" + cfg.dir, "-I" + os.path.join(cfg.dir, "src"), "-I" + REPO + "/src", src, "-o", out]
        p = subprocess.run(cmd, cwd=os.path.join(cfg.dir, "src"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("cannot compile %s (%s, %s): %s" % (src, tag, mode, p.stdout[-600:]))
        t = subprocess.run(["nm", out], capture_output=True, text=True).stdout
        os.unlink(out)
        return tu, t
    with ThreadPoolExecutor(8) as ex:
        for tu, t in ex.map(go, jobs):
            for l in t.splitlines():
                f = l.split()
                if len(f) == 2 and f[0] in "Uwv":
                    u.setdefault(f[1], (tu, f[0]))
                elif len(f) == 3 and f[1] in "TWVBDRC":
                    if f[2] in d and d[f[2]][1] in "TBDR" and f[1] in "TBDR":
                        dup.append((f[2], d[f[2]][0], tu))
                    if f[2] not in d or d[f[2]][1] in "WVC":
                        d[f[2]] = (tu, f[1])
    return d, u, dup


CALLS = [
    ("exit", "exit(3)", ("_exit", "_Exit", "exit"), True), ("_exit", "_exit(3)", ("_exit", "_Exit"), True), ("_Exit", "_Exit(3)", ("_exit", "_Exit"), True),
    ("dlopen", "dlopen(vf_ptr(\"path\"), 2)", ("dlopen",), True), ("dlclose", "dlclose(vf_ptr(\"handle\"))", ("dlclose",), True),
    ("fork", "fork()", ("fork",), True),
    ("pthread_create", "pthread_create(&th, 0, body, 0)", ("pthread_create",), False),
    ("pthread_exit", "pthread_exit(vf_ptr(\"res\"))", ("pthread_exit",), True),
    ("sigprocmask", "sigprocmask(0, &ss, 0)", ("sigprocmask",), True), ("pthread_sigmask", "pthread_sigmask(0, &ss, 0)", ("pthread_sigmask", "sigprocmask"), True),
    ("sigaction", "sigaction(10, 0, &sa)", (), False),
]
DRV = r'''
#define _GNU_SOURCE
#include <signal.h>
#include <dlfcn.h>
void *monitor_thread_pre_create(void) { return vf_ptr("tpre"); }
static void *body(void *a) { return a; }
int app_main(int argc, char **argv, char **envp)
{
  pthread_t th;
  sigset_t ss;
  struct sigaction sa;
  sigemptyset(&ss);
  vf_mark("call");
  %s;
  vf_mark("done");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''


class Real(Auto):
    start = dict(on=0, seen=0)
    X = ""
    OK = ()
    ALWAYS = True
    FAMILY = ()

    def ev_mark(self, s, ev):
        if ev.name == "call":
            s["on"] = 1
        elif ev.name == "done":
            need(s["seen"] or not self.ALWAYS, "the override of %s returns without calling the real %s" % (self.X, self.X))
            s["on"] = 2

    def at_end(self, s, how, st):
        if s["on"] == 1 and self.ALWAYS and how not in ("cut", "unreachable"):
            need(s["seen"], "the override of %s ends the path without calling the real %s" % (self.X, self.X))

    def ev_x(self, s, ev):
        if s["on"] == 1:
            if ev.name in self.OK:
                s["seen"] = 1
            else:
                need(ev.name not in self.FAMILY, "the override of %s calls the real %s" % (self.X, ev.name))


def check(ctx):
    libc = libc_syms()
    subsets = [tuple(f for f in FEAT if f not in off) for k in range(6) for off in itertools.combinations(FEAT, k)]
    if ctx.tier != "thorough":
        subsets = [s for s in subsets if len(s) in (5, 4, 0) or s in (("dlfcn", "fork", "mpi"), ("pthreads", "signals"), ("pthreads",), ("signals",))]
    names = {s: ("default" if len(s) == 5 else "sub-" + "-".join(s)) for s in subsets}
    argv = {s: tuple("--disable-" + f for f in FEAT if f not in s) for s in subsets}
    with ThreadPoolExecutor(8) as ex:
        cfgs = dict(zip(subsets, ex.map(lambda s: ctx.ws.config(names[s], argv[s]), subsets)))
    n = dict(configurations=0, overrides=0, undefined_symbols=0, callbacks=0, public_functions=0)

    def bad(what, where, msg):
        ctx.violation(what, where, msg)
    for s in subsets:
        cfg = cfgs[s]
        tag = names[s]
        for mode in ("dynamic", "static"):
            n["configurations"] += 1
            d, u, dup = symbols(cfg, mode, ctx.ws.root, tag)
            exp = expected(s, mode)
            sc = "%s/%s" % (tag, mode)
            if mode == "static":
                got = {x[7:] for x in d if x.startswith("__wrap_")}
                wl = set(cfg.wraplist)
                for x in sorted(got - wl):
                    bad(sc, "src/%s.c" % d["__wrap_" + x][0], "the static library overrides %s but the link script does not wrap it" % x)
                for x in sorted(wl - got):
                    bad(sc, "src/monitor-link.in", "the link script wraps %s but the static library does not define __wrap_%s" % (x, x))
            else:
                got = {x for x in d if d[x][1] == "T"}
            for x in sorted(exp):
                n["overrides"] += 1
                if x not in got:
                    bad(sc, "src", "%s is not overridden (%s build)" % (x, mode))
            alld = set(d)
            for x in sorted(u):
                n["undefined_symbols"] += 1
                if x in alld or x in libc or u[x][1] in "wv" or x.startswith(("__asan", "__ubsan")):
                    continue
                if mode == "static" and x.startswith("__real_") and x[7:] in set(cfg.wraplist):
                    continue
                if mode == "static" and "mpi" in s and x in MPILIB:
                    continue
                bad(sc, "src/%s.c" % u[x][0], "unresolved symbol %s: the library is not complete in this configuration" % x)
            for x, a, b in dup:
                bad(sc, "src/%s.c" % b, "%s is defined twice (also in %s.c)" % (x, a))
            for x in CALLBACKS:
                n["callbacks"] += 1
                if x in d and d[x][1] != "W":
                    bad(sc, "src/%s.c" % d[x][0], "the default of client callback %s is not weak: a client cannot define it" % x)
                elif x not in d:
                    bad(sc, "src/callback.c", "client callback %s has no default" % x)
            for f, l in API.items():
                if f == "" or f in s:
                    for x in l.split():
                        if x == "monitor_real_pthread_sigmask" and "signals" not in s:
                            continue
                        n["public_functions"] += 1
                        if x not in d:
                            bad(sc, "src/monitor.h", "public function %s is not defined" % x)
    ctx.extra.update(n)
    sc = []
    fam = [{"sigwait", "sigwaitinfo", "sigtimedwait"}, {"dlopen", "dlclose"}]
    for x, call, ok, always in CALLS:
        fs = set().union(*[f for f in fam if x in f] or [set()]) - set(ok)
        sc.append(Scn("real-" + x, DRV % call, type("R_" + x, (Real,), {"X": x, "OK": tuple(ok), "ALWAYS": always, "FAMILY": tuple(fs)}), opts={"create_ok": 1, "malloc_ok": 1}, ends=False,
                      need=("mark:call",)))
    ctx.run(sc)
