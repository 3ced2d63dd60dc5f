"""client services"""
from fw import *
import importlib
from models import disp, curmask, EMPTY
EXPLAIN = ("Value and typestate analysis of every client service: as first call into the library, before main, in the running "
           "program, from a side thread and from inside exit callbacks. Each must reach the real function of its name exactly once "
           "with the caller's argument values, deliver no callback and return the real result; the environment handed to execve is "
           "compared entry by entry with the caller's for sizes across the internal array limit.")

SRC = r'''
static int in;
%(tables)s
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
void *monitor_init_thread(int t, void *data) { return vf_ptr("tdata"); }
int vf_real_execve(const char *p, char *const a[], char *const e[])
{
#if FN == 4
  int i;
  vf_assert(p == (char *) vf_ptr("path") && a == (char **) vf_ptr("av"), "execve: the arguments are not passed through");
  for (i = 0; expect[i]; i++)
    vf_assert(e[i] == expect[i], "execve: the environment is not the caller's without LD_PRELOAD, in order");
  vf_assert(e[i] == 0, "execve: the environment has extra entries");
#endif
  vf_mark("real");
  if (vf_nondet()) vf_end();
  return vf_anyint("res");
}
void *vf_real_dlopen(const char *p, int f)
{
  vf_assert(p == (char *) vf_any("path") && f == vf_anyint("flags"), "dlopen: the arguments are not passed through");
  vf_mark("real");
  return vf_any("res");
}
int vf_real_dlclose(void *h)
{
  vf_assert(h == vf_any("handle"), "dlclose: the arguments are not passed through");
  vf_mark("real");
  return vf_anyint("res");
}
static int realmask(int h, const sigset_t *s, sigset_t *o)
{
  vf_assert(h == vf_anyint("how") && s == (sigset_t *) vf_any("set") && o == (sigset_t *) vf_any("oset"), "the mask arguments are not passed through");
  vf_mark("real");
  return vf_anyint("res");
}
#if FN == 8
int vf_real_sigprocmask(int h, const sigset_t *s, sigset_t *o) { return realmask(h, s, o); }
#elif FN == 9
int vf_real_pthread_sigmask(int h, const sigset_t *s, sigset_t *o) { return realmask(h, s, o); }
#endif
static void use(void)
{
  if (in) return;
  in = 1;
#if FN == 2 && W
  {
    sigset_t b;
    sigfillset(&b);
    sigprocmask(vf_nondet() ? SIG_BLOCK : SIG_UNBLOCK, &b, 0);
  }
#endif
  vf_mark("call");
#if FN == 1
  monitor_real_exit(vf_anyint("status"));
#elif FN == 2
  monitor_real_abort();
#elif FN == 3
  { int r = monitor_real_fork(); vf_mark("ret", r); }
#elif FN == 4
  { int r = monitor_real_execve((char *) vf_ptr("path"), (char **) vf_ptr("av"), env0); vf_mark("ret", r); }
#elif FN == 6
  { void *r = monitor_real_dlopen((char *) vf_any("path"), vf_anyint("flags")); vf_mark("ret", r); }
#elif FN == 7
  { int r = monitor_real_dlclose(vf_any("handle")); vf_mark("ret", r); }
#elif FN == 8
  { int r = monitor_real_sigprocmask(vf_anyint("how"), (sigset_t *) vf_any("set"), (sigset_t *) vf_any("oset")); vf_mark("ret", r); }
#elif FN == 9
  { int r = monitor_real_pthread_sigmask(vf_anyint("how"), (sigset_t *) vf_any("set"), (sigset_t *) vf_any("oset")); vf_mark("ret", r); }
#endif
  in = 0;
}
static void *body(void *a) { use(); return a; }
void monitor_begin_process_exit(int how) { if (W == 3) use(); }
void monitor_fini_process(int how, void *d) { if (W == 4) use(); }
void monitor_pre_fork_(void) { }
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  if (W == 1) { use(); use(); }
  if (W == 2) {
    pthread_create(&t, 0, body, 0);
    vf_assume(vf_nthreads() == 1);
    vf_run_thread(1);
  }
  vf_mark("leave");
  return 0;
}
void vf_main(void) { if (W == 0) use(); START(app_main); }
'''
NAMES = {1: "exit", 2: "abort", 3: "fork", 4: "execve", 6: "dlopen", 7: "dlclose", 8: "sigprocmask", 9: "pthread_sigmask"}
ALLOWED = {"dlsym", "getenv", "access", "dlerror", "usleep", "mmap", "sysconf", "pthread_key_delete", "sigaction", "sigprocmask", "pthread_self"}


class Rl(Auto):
    start = dict(st=0, real=0, r=None)
    fn = 0

    def ev_mark(self, s, ev):
        if ev.name == "call":
            s.update(st=1, real=0, r=None)
        elif ev.name == "real":
            need(s["st"] == 1, "the real function is called outside the service")
            need(s["real"] == 0, "the real function is called twice")
            s["real"], s["r"] = 1, ("t", "any", "res")
        elif ev.name == "ret":
            need(s["real"] == 1, "the real function is not called")
            need(ev.args[0] == s["r"], "the result of the real function is not returned")
            s["st"] = 0

    def ev_cb(self, s, ev):
        need(not s["st"], "%s delivered by a client service" % ev.name)

    def ev_x(self, s, ev):
        n = ev.name
        if n == "errx":
            raise Violation("the library aborts the process")
        if not s["st"]:
            return
        if n == "fork" and self.fn == 3:
            need(s["real"] == 0, "fork is called twice")
            s["real"], s["r"] = 1, ev.ret
        elif n in ("_exit", "_Exit") and self.fn == 1:
            need(ev.args[0] == ("t", "any", "status"), "the exit status is not passed through")
            s["real"] = 2
        elif n in ("raise", "pthread_kill", "kill", "abort") and self.fn == 2:
            if n != "abort":
                need(6 in ev.args, "a signal other than SIGABRT is raised")
                need(disp(ev.eng, ev.st, 6)[0] == 0, "SIGABRT is raised while it is not set to its default action")
        elif n in ("exit", "fork", "vfork", "raise", "kill", "pthread_kill", "system", "execv", "execvp", "_exit", "abort"):
            raise Violation("unexpected call of the real %s" % n)

    def at_end(self, s, how, st):
        if s["st"] and self.fn == 1:
            need(s["real"] == 2, "the real exit does not end the process")
        elif s["st"] and self.fn == 2:
            need(how == "terminated:signal:6" or how == "terminated:abort", "abort does not end the process by SIGABRT")
        elif s["st"] and how != "cut":
            raise Violation("the service ends the process")


def envtab(entries):
    exp = [i for i, e in enumerate(entries) if not e.startswith("LD_PRELOAD=")]
    uniq = {}
    for e in entries:
        uniq.setdefault(e, len(uniq))
    t = "".join('char u%d[] = "%s";\n' % (k, e) for e, k in uniq.items())
    t += "char *env0[] = { %s0 };\n" % "".join("u%d, " % uniq[e] for e in entries)
    t += "char *expect[] = { %s0 };\n" % "".join("u%d, " % uniq[entries[i]] for i in exp)
    return t + "char **environ = env0;\n"


def mk(name, fn, w, env=("A=1", "LD_PRELOAD=x", "B=2"), modes=("dynamic", "static")):
    src = "#define FN %d\n#define W %d\n" % (fn, w) + SRC % {"tables": envtab(list(env))}
    return Scn(name, src, type("R_" + name, (Rl,), {"fn": fn}), modes=modes, need=("mark:call",), ends=fn not in (1, 2),
               cap=len(env) + 600,
               opts={"create_ok": 1, "attr_ok": 1, "malloc_ok": 1})


def check(ctx):
    q = ctx.tier == "quick"
    sc = []
    wn = {0: "first-call", 1: "main", 2: "thread", 3: "begin-exit", 4: "fini-process"}
    for fn in NAMES:
        for w in wn:
            sc.append(mk("%s-%s" % (NAMES[fn], wn[w]), fn, w))
    pre = "LD_PRELOAD=x"
    shapes = [("empty", []), ("only", [pre]), ("first", [pre, "A=1"]), ("last", ["A=1", pre]), ("two", [pre, "A=1", pre, "B=2"]), ("none", ["A=1", "B=2"]),
              ("value", ["A=LD_PRELOAD", "CMD=env LD_PRELOAD=x prog", pre, "Z=1"]), ("longer-name", ["LD_PRELOAD_PATH=/x", "MY_LD_PRELOAD=y", "LD_PRELOA=z", pre]),
              ("no-equals", ["LD_PRELOADX", "LD", "", "A="])]
    sizes = (247, 248, 249, 250, 251, 511, 512, 1024) if q else tuple(range(244, 256)) + (509, 510, 511, 512, 513, 767, 1023, 1024, 1025, 2000)
    for n in sizes:
        shapes.append(("size%d" % n, ["E%d=1" % (i % 7) for i in range(n - 1)] + [pre]))
        if not q or n in (248, 249, 250, 512):
            shapes.append(("size%d-none" % n, ["E%d=1" % (i % 7) for i in range(n)]))
    for nm, e in shapes:
        sc.append(mk("env-" + nm, 4, 1, e, modes=("dynamic",) if q and nm.startswith("size") else ("dynamic", "static")))
    m7 = importlib.import_module("props.C07")
    sc += [m7.mk("system", fn=2), m7.mk("system-null", fn=2, null=1), m7.mk("system-thread", fn=2, thr=1), m7.mk("system-first-call", fn=2, early=1)]
    ctx.run(sc)
