"""dlopen / dlclose"""
from fw import *
EXPLAIN = ("Typestate and value analysis of the dlopen and dlclose overrides for arbitrary arguments and results, from main, a side "
           "thread, before main and from inside callbacks; and of every other path on which the library itself loads or looks up symbols: "
           "with any subset of the next-object symbol lookups failing (so that the scan of all loaded objects is used), no dlopen or "
           "dlclose callback may be delivered outside an application call.")

SRC = r'''
void *monitor_init_process(int *argc, char **argv, void *data) { if (W == 4) use(); return vf_ptr("pdata"); }
void *monitor_thread_pre_create(void) { return vf_ptr("tpre"); }
void monitor_fini_process(int how, void *d) { if (W == 5) use(); }
static void use(void)
{
#if FN == 1
  void *r;
  vf_mark("open");
  r = dlopen((char *) vf_any("path"), vf_anyint("flags"));
  vf_mark("ret", r);
#elif FN == 2
  int r;
  vf_mark("close");
  r = dlclose(vf_any("handle"));
  vf_mark("ret", r);
#elif FN == 3
  void *r;
  int k;
  vf_mark("open");
  r = dlopen((char *) vf_any("path"), vf_anyint("flags"));
  vf_mark("ret", r);
  vf_mark("close2", r);
  k = dlclose(r);
  vf_mark("ret", k);
#elif FN == 4
  void *r = monitor_real_dlopen((char *) vf_any("path"), vf_anyint("flags"));
  monitor_real_dlclose(r);
#elif FN == 5
  pthread_t t;
  struct timespec ts;
  pthread_create(&t, 0, body2, 0);
  monitor_broadcast_signal(10);
#elif FN == 6
  system("x");
#elif FN == 7
  fork();
#elif FN == 8
  sigset_t s;
  sigemptyset(&s);
  sigaddset(&s, 10);
  sigprocmask(SIG_BLOCK, &s, 0);
  pthread_sigmask(SIG_BLOCK, &s, 0);
  signal(10, SIG_IGN);
#elif FN == 9
  execv("/a", (char **) vf_ptr("av"));
  vf_end();
#endif
}
static void *body(void *a) { use(); return a; }
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  if (W == 1) { use(); use(); }
  if (W == 2) {
    pthread_create(&t, 0, body, 0);
    vf_assume(vf_nthreads() == 1);
    vf_run_thread(1);
  }
  return 0;
}
void vf_main(void) { if (W == 0) use(); START(app_main); }
'''


class Rl(Auto):
    start = dict(fn=0, st=0, ret=None, h=None)

    def ev_mark(self, s, ev):
        if ev.name in ("open", "close", "close2"):
            s.update(fn=1 if ev.name == "open" else 2, st=1, ret=None, h=ev.args[0] if ev.args else ("t", "any", "handle"))
        elif ev.name == "ret":
            need(s["st"] == 4, "a real call or callback is missing")
            need(ev.args[0] == s["ret"], "the result of the real function is not returned")
            s.update(fn=0, st=0, ret=None, h=None)

    P = (("t", "any", "path"), ("t", "any", "flags"))

    def ev_cb(self, s, ev):
        n = ev.name
        if n == "monitor_pre_dlopen":
            need(s["fn"] == 1, "pre-dlopen callback for a dlopen the application did not make")
            need(s["st"] == 1, "pre-dlopen delivered twice or after the real dlopen")
            need(tuple(ev.args) == self.P, "pre-dlopen does not receive the caller's arguments")
            s["st"] = 2
        elif n == "monitor_dlopen":
            need(s["fn"] == 1, "dlopen callback for a dlopen the application did not make")
            need(s["st"] == 3, "dlopen callback delivered twice or before the real dlopen")
            need(tuple(ev.args) == self.P + (s["ret"],), "the dlopen callback does not receive the arguments and the handle")
            s["st"] = 4
        elif n == "monitor_dlclose":
            need(s["fn"] == 2, "dlclose callback for a dlclose the application did not make")
            need(s["st"] == 1, "dlclose callback delivered twice or after the real dlclose")
            need(tuple(ev.args) == (s["h"],), "the dlclose callback does not receive the handle")
            s["st"] = 2
        elif n == "monitor_post_dlclose":
            need(s["fn"] == 2, "post-dlclose callback for a dlclose the application did not make")
            need(s["st"] == 3, "post-dlclose delivered twice or before the real dlclose")
            need(tuple(ev.args) == (s["h"], s["ret"]), "post-dlclose does not receive the handle and the result")
            s["st"] = 4

    def ev_x(self, s, ev):
        n = ev.name
        if n == "dlopen" and s["fn"] == 1 and tuple(ev.args) == self.P:
            need(s["st"] != 1, "the real dlopen runs before pre-dlopen")
            need(s["st"] == 2, "the real dlopen is called twice")
            s["st"], s["ret"] = 3, ev.ret
        elif n in ("dlopen", "dlclose") and any(f.onret and f.onret[0] == "phdr" for f in ev.st.frames):
            pass                # a symbol lookup of the library itself
        elif n == "dlopen" and s["st"] in (2, 3, 4):
            raise Violation("the real dlopen gets different arguments")
        elif n == "dlclose" and s["fn"] == 2 and tuple(ev.args) == (s["h"],):
            need(s["st"] != 1, "the real dlclose runs before its callback")
            need(s["st"] == 2, "the real dlclose is called twice")
            s["st"], s["ret"] = 3, ev.ret
        elif n == "dlclose" and s["st"] in (2, 3, 4):
            raise Violation("the real dlclose gets a different handle")


def mk(name, fn, w, fail=False, modes=("dynamic", "static")):
    src = "#define FN %d\n#define W %d\nstatic void use(void);\nstatic void *body2(void *a) { return a; }\n" % (fn, w) + SRC
    o = {"create_ok": 1, "attr_ok": 1, "malloc_ok": 1, "dlsym_fail": fail}
    return Scn(name, src, Rl, modes=("dynamic",) if fail else modes, opts=o, need=("mark:ret",) if fn in (1, 2, 3) else (), ends=fn != 9, cap=2000)


def check(ctx):
    sc = []
    fnn = {1: "dlopen", 2: "dlclose", 3: "both", 4: "real", 5: "thread", 6: "system", 7: "fork", 8: "signal", 9: "exec"}
    wn = {0: "first-call", 1: "main", 2: "thread", 4: "init-process", 5: "fini-process"}
    for fn in fnn:
        for w in wn:
            if fn > 4 and w > 1:
                continue
            sc.append(mk("%s-%s" % (fnn[fn], wn[w]), fn, w))
            if w in (0, 1):
                sc.append(mk("%s-%s-lookup-fails" % (fnn[fn], wn[w]), fn, w, True))
    ctx.run(sc)
