"""identity and user data queries"""
from fw import *
EXPLAIN = ("Value analysis of user data, thread number and threadedness, queried in every callback, in application code, in signal handlers, "
           "after the thread's cleanup and in forked children, while other threads are created, end, fail to be created and take over "
           "entries, also at every shared point of the asking thread's start and end.")

SRC = r'''
int monitor_shootdown_signal(void);
static int ran, npre, act, ninit;
static void q(void) { vf_mark("q", monitor_get_thread_num(), monitor_get_user_data(), monitor_is_threaded()); }
static void qn(void) { vf_mark("qn", monitor_get_thread_num(), monitor_get_user_data(), monitor_is_threaded()); }
static void onsig(int s) { q(); }
static void *datum(const char *pre, int k);
void *monitor_init_process(int *argc, char **argv, void *data) { ninit++; qn(); return ninit == 1 ? vf_ptr("p1") : ninit == 2 ? vf_ptr("p2") : vf_ptr("p3"); }
void *monitor_pre_fork(void) { q(); return vf_ptr("fdata"); }
void monitor_post_fork(pid_t p, void *d) { q(); }
void *monitor_thread_pre_create(void)
{
  q();
  npre++;
  return npre == 1 ? vf_ptr("a1") : npre == 2 ? vf_ptr("a2") : npre == 3 ? vf_ptr("a3") : npre == 4 ? vf_ptr("a4") : vf_ptr("a5");
}
void monitor_thread_post_create(void *d) { q(); }
size_t monitor_reset_stacksize(size_t o) { q(); return o; }
void *monitor_init_thread(int t, void *data)
{
  int k = vf_cur();
  void *r = k == 1 ? vf_ptr("b1") : k == 2 ? vf_ptr("b2") : k == 3 ? vf_ptr("b3") : k == 4 ? vf_ptr("b4") : vf_ptr("b5");
  vf_mark("init", t, data, r);
  q();
  vf_mark("inited", r);
  return r;
}
void monitor_fini_thread(void *d) { vf_mark("fini", d); q(); }
void monitor_begin_process_exit(int how) { q(); }
void monitor_fini_process(int how, void *d) { q(); }
static void create(void *(*f)(void *))
{
  pthread_t t;
  int r = pthread_create(&t, 0, f, 0);
  q();
}
static void *plain(void *a) { vf_mark("app"); q(); vf_deliver(10, 0); q(); return a; }
static void *leaves(void *a) { vf_mark("app"); q(); pthread_exit(a); return a; }
static int peek;
/* late code of an ended thread runs while this one, which may have taken over its entry, is alive */
static void *peeker(void *a)
{
  int me = vf_cur();
  vf_mark("app");
  q();
  vf_setself(peek);
  vf_mark("dead");
  q();
  vf_setself(me);
  return a;
}
static void *forks(void *a)
{
  pid_t p;
  int n;
  q();
  if (KIND == 2) vf_mark("realfork");
  p = KIND == 1 ? vfork() : KIND == 2 ? monitor_real_fork() : fork();
  if (p == 0) {
    vf_mark("child");
    q();
    n = vf_nthreads();
    create(plain);
    if (vf_nthreads() > n) vf_run_thread(n + 1);
    q();
    if (KIND == 2) monitor_real_exit(0);
    exit(0);
  }
  q();
  return a;
}
/* what other threads do meanwhile: one ends, another is created and takes over its entry, and runs */
static void others(void)
{
  int me = vf_cur(), n = vf_nthreads();
  vf_setself(0);
  create(plain);
  if (vf_nthreads() == n + 1) {
    vf_run_thread(n + 1);
    vf_setself(0);
    peek = n + 1;
    create(peeker);
    if (vf_nthreads() == n + 2) { vf_run_thread(n + 2); }
    /* late code (destructors of thread-specific data) in the ended thread */
    vf_setself(n + 1);
    vf_mark("dead");
    q();
  }
  vf_setself(me);
}
static void *watcher(void *a)
{
  vf_mark("app");
  q();
  others();
  q();
  vf_deliver(10, 0);
  return a;
}
#if PRE
void vf_preempt(void)
{
  int me = vf_cur(), n = vf_nthreads();
  if (PRE == 1) { vf_setself(1 - me); q(); create(plain); if (vf_nthreads() == n + 1) { ran = n + 1; vf_run_thread(n + 1); } }
  if (PRE == 2) { vf_run_thread(2); vf_setself(0); q(); }
  if (PRE == 3) { vf_deliver(10, 0); }
  vf_setself(me);
}
#endif
static void *holder(void *a)
{
  vf_mark("app");
  vf_setself(0);
  vf_preempt_on();
  create(plain);
  vf_preempt_off();
  if (vf_nthreads() > 1 && ran != vf_nthreads()) vf_run_thread(vf_nthreads());
  if (vf_nthreads() > 2 && ran != 2) vf_run_thread(2);
  vf_setself(1);
  q();
  return a;
}
void vf_on_sleep(void)
{
  int me = vf_cur();
  if (SC != 9) vf_end();
  vf_setself(1 - me);
  vf_deliver(monitor_shootdown_signal(), 0);
  q();
  vf_setself(me);
}
static void *ends(void *a)
{
  vf_mark("app");
  if (KIND == 0) vf_setself(0);
  exit(0);
  return a;
}
int app_main(int argc, char **argv, char **envp)
{
  int n;
  signal(10, onsig);
  q();
  if (SC == 0) { n = vf_nthreads() + 1; create(plain); if (vf_nthreads() == n) vf_run_thread(n); q(); others(); n = vf_nthreads() + 1; create(leaves); if (n == vf_nthreads()) { vf_run_thread(n); vf_setself(n); vf_mark("dead"); q(); vf_setself(0); } }
  if (SC == 1) { create(watcher); vf_assume(vf_nthreads() == EARLY + 1); vf_run_thread(EARLY + 1); q(); }
  if (SC == 2) { create(forks); vf_assume(vf_nthreads() == EARLY + 1); vf_run_thread(EARLY + 1); q(); }
  if (SC == 3) { forks(0); }
  if (SC == 4) { create(plain); create(plain); vf_assume(vf_nthreads() == 2); vf_preempt_on(); vf_run_thread(1); vf_preempt_off(); q(); create(plain); vf_run_thread(vf_nthreads()); }
  if (SC == 5) { create(holder); vf_assume(vf_nthreads() == EARLY + 1); vf_run_thread(EARLY + 1); }
  if (SC == 6) { vf_deliver(10, 0); create(plain); if (vf_nthreads()) vf_run_thread(1); }
  if (SC == 7) { create(plain); vf_assume(vf_nthreads() == 1); vf_preempt_on(); vf_run_thread(1); vf_preempt_off(); }
  if (SC == 8) { vf_preempt_on(); create(plain); vf_preempt_off(); if (vf_nthreads()) vf_run_thread(1); }
  if (SC == 9) { create(ends); vf_assume(vf_nthreads() == EARLY + 1); vf_run_thread(EARLY + 1); }
  return 0;
}
void vf_main(void) { if (EARLY) { int n; signal(10, onsig); create(plain); n = vf_nthreads(); if (n) vf_run_thread(n); } START(app_main); }
'''
MAYDEAD = 3


class Rl(Auto):
    start = dict(thr=0, dead=frozenset(), nums=frozenset({0}), main=0, pd=None)

    def ev_env(self, s, ev):
        if ev.name == "thread_end":
            s["dead"] = s["dead"] | {ev.args[0]}

    def ev_x(self, s, ev):
        if ev.name == "pthread_create":
            s["thr"] = 1
        if ev.name in ("fork", "vfork") and ev.ret == 0:
            s["thr"] = 0
            s["nums"] = frozenset({0})
            s["main"] = ev.st.env["cur"]
            s["dead"] = frozenset()
            s["chld"] = 1
            # the client's own fork: no init-process, the thread keeps its data
            if s.get("real"):
                if s["main"] != 0:
                    s["pd"] = s.get("i%d" % s["main"])
            else:
                s["pd"] = None
        if ev.name == "errx":
            raise Violation("the library aborts the process")

    def ev_cb(self, s, ev):
        if ev.name == "monitor_init_process":
            s["ni"] = s.get("ni", 0) + 1
            s["pd"] = None
        elif ev.name in ("monitor_at_main", "monitor_thread_pre_create", "monitor_init_thread_support"):
            pass

    def ev_mark(self, s, ev):
        k = ev.st.env["cur"]
        n = ev.name
        if n == "realfork":
            s["real"] = 1
        elif n == "init":
            t = ev.args[0]
            need(type(t) is int and 0 < t < 1 << 31, "init-thread receives %s as thread number" % fmt(t))
            self.unique(s, t)
            s["n%d" % k] = t
            s["d%d" % k] = ev.args[1]
            need(type(ev.args[1]) is tuple and ev.args[1][0] == "t" and str(ev.args[1][2]).startswith("a"), "init-thread does not receive pre-create data")
            need(ev.args[1] not in s.get("useda", ()), "two threads receive the same pre-create data")
            s["useda"] = s.get("useda", ()) + (ev.args[1],)
        elif n == "inited":
            s["i%d" % k] = ev.args[0]
        elif n == "app":
            if k != s["main"]:
                s["a%d" % k] = 1
        elif n == "fini":
            s["e%d" % k] = 1
            if k == s["main"]:
                self.maindata(s, ev.args[0])
                return
            need(ev.args[0] == s.get("i%d" % k), "fini-thread receives another thread's data")
        elif n == "dead":
            s["dead"] = s["dead"] | {k}
        elif n == "q":
            num, data, thr = ev.args[:3]
            if k == s["main"]:
                need(num == 0, "the main thread reports number %s" % fmt(num))
                need(thr in (0, 1) if s["thr"] is None else thr == s["thr"] or (s["thr"] == 0 and self.increate(ev)), "threadedness is reported wrongly")
                if s.get("ni"):
                    self.maindata(s, data)
            elif k in s["dead"]:
                need(num in (-1, 0xffffffff) or num == s.get("n%d" % k), "an ended thread reports another thread's number")
                need(data == 0 or data == s.get("i%d" % k), "an ended thread reports another thread's data")
            elif "e%d" % k in s and num in (-1, 0xffffffff) and data == 0:
                pass           # the thread is ending
            elif "n%d" % k in s:
                need(num == s["n%d" % k], "a thread's number changes")
                need(thr == 1, "threadedness is reported wrongly")
                i = s.get("i%d" % k)
                need(data == i or "a%d" % k not in s and data == s["d%d" % k], "a thread reports wrong user data (%s)" % fmt(data))
        elif n == "qn":
            if k == s["main"]:
                need(ev.args[0] == 0, "the main thread reports number %s" % fmt(ev.args[0]))

    def increate(self, ev):
        # inside the first pthread_create the answer is already yes
        return any("pthread_create" in f.fn.name for f in ev.st.frames)

    def maindata(self, s, data):
        want = s["pd"] or ("t", "any", "p%d" % min(s["ni"], 3))
        need(data == want, "the main thread reports wrong user data (%s)" % fmt(data))

    def unique(self, s, t):
        pass


def mk(R, name, sc, pre=0, early=0, kind=0, opts=None, modes=("dynamic", "static"), need=()):
    s = "#define SC %d\n#define PRE %d\n#define EARLY %d\n#define KIND %d\n" % (sc, pre, early, kind) + SRC
    o = {"malloc_ok": 1, "attr_ok": 1, "create_ok": 1, "yield": 1, "keeptsd": 1}
    o.update(opts or {})
    return Scn(name, s, R, modes=modes, opts=o, need=("mark:q",) + need, ends=True)


def scns(R):
    sc = []
    for early in (0, 1):
        sc.append(mk(R, "plain-early%d" % early, 0, early=early, opts={"create_ok": 0}))
        sc.append(mk(R, "watch-early%d" % early, 1, early=early))
        for kind in (0, 1, 2):
            for n in (2, 3):
                sc.append(mk(R, "fork%d-%d-early%d" % (kind, n, early), n, early=early, kind=kind))
    sc.append(mk(R, "handler", 6))
    sc.append(mk(R, "first-create-interrupted", 8, 3))
    for kind in (0, 1):
        sc.append(mk(R, "exit%d" % kind, 9, kind=kind))
    for pre in (1, 2, 3):
        sc.append(mk(R, "start-interrupted%d" % pre, 4 if pre != 1 else 7, pre))
    for pre in (1, 3):
        sc.append(mk(R, "create-interrupted%d" % pre, 5, pre))
    return sc


def check(ctx):
    ctx.run(scns(Rl))
