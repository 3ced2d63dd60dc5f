"""thread start"""
from fw import *
EXPLAIN = ("Typestate and value analysis of the code a monitored thread runs, from its first instruction in the library to its end by "
           "return, pthread_exit (from the routine, from a nested call) or cancellation, for several threads started in any order, "
           "created by main or by another thread and with recycled entries: init-thread exactly once and first, then exactly the "
           "application's routine with its argument, and the result seen by joiners is the application's.")

SRC = r'''
static int npre;
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
void *monitor_thread_pre_create(void) { npre++; return npre == 1 ? vf_ptr("pre1") : npre == 2 ? vf_ptr("pre2") : vf_ptr("pre3"); }
void *monitor_init_thread(int t, void *data)
{
  vf_mark("inited", monitor_get_thread_num(), monitor_get_addr_thread_start());
  return vf_ptr("tdata");
}
static void leave(int e, void *v)
{
  vf_mark("leaving", v);
  if (e == 1) pthread_exit(v);
  if (e == 2) { vf_cancel(); vf_end(); }
}
static void *b1(void *a)
{
  vf_mark("app", 1, a, (void *) monitor_get_addr_thread_start(), (void *) b1, monitor_get_thread_num());
  if (NEST) {
    pthread_t t;
    vf_mark("create", vf_ptr("arg3"), 3);
    pthread_create(&t, 0, b3, vf_ptr("arg3"));
    vf_assume(vf_nthreads() == (NT == 1 ? 2 : 3));
    vf_run_thread(vf_nthreads());
    vf_mark("again", 1, monitor_get_thread_num(), (void *) monitor_get_addr_thread_start(), (void *) b1);
  }
  leave(E1, vf_any("v1"));
  return vf_any("v1");
}
static void *b2(void *a)
{
  vf_mark("app", 2, a, (void *) monitor_get_addr_thread_start(), (void *) b2, monitor_get_thread_num());
  leave(E2, vf_any("v2"));
  return vf_any("v2");
}
static void *b3(void *a)
{
  vf_mark("app", 3, a, (void *) monitor_get_addr_thread_start(), (void *) b3, monitor_get_thread_num());
  leave(E2, vf_any("v3"));
  return vf_any("v3");
}
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  vf_mark("create", vf_ptr("arg1"), 1);
  pthread_create(&t, 0, b1, vf_ptr("arg1"));
  if (SEQ) { vf_run_thread(1); vf_mark("joined", 1); }
  if (NT == 2) {
    vf_mark("create", vf_ptr("arg2"), 2);
    pthread_create(&t, 0, b2, vf_ptr("arg2"));
    vf_run_thread(2);
    vf_mark("joined", 2);
  }
  if (!SEQ) { vf_run_thread(1); vf_mark("joined", 1); }
  return 0;
}
void vf_main(void) { START(app_main); }
'''


class Rl(Auto):
    start = dict(n=0)
    ends = {1: 0, 2: 0, 3: 0}

    def ev_mark(self, s, ev):
        k = ev.st.env["cur"]
        if ev.name == "create":
            s["n"] += 1
            s["order%d" % s["n"]] = (ev.args[1], ev.args[0], s["n"])
        elif ev.name == "inited":
            need(s.get("t%d" % k, (0,))[0] == 2, "init-thread runs outside its thread")
            need(ev.args[0] == s["t%d" % k][1], "thread number inside init-thread differs from the one reported to it")
        elif ev.name == "app":
            t = s.get("t%d" % k)
            need(t and t[0] == 2, "the application's routine runs without or before init-thread, or twice")
            which, arg, _ = s["order%d" % k]
            need(ev.args[0] == which, "another thread's routine is run")
            need(ev.args[1] == arg, "the routine does not get its argument")
            need(ev.args[2] == ev.args[3], "the reported thread start address is not the application's routine")
            need(ev.args[4] == t[1], "the thread number differs from the one given to init-thread")
            s["t%d" % k] = (3, t[1], which)
        elif ev.name == "again":
            t = s["t%d" % k]
            need(ev.args[1] == t[1] and ev.args[2] == ev.args[3], "thread number or start address change while the thread runs")
        elif ev.name == "leaving":
            s["v%d" % k] = ev.args[0]

    def ev_env(self, s, ev):
        if ev.name == "thread_begin":
            k = ev.args[0]
            s["t%d" % k] = (1,)
        elif ev.name == "thread_end":
            k = ev.args[0]
            t = s["t%d" % k]
            need(t[0] == 3, "a thread ends without running the application's routine")
            if self.ends[t[2]] == 0:
                need(ev.args[1] == s["v%d" % k], "the value the routine returned is not what joiners see")
            elif self.ends[t[2]] == 1:
                need(t[0] == 3 and s.get("px%d" % k) == 1, "pthread_exit does not reach the real pthread_exit")
                need(ev.args[1] == ("t", "any", "unwound"), "a thread that called pthread_exit goes on")
            else:
                need(ev.args[1] == ("t", "any", "unwound"), "a cancelled thread goes on")

    def ev_cb(self, s, ev):
        if ev.name == "monitor_init_thread":
            k = ev.st.env["cur"]
            t = s.get("t%d" % k)
            need(t and t[0] == 1, "init-thread delivered twice, late or in the wrong thread")
            need(ev.args[1] == ("t", "any", "pre%d" % k), "init-thread does not receive the value of its pre-create")
            need(type(ev.args[0]) is int and ev.args[0] > 0, "init-thread gets no thread number")
            s["t%d" % k] = (2, ev.args[0])

    def ev_x(self, s, ev):
        if ev.name == "pthread_exit":
            k = ev.st.env["cur"]
            need(ev.args[0] == s.get("v%d" % k), "pthread_exit passes on a different value")
            s["px%d" % k] = 1
        if ev.name in ("errx", "exit", "_exit") and ev.st.env["cur"] != 0:
            raise Violation("a thread that ends ends the process")


def mk(name, nt, seq, nest, e1, e2, modes=("dynamic", "static"), debug=0):
    s = "#define NT %d\n#define SEQ %d\n#define NEST %d\n#define E1 %d\n#define E2 %d\nstatic void *b3(void *);\n" % (nt, seq, nest, e1, e2) + SRC
    cls = type("R", (Rl,), {"ends": {1: e1, 2: e2, 3: e2}})
    return Scn(name, s, cls, modes=modes, opts={"create_ok": 1, "attr_ok": 1, "malloc_ok": 1, "debug": debug}, need=("cb:monitor_init_thread", "mark:app", "mark:joined"))


def check(ctx):
    sc = []
    for e1 in (0, 1, 2):
        sc.append(mk("one-%d" % e1, 1, 0, 0, e1, 0))
        for e2 in (0, 1, 2):
            for seq in (0, 1):
                sc.append(mk("two-%d%d-seq%d" % (e1, e2, seq), 2, seq, 0, e1, e2))
            sc.append(mk("nested-%d%d" % (e1, e2), 1, 0, 1, e1, e2))
    ctx.run(sc)
