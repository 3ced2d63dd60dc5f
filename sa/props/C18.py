"""broadcast"""
from fw import *
EXPLAIN = ("Value and typestate analysis of the broadcast over all combinations of thread states (not begun, in init-thread, running, in "
           "fini-thread, ended, ignored, cancelled before it started, shutdown blocked) of two threads (three in thorough mode) and all callers; in a signal handler at every shared "
           "point of a thread's creation and end; and during process end started by main or a side thread. The set of threads signalled is compared with the set demanded.")

SRC = r'''
static int st[8], nt, N0, left;
static void go(int i);
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
void *monitor_thread_pre_create(void) { return vf_ptr("pre"); }
static int cont(int s)
{
  int k = vf_cur();
  if (k < 1 || st[k] != s) return 0;
  vf_setself(0);
  go(k + 1);
  vf_end();
  return 1;
}
void *monitor_init_thread(int t, void *data)
{
  int k = vf_cur();
  cont(1);
  if (st[k] == 6) { vf_cancel(); }
  return vf_ptr("tdata");
}
void monitor_fini_thread(void *d) { cont(3); }
static void *body(void *a)
{
  int k = vf_cur();
  if (st[k] == 7) monitor_block_shootdown();
  cont(2);
  cont(5);
  cont(7);
  return a;
}
static void go(int i)
{
  pthread_t t;
  int c, r;
  if (i > NT) {
    c = vf_choose(0, NT);
    if (c > 0) { vf_assume(st[c] == 1 || st[c] == 2 || st[c] == 3 || st[c] == 5 || st[c] == 7); vf_setself(c); }
    if (ONLY) vf_assume(c == 0 || c == NT);
    vf_mark("bcast", c, st[1], st[2], st[3]);
    r = monitor_broadcast_signal(37);
    vf_mark("done", r);
    vf_mark("bcast", c, st[1], st[2], st[3]);
    r = monitor_broadcast_signal(38);
    vf_mark("done", r);
    vf_end();
  }
  st[i] = vf_choose(0, 7);
  if (ONLY) vf_assume(st[i] != 6 && st[i] != 7 && st[i] != 0);
  if (st[i] == 5) monitor_disable_new_threads();
  pthread_create(&t, 0, body, 0);
  if (st[i] == 5) monitor_enable_new_threads();
  vf_assume(vf_nthreads() == i);
  if (st[i] != 0) vf_run_thread(i);
  vf_setself(0);
  go(i + 1);
  vf_end();
}
int app_main(int argc, char **argv, char **envp)
{
  int r;
  vf_mark("bcast", 0, 0, 0, 0);
  r = monitor_broadcast_signal(37);
  vf_mark("done", r);
  go(1);
  return 0;
}
void vf_main(void)
{
  int r;
  vf_mark("bcast", 0, 0, 0, 0);
  r = monitor_broadcast_signal(37);
  vf_mark("done", r);
  START(app_main);
}
'''

# a handler that broadcasts, at every shared point of thread 2's creation, life and end (thread 1 runs)
PRE = r'''
static int phase;
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
void *monitor_thread_pre_create(void) { return vf_ptr("pre"); }
void *monitor_init_thread(int t, void *data) { return vf_ptr("tdata"); }
static void *p2(void *a) { vf_mark("app2"); vf_mark("end2"); if (END) pthread_exit(a); return a; }
void monitor_fini_thread(void *d) { if (vf_cur() == 2) vf_mark("fini2"); }
void vf_preempt(void)
{
  int r, me = vf_cur();
  if (OTHER) vf_setself(1);
  vf_mark("bcast", vf_cur());
  r = monitor_broadcast_signal(37);
  vf_mark("done", r);
  vf_setself(me);
}
static void *p1(void *a)
{
  pthread_t t;
  vf_setself(0);
  vf_mark("app1");
  vf_preempt_on();
  pthread_create(&t, 0, p2, 0);
  if (vf_nthreads() == 2) vf_run_thread(2);
  vf_preempt_off();
  vf_mark("dead2");
  vf_mark("bcast", 0);
  vf_mark("done", monitor_broadcast_signal(37));
  vf_end();
  return a;
}
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  pthread_create(&t, 0, p1, 0);
  vf_assume(vf_nthreads() == 1);
  vf_run_thread(1);
  return 0;
}
void vf_main(void) { START(app_main); }
'''

# during process end
EXIT = r'''
int monitor_shootdown_signal(void);
static int rounds;
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
void *monitor_thread_pre_create(void) { return vf_ptr("pre"); }
void *monitor_init_thread(int t, void *data) { return vf_ptr("tdata"); }
static void bc(void)
{
  int me = vf_cur(), c = vf_choose(0, 2);
  vf_assume(c != me);
  vf_setself(c);
  vf_mark("bcast", c);
  vf_mark("done", monitor_broadcast_signal(37));
  vf_setself(me);
}
void monitor_begin_process_exit(int how) { bc(); }
void vf_on_sleep(void)
{
  int k = vf_choose(0, 2);
  rounds++;
  if (rounds > 2) vf_end();
  if (rounds == 2) bc();
  vf_assume(k != vf_cur());
  if (k != EXITER) {
    int me = vf_cur();
    vf_setself(k);
    vf_deliver(monitor_shootdown_signal(), 0);
    vf_setself(me);
  }
  bc();
}
void monitor_fini_thread(void *d)
{
  vf_mark("fini");
  if (CB) bc();
}
void monitor_fini_process(int how, void *d) { if (CB) bc(); vf_end(); }
static void *p2(void *a) { vf_mark("app2"); vf_setself(EXITER); exit(0); return a; }
static void *p1(void *a)
{
  pthread_t t;
  vf_setself(0);
  vf_mark("app1");
  pthread_create(&t, 0, p2, 0);
  vf_assume(vf_nthreads() == 2);
  vf_run_thread(2);
  return a;
}
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  pthread_create(&t, 0, p1, 0);
  vf_assume(vf_nthreads() == 1);
  vf_run_thread(1);
  return 0;
}
void vf_main(void) { START(app_main); }
'''


class Base(Auto):
    start = dict(on=0)

    def ev_x(self, s, ev):
        if ev.name == "pthread_kill" and s["on"]:
            t = ev.args[0]
            need(type(t) is tuple and t[:2] == ("t", "self"), "broadcast signals something that is no thread")
            k = "k%d" % t[2]
            need(ev.args[1] in (37, 38), "broadcast sends another signal than asked for")
            s[k] = s.get(k, 0) + 1
            need(s[k] == 1, "a thread is signalled twice by one broadcast")
        elif ev.name in ("pthread_kill", "kill", "raise", "tgkill") and s["on"]:
            raise Violation("broadcast uses another way to signal")

    def ev_cb(self, s, ev):
        if s["on"]:
            raise Violation("callback %s during a broadcast" % ev.name)

    def got(self, s):
        g = {int(k[1:]) for k in s if k[0] == "k" and k[1:].isdigit()}
        for k in g:
            del s["k%d" % k]
        return g

    def want(self, s, g, may=(), must=(), fail=False, r=0):
        if r != 0:
            need(fail, "broadcast fails although the thread list is not in use")
            need(r in (-1, 0xffffffff), "broadcast returns an unknown value")
            need(not g, "a failing broadcast sends signals")
            return
        for k in sorted(g):
            need(k in must or k in may, "broadcast signals thread %s, which is the caller, ignored, not started or ended" % ("%d" % k if k else "main"))
        for k in must:
            need(k in g, "broadcast does not reach %s" % ("thread %d" % k if k else "the main thread"))


class Rl(Base):
    def ev_mark(self, s, ev):
        if ev.name == "bcast":
            s.update(on=1, c=ev.args[0], st=tuple(ev.args[1:4]))
        elif ev.name == "done":
            s["on"] = 0
            must = {i + 1 for i, x in enumerate(s["st"][:self.NT]) if x in (2, 7)}
            if s["c"] in must:
                must.discard(s["c"])
            if s["c"] != 0:
                must.add(0)
            self.want(s, self.got(s), must=must, r=ev.args[0])


class Rp(Base):
    start = dict(on=0, run=0, run2=0)

    def ev_mark(self, s, ev):
        n = ev.name
        if n == "bcast":
            s.update(on=1, c=ev.args[0])
        elif n == "done":
            s["on"] = 0
            must, may = {0, 1}, set()
            if s["run2"] == 1:
                must.add(2)
            elif s["run2"] == 2:
                may.add(2)
            self.want(s, self.got(s), may - {s["c"]}, must - {s["c"]}, True, ev.args[0])
        elif n == "app2":
            s["run2"] = 1
        elif n == "end2":
            s["run2"] = 2      # its end has begun: may or may not be reached
        elif n == "fini2":
            s["run2"] = 3
        elif n == "dead2":
            s["run2"] = 4

    def ev_cb(self, s, ev):
        Base.ev_cb(self, s, ev)
        if ev.name == "monitor_init_thread" and ev.st.env["cur"] == 2:
            s["run2"] = 2


class Re(Base):
    start = dict(on=0, fin=frozenset(), ex=0, fini=0)

    def ev_cb(self, s, ev):
        Base.ev_cb(self, s, ev)
        if ev.name == "monitor_fini_thread":
            s["fin"] = s["fin"] | {ev.st.env["cur"]}

    def ev_mark(self, s, ev):
        n = ev.name
        if n == "bcast":
            s.update(on=1, c=ev.args[0])
        elif n == "done":
            s["on"] = 0
            must = ({1, 2} | {0}) - s["fin"]
            self.want(s, self.got(s), {0} - {s["c"]}, must - {s["c"]}, False, ev.args[0])


def check(ctx):
    sc = []
    th = ctx.tier == "thorough"
    o = {"create_ok": 1, "attr_ok": 1, "malloc_ok": 1}
    for n in (1, 2) + ((3,) if th else ()):
        sc.append(Scn("states%d" % n, "#define NT %d\n#define ONLY 0\n" % n + SRC, type("R", (Rl,), {"NT": n}), opts=o, need=("mark:done", "x:pthread_kill"), ends=False))
    if not th:
        sc.append(Scn("states3", "#define NT 3\n#define ONLY 1\n" + SRC, type("R", (Rl,), {"NT": 3}), opts=o, need=("mark:done", "x:pthread_kill"), ends=False))
    for end in (0, 1):
        for other in (0, 1):
            sc.append(Scn("handler-end%d-other%d" % (end, other), "#define END %d\n#define OTHER %d\n" % (end, other) + PRE, Rp, opts=o,
                          need=("mark:done", "x:pthread_kill", "mark:fini2"), ends=False))
    for ex in (0, 1, 2):
        for cb in (0, 1):
            sc.append(Scn("exit%d-cb%d" % (ex, cb), "#define EXITER %d\n#define CB %d\n" % (ex, cb) + EXIT, Re, opts=o,
                          need=("mark:done", "x:pthread_kill"), ends=False))
    ctx.run(sc)
