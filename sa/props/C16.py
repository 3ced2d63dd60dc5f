"""locks and thread entries under interference"""
from fw import *
EXPLAIN = ("Interference analysis: a victim operation (thread creation, start, end) of one thread is interrupted at every shared access, atomic operation, callback and external call by a whole operation of "
           "another thread (creation, start, life, broadcast, process exit begin) or by a broadcast in a signal handler of the same thread; afterwards new threads are made and the set reached by a broadcast "
           "must be exactly the live threads, once each, with their own data. States from which no continuation ends (a lock that stays taken, a handler waiting for the code it "
           "interrupted) are violations. Sequences with failing creations, ignored and cancelled threads and forked children check that every lock is free again.")

COMMON = r'''
static char arg[16], pre[16], dat[16];
static int did, cnt, begun[16], dead[16], stay[16];
void *monitor_init_process(int *c, char **v, void *d) { return vf_ptr("p"); }
size_t monitor_reset_stacksize(size_t n) { return n; }
void *monitor_thread_pre_create(void) { return vf_ptr("pre"); }
void *monitor_init_thread(int t, void *d) { int k = vf_cur(); begun[k] = 1; return &dat[k]; }
void monitor_fini_thread(void *d) { vf_assert(d == (void *) &dat[vf_cur()], "fini-thread gets another thread's data"); }
static void ask(void) { vf_assert(monitor_get_user_data() == (void *) &dat[vf_cur()], "a live thread lost its entry to another thread"); }
static void *body(void *a)
{
  int k = vf_cur();
  ask();
  if (stay[k]) vf_park();
  dead[k] = 1;
  return a;
}
static void run(void) { vf_run_thread(vf_cur()); }
static void mk(void) { pthread_t t; pthread_create(&t, 0, body, 0); cnt++; }
static void one(void) { int n = vf_nthreads(); mk(); if (vf_nthreads() > n) vf_as(n + 1, run); }
static int lset(int me)
{
  int i, m = me ? 1 : 0;
  for (i = 1; i < 9; i++) if (i != me && begun[i] && !dead[i]) m |= 1 << i;
  return m;
}
static void bc(void)
{
  vf_mark("bcast", lset(vf_cur()));
  vf_mark("done", monitor_broadcast_signal(37));
}
static void *last(void *a) { ask(); begun[vf_cur()] = 1; bc(); dead[vf_cur()] = 1; return a; }
static void final(void)
{
  pthread_t t;
  int i, n = vf_nthreads();
  vf_setself(0);
  for (i = 1; i <= n; i++) if (!begun[i]) { stay[i] = 1; vf_as(i, run); }
  bc();
  for (i = 1; i <= n; i++) if (begun[i] && !dead[i]) vf_as(i, ask);
  pthread_create(&t, 0, last, 0);
  vf_assume(vf_nthreads() == n + 1);
  vf_as(n + 1, run);
  for (i = 1; i <= n; i++) if (begun[i] && !dead[i]) vf_as(i, ask);
  bc();
  vf_mark("over");
  vf_end();
}
'''
PAIR = COMMON + r'''
void vf_preempt(void)
{
  int me = vf_cur();
  if (did) return;
  did = 1;
  if (INTR == 0) vf_as(2, run);
  else if (INTR == 1) { stay[2] = 1; vf_as(2, run); }
  else if (INTR == 2) vf_as(0, mk);
  else if (INTR == 3) { vf_as(0, mk); if (vf_nthreads() > me + WARM) vf_as(vf_nthreads(), run); }
  else if (INTR == 4) vf_as(1, mk);
  else if (INTR == 5) vf_as(1, one);
  vf_setself(me);
}
int app_main(int argc, char **argv, char **envp)
{
  did = 1;
  mk();
  if (INTR < 2) mk();
  vf_assume(vf_nthreads() == cnt);
  if (INTR >= 4) { stay[1] = 1; vf_as(1, run); }
  if (WARM) { mk(); vf_assume(vf_nthreads() == cnt); stay[cnt] = WARM == 2; vf_as(cnt, run); }
  did = 0;
  vf_preempt_on();
  if (VICT == 0) vf_run_thread(1);
  else if (VICT == 1) mk();
  vf_preempt_off();
  did = 1;
  final();
  return 0;
}
void vf_main(void) { START(app_main); }
'''

# a thread that starts while the process ends, then the end of another one and a broadcast
LATE = COMMON + r'''
static int rounds;
static void end1(void) { if (BC) vf_mark("r", monitor_broadcast_signal(37)); else if (vf_nthreads() > 2) vf_run_thread(3); vf_mark("over"); }
void vf_on_sleep(void)
{
  int me = vf_cur();
  if (rounds++) vf_end();
  vf_as(2, run);
  vf_mark("refused");
  vf_as(BC ? 1 : 3, end1);
  vf_setself(me);
  vf_end();
}
int app_main(int argc, char **argv, char **envp)
{
  did = 1;
  mk(); mk(); mk();
  stay[1] = 1;
  vf_as(1, run);
  did = 1;
  exit(0);
  return 0;
}
void vf_main(void) { START(app_main); }
'''

HAND = COMMON + r'''
static int bad;
void vf_preempt(void) { if (did) return; did = 1; monitor_broadcast_signal(37); monitor_get_thread_num(); monitor_is_threaded(); monitor_get_user_data(); }
static int chnd(int s, siginfo_t *i, void *c) { return 0; }
int app_main(int argc, char **argv, char **envp)
{
  did = 1;
  if (WARM) { mk(); stay[1] = 1; vf_as(1, run); mk(); vf_as(cnt, run); }
  did = 0;
  vf_preempt_on();
  if (VICT == 0) mk();
  else if (VICT == 1) { mk(); vf_run_thread(cnt); }
  else if (VICT == 2) { monitor_sigaction(10, chnd, 0, 0); signal(12, SIG_IGN); }
  else if (VICT == 3) { exit(0); }
  vf_preempt_off();
  did = 1;
  vf_mark("seen");
  final();
  return 0;
}
void vf_main(void) { START(app_main); }
'''

SEQ = COMMON + r'''
static void *ender(void *a)
{
  vf_mark("e");
  switch (vf_choose(0, 2)) {
  case 0: pthread_exit(a);
  case 1: vf_cancel();
  }
  dead[vf_cur()] = 1;
  return a;
}
static void step(void)
{
  pthread_t t;
  int r, n = vf_nthreads();
  switch (vf_choose(0, 4)) {
  case 0: pthread_create(&t, 0, ender, 0); if (vf_nthreads() > n) { r = n + 1; vf_as(r, run); dead[r] = 1; } break;
  case 1: monitor_disable_new_threads(); pthread_create(&t, 0, ender, 0); monitor_enable_new_threads(); if (vf_nthreads() > n) { begun[n + 1] = dead[n + 1] = 1; } break;
  case 2: monitor_broadcast_signal(38); break;
  case 3: if (fork() == 0) { vf_mark("child"); } break;
  case 4: break;
  }
}
int app_main(int argc, char **argv, char **envp)
{
  step();
  step();
  if (EX) { vf_mark("over"); exit(0); }
  vf_mark("seen");
  { int n = vf_nthreads(); pthread_t t; pthread_create(&t, 0, body, 0); if (vf_nthreads() > n) vf_as(n + 1, run); }
  vf_mark("bc");
  vf_mark("r", monitor_broadcast_signal(37));
  vf_mark("over");
  exit(0);
  return 0;
}
void vf_main(void) { START(app_main); }
'''


class Rl(Auto):
    start = dict(on=0, set=0, got=0)
    LOOSE = False

    def ev_mark(self, s, ev):
        if ev.name == "bcast":
            s.update(on=1, set=ev.args[0], got=0)
        elif ev.name == "done":
            if s["on"]:
                s["on"] = 0
                need(ev.args[0] == 0, "a broadcast fails although nothing is using the thread list")
                need(type(s["set"]) is int, "unknown set")
                miss, extra = s["set"] & ~s["got"], s["got"] & ~s["set"]
                need(not miss, "thread %s is alive but no longer known: a broadcast does not reach it" % [k for k in range(16) if miss >> k & 1])
                need(not extra, "thread %s is not alive (or the caller) but still known: a broadcast signals it" % [k for k in range(16) if extra >> k & 1])
        elif ev.name == "r":
            need(ev.args[0] == 0, "a broadcast fails although nothing is using the thread list")

    def ev_x(self, s, ev):
        if ev.name == "pthread_kill" and s["on"]:
            t = ev.args[0]
            need(type(t) is tuple and t[:2] == ("t", "self"), "a broadcast signals something that is no thread")
            need(not s["got"] >> t[2] & 1, "a thread is on the list twice: a broadcast signals it twice")
            s["got"] = s["got"] | 1 << t[2]


class Rh(Auto):
    start = dict(x=0)


def check(ctx):
    t = ctx.tier == "thorough"
    o = {"create_ok": 1, "attr_ok": 1, "malloc_ok": 1}
    sc = []
    for v in (0, 1):
        for i in range(6):
            if v == 1 and i in (2, 3):
                continue
            if v == 0 and i >= 4:
                continue
            for w in (0, 1, 2):
                sc.append(Scn("pair-%d-%d-%d" % (v, i, w), "#define VICT %d\n#define INTR %d\n#define WARM %d\n" % (v, i, w) + PAIR, Rl, opts=o, need=("mark:over", "x:pthread_kill"), ends=False, cap=10 ** 9))
    for i in (0, 1, 4, 5):
        for w in (0, 2):
            sc.append(Scn("failing-create-%d-%d" % (i, w), "#define VICT 1\n#define INTR %d\n#define WARM %d\n" % (i, w) + PAIR, Rl, opts={"attr_ok": 1, "malloc_ok": 1}, need=("mark:over", "x:pthread_kill"), ends=False, cap=10 ** 9))
    for b in (0, 1):
        sc.append(Scn("late-start-%d" % b, "#define BC %d\n" % b + LATE, Rl, opts=o, need=("mark:refused", "mark:over"), ends=False))
    for v in (0, 1, 2, 3):
        for w in (0, 1):
            sc.append(Scn("handler-%d-%d" % (v, w), "#define VICT %d\n#define WARM %d\n" % (v, w) + HAND, Rh, opts=o, need=("mark:over",) if v != 3 else (), ends=False, cap=4000))
    for ex in (0, 1):
        sc.append(Scn("sequences-%d" % ex, "#define EX %d\n" % ex + SEQ, Rl, need=("mark:over", "mark:e", "mark:child"), ends=False, cap=4000))
    ctx.run(sc)
