"""exit shutdown"""
from fw import *
EXPLAIN = ("Typestate analysis of process end with up to three other threads (main included) that react to the shutdown signal in any "
           "order and at any poll round, end by themselves, block the shutdown for a while, stay in fini-thread for ever, or never react, while the clock "
           "advances arbitrarily between rounds; process end by exit, _exit, pthread_exit in main, a fatal signal and exec, from main and from a "
           "side thread. Signals, fini-thread, clock and fini-process are related by one automaton.")

SRC = r'''
static pthread_t th[5];
static int pend[5], blk[5], dead[5], stuck[5], rounds, now = 1000, sd;
int monitor_shootdown_signal(void);
void *monitor_init_process(int *argc, char **argv, void *data) { th[0] = pthread_self(); return vf_ptr("pdata"); }
void *monitor_thread_pre_create(void) { return vf_ptr("pre"); }
void *monitor_init_thread(int t, void *data) { return vf_ptr("tdata"); }
void monitor_begin_process_exit(int how) { vf_mark("begin", EXITER, NT, now); }
int vf_real_pthread_kill(pthread_t t, int s)
{
  int i;
  for (i = 0; i <= NT; i++)
    if (pthread_equal(t, th[i])) { pend[i] = 1; vf_mark("sent", i, s); }
  return 0;
}
static void late(void);
static void react(int k)
{
  int me = vf_cur();
  vf_setself(k);
  pend[k] = 0;
  vf_deliver(monitor_shootdown_signal(), 0);
  vf_setself(me);
}
static void stuckreact(void)
{
  pend[vf_cur()] = 0;
  vf_deliver(monitor_shootdown_signal(), 0);
}
void monitor_fini_thread(void *d)
{
  int k = vf_cur();
  vf_mark("fini-begin", k);
  if (STUCK && k != EXITER && k == 1) { stuck[k] = 1; vf_park(); }
  if (k == EXITER) late();
  vf_mark("fini-end", k);
}
/* threads that did not react in time may do so now */
static void late(void)
{
  int k, me = vf_cur();
  for (k = 0; k <= NT; k++)
    if (k != me && pend[k] && !dead[k] && !stuck[k]) react(k);
}
void monitor_fini_process(int how, void *d) { late(); }
void vf_on_sleep(void)
{
  int k, a;
  rounds++;
  vf_mark("round", now, rounds);
  if (rounds > ROUNDS) vf_end();
  now += DT;
  vf_time(now);
  /* 0: nobody reacts; 1..: one thread reacts; above: thread unblocks or several react */
  a = vf_choose(0, 2);
  if (a == 0 && !IDLE) vf_assume(0);
  if (a == 0) return;
  k = vf_choose(0, NT);
  vf_assume(k != vf_cur() && !dead[k] && !stuck[k]);
  if (IDLE == 2) vf_assume(k != NT);
  if (BLK && blk[k] && a == 2) {
    int me = vf_cur();
    vf_setself(k);
    monitor_unblock_shootdown();
    blk[k] = 0;
    vf_setself(me);
    return;
  }
  if (STUCK) { vf_as(k, stuckreact); return; }
  vf_assume(pend[k]);
  react(k);
  if (a == 2) {
    /* everyone else reacts in the same round */
    for (k = 0; k <= NT; k++)
      if (k != vf_cur() && pend[k] && !dead[k]) react(k);
  }
}
static void doexit(void)
{
  sigset_t s;
  vf_mark("doexit");
  if (KIND == 0) exit(3);
  if (KIND == 1) _exit(3);
  if (KIND == 2) pthread_exit(0);
  if (KIND == 3) vf_deliver(15, 0);
  if (KIND == 4) execve("/bin/x", 0, 0);
}
static void more(int i);
static void *body(void *a)
{
  int k = vf_cur();
  vf_mark("app", k);
  vf_setself(0);
  more(k + 1);
  vf_end();
  return a;
}
static void more(int i)
{
  if (i > NT) {
    if (BLK && BLK < 9) { vf_setself(BLK); monitor_block_shootdown(); blk[BLK] = 1; }
    if (BLK == 9) { vf_setself(0); monitor_block_shootdown(); blk[0] = 1; }
    vf_setself(EXITER);
    doexit();
    vf_end();
  }
  pthread_create(&th[i], 0, body, 0);
  vf_assume(vf_nthreads() == i);
  vf_run_thread(i);
}
int app_main(int argc, char **argv, char **envp)
{
  vf_time(now);
  more(1);
  return 0;
}
void vf_main(void) { START(app_main); }
'''


class Rl(Auto):
    start = dict(on=0, started=frozenset(), done=frozenset(), sent=frozenset(), last=0, end=0)
    EX = 0
    NT = 1

    def ev_mark(self, s, ev):
        n = ev.name
        if n == "begin":
            s.update(on=1, last=ev.args[2], now=ev.args[2], sent=frozenset())
        elif n == "sent" and s["on"]:
            k = ev.args[0]
            need(k != self.EX, "the exiting thread signals itself")
            need(self.EX not in s["started"], "a thread is signalled after the exiting thread's own fini-thread started")
            need(k not in s["started"], "a thread is signalled although its fini-thread has started")
            s["sent"] = s["sent"] | {k}
        elif n == "round":
            un = self.all() - s["started"]
            need(un <= s["sent"], "a running thread that has not reacted is not signalled (again)")
            need(not (self.all() <= s["done"]), "the exiting thread goes on waiting although every thread has finished")
            if un and s.get("old") is not None:
                # `un` is not empty and the clock passed the limit in an earlier round without any progress
                need(not s.get("late"), "the exiting thread does not give up on threads that do not react")
            s["late"] = 0
            s["sent"] = frozenset()
            s["now"] = ev.args[0] + self.DT
            if not s.get("prog") and s["now"] - s["last"] > 15 and un:
                s["late"] = 1
            s["old"] = 1
            s["prog"] = 0
        elif n == "fini-begin":
            k = ev.args[0]
            need(k not in s["started"], "fini-thread delivered twice")
            need(s["on"] != 2, "fini-thread delivered after fini-process has begun")
            if k == self.EX:
                need(self.EX != 0, "the main thread gets fini-thread although it ends the process itself")
                left = self.all() - s["done"]
                if left:
                    self.gaveup(s, left)
                s["gone"] = 1
            else:
                need(not s.get("gone"), "another thread's fini-thread starts after the exiting thread's")
            s["started"] = s["started"] | {k}
            if k != self.EX:
                s["prog"] = 1
                s["late"] = 0
                s["last"] = s["now"]
        elif n == "fini-end":
            s["done"] = s["done"] | {ev.args[0]}

    def all(self):
        return frozenset(range(self.NT + 1)) - {self.EX}

    def gaveup(self, s, left):
        un = left - s["started"]
        need(un, "process end goes on although a fini-thread that has started has not finished")
        need(s["now"] - s["last"] >= 10, "process end gives up on a thread that may still react within the time limit")

    def ev_cb(self, s, ev):
        if ev.name == "monitor_fini_process":
            need(s["on"] == 1, "fini-process without begin-exit")
            s["on"] = 2
            left = self.all() - s["done"]
            if left:
                self.gaveup(s, left)
            if self.EX != 0:
                need(self.EX in s["done"], "the exiting thread gets no fini-thread before fini-process")


def mk(name, nt, ex, kind=0, dt=1, idle=1, blk=0, stuck=0, rounds=4, modes=("dynamic", "static")):
    s = "".join("#define %s %d\n" % kv for kv in (("NT", nt), ("EXITER", ex), ("KIND", kind), ("DT", dt), ("IDLE", idle), ("BLK", blk),
                                                   ("STUCK", stuck), ("ROUNDS", rounds)))
    return Scn(name, s + SRC, type("R", (Rl,), {"EX": ex, "NT": nt, "DT": dt}), modes=modes,
               opts={"create_ok": 1, "attr_ok": 1, "malloc_ok": 1}, need=("mark:round",) + (() if stuck else ("cb:monitor_fini_process",)), ends=False, cap=1500)


def check(ctx):
    th = ctx.tier == "thorough"
    sc = []
    for nt, ex in ((1, 0), (1, 1), (2, 0), (2, 1), (2, 2)) + (((3, 0), (3, 2)) if th else ()):
        for dt in (1, 6, 9, 100):
            sc.append(mk("n%d-exiter%d-dt%d" % (nt, ex, dt), nt, ex, 0, dt, rounds=6 if th else 4))
        sc.append(mk("n%d-exiter%d-stuck" % (nt, ex), nt, ex if ex != 1 else 0, 0, 100, stuck=1, rounds=4))
        sc.append(mk("n%d-exiter%d-onesilent" % (nt, ex), nt, ex if ex != nt else 0, 0, 4, idle=2, rounds=6))
    sc.append(mk("prompt", 2, 0, 0, 1, idle=0, rounds=6))
    for kind in (1, 2, 3, 4):
        for ex in (0, 1):
            if kind == 2 and ex:
                continue
            sc.append(mk("kind%d-exiter%d" % (kind, ex), 1, ex, kind, 6))
    for ex, blk in ((0, 1), (0, 2), (1, 2), (1, 9)):
        sc.append(mk("blocked%d-exiter%d" % (blk, ex), 2, ex, 0, 1, blk=blk, rounds=5))
    ctx.run(sc)
