"""fini-thread exactly once"""
from fw import *
EXPLAIN = ("Interference analysis: while a monitored thread starts, runs and ends (return, pthread_exit, cancellation, in sigwait, with the "
           "shutdown blocked for a while), another thread begins process exit at any shared point, and the shutdown signal it sends is "
           "delivered to the thread at that or any later shared point, up to two times; the automaton counts fini-thread per thread "
           "and checks thread, data and that application code had started.")

SRC = r'''
#include "%(here)s/drv/thr.h"
int monitor_shootdown_signal(void);
static int phase, nsig, parked;
static void *body(void *a);
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
void *monitor_thread_pre_create(void) { return vf_ptr("tpre"); }
void *monitor_init_thread(int t, void *data)
{
  if (E == 5) { vf_mark("leave"); vf_cancel(); }
  return vf_ptr("tdata");
}
void monitor_begin_process_exit(int how) { }
static void main_exits(void) { vf_mark("exit"); exit(0); }
/* the exiting thread waits for the others: stop looking at it, go on with the others */
void vf_on_sleep(void)
{
  if (phase == 1) { phase = 2; if (SPUR) pk_s = monitor_shootdown_signal(); if (pk_s == 0) vf_end(); vf_mark("parked"); vf_park(); }
  vf_end();
}
#if SPUR
int vf_real_gettimeofday(struct timeval *tv, void *z) { vf_on_sleep(); return 0; }
#endif
void vf_preempt(void)
{
  if (vf_cur() != 1) vf_end();
  if (phase == 0) { phase = 1; vf_setself(EXITER); main_exits(); vf_end(); }
  /* the signal sent earlier arrives */
  nsig++;
  if (nsig < NSIG) vf_rearm();
  vf_deliver(pk_s, 0);
}
int vf_real_sigwaitinfo(const sigset_t *s, siginfo_t *i)
{
  if (phase == 2) { nsig++; if (nsig == 1) return pk_s; }
  if (phase == 0) { phase = 1; vf_as(EXITER, main_exits); nsig++; return pk_s; }
  return 12;
}
static void *body(void *a)
{
  vf_mark("app");
  if (E == 6) {
    monitor_block_shootdown();
    monitor_get_thread_num();
    monitor_unblock_shootdown();
  }
  if (E == 4) {
    sigset_t s;
    sigemptyset(&s);
    sigaddset(&s, 12);
    if (IN) sigaddset(&s, monitor_shootdown_signal());
    sigwaitinfo(&s, 0);
  }
  vf_mark("leave");
  if (E == 1) pthread_exit(a);
  if (E == 2) { vf_cancel(); vf_end(); }
  if (E == 7) exit(0);
  return a;
}
static void *holder(void *a)
{
  pthread_t t;
  vf_setself(0);
  pthread_create(&t, 0, body, 0);
  vf_setself(1);
  return a;
}
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  pthread_create(&t, 0, body, 0);
  vf_assume(vf_nthreads() == 1);
  vf_preempt_on();
  vf_run_thread(1);
  vf_preempt_off();
  vf_mark("over");
  if (PLAIN) { phase = 3; return 0; }
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''


class Rl(Auto):
    start = dict(app=0, fini=0, ini=0, ended=0)
    E = 0

    def ev_mark(self, s, ev):
        if ev.name == "app":
            s["app"] = 1

    def ev_cb(self, s, ev):
        if ev.name == "monitor_init_thread":
            s["ini"] = 1
        if ev.name == "monitor_fini_thread":
            k = ev.st.env["cur"]
            if k != 1:
                raise Violation("fini-thread delivered in the wrong thread")
            need(s["fini"] == 0, "fini-thread delivered twice")
            need(not s["ended"], "fini-thread delivered after the thread ended")
            need(s["ini"] == 1, "fini-thread delivered before init-thread")
            if self.E == 5:
                raise Violation("fini-thread delivered although the application's code was never started")
            need(ev.args[0] == ("t", "any", "tdata"), "fini-thread does not receive the thread's data")
            s["fini"] = 1
        if ev.name == "monitor_fini_process":
            if s["app"]:
                need(s["fini"] == 1, "the process is finished although a running thread got no fini-thread")

    def ev_env(self, s, ev):
        if ev.name == "thread_end" and ev.args[0] == 1:
            if s["app"]:
                need(s["fini"] == 1, "a thread ended without fini-thread")
            s["ended"] = 1


def mk(name, E, nsig=1, plain=0, inn=0, exiter=0, spur=0, modes=("dynamic", "static")):
    s = "#define E %d\n#define NSIG %d\n#define PLAIN %d\n#define IN %d\n#define EXITER %d\n#define SPUR %d\n" % (E, nsig, plain, inn, exiter, spur) + SRC % {"here": HERE}
    if plain:
        s = s.replace("vf_preempt_on();", "")
    n = ["mark:parked"] if not plain and E not in (5, 7) else []
    if E not in (5,):
        n.append("cb:monitor_fini_thread")
    return Scn(name, s, type("R", (Rl,), {"E": E}), modes=modes, opts={"create_ok": 1, "attr_ok": 1, "malloc_ok": 1}, need=n, ends=plain or False, cap=1500)


NAMES = {0: "return", 1: "pthread_exit", 2: "cancel", 3: "return", 4: "sigwait", 5: "cancel-in-init", 6: "blocked", 7: "exit"}


def check(ctx):
    sc = []
    for e in (0, 1, 2, 5, 6):
        sc.append(mk("%s-alone" % NAMES[e], e, plain=1))
    for e in (0, 1, 2, 4, 5, 6):
        for n in (1, 2):
            sc.append(mk("%s-signal%d" % (NAMES[e], n), e, n))
            if e == 4:
                sc.append(mk("sigwait-in-set-signal%d" % n, e, n, inn=1))
    # the shutdown signal sent by someone else (kill of the whole process) once process end began
    sc += [mk("%s-foreign-signal" % NAMES[e], e, 1, spur=1) for e in (0, 5, 6)]
    ctx.run(sc)
