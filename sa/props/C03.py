"""concurrent process exit"""
from fw import *
EXPLAIN = ("Two threads end the process concurrently: the second thread is inserted before every shared-memory access, atomic "
           "operation, callback and external call of the first one (interference at every program point); the exit automaton must "
           "hold on all resulting paths and no thread may reach the real terminating call before fini-process has returned. "
           "A second family checks that a late thread is released once the winner is done.")

SRC = r'''
#include "%(here)s/drv/thr.h"
static int late, nreal;
static void leave(int r, int who)
{
  vf_mark("leave");
  if (r == 1) exit(who ? vf_anyint("sB") : vf_anyint("sA"));
  if (r == 2) _exit(who ? vf_anyint("sB") : vf_anyint("sA"));
  if (r == 3) vf_deliver(15, 0);
  if (r == 4) execve("/bin/x", (char **) vf_ptr("av"), (char **) vf_ptr("ev"));
  vf_end();
}
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
void monitor_fini_process(int how, void *data) { vf_mark("in_fini"); vf_mark("fini_done"); }
void vf_on_sleep(void) { pk_react(); }
#if LATE
void vf_real_exit(int s)
{
  vf_mark("real", s);
  if (!late) { late = 1; vf_setself(1); leave(RB, 1); }
  vf_mark("released");
  vf_exit_now();
}
#else
void vf_preempt(void) { if (vf_cur() != MAINB) vf_end(); vf_setself(1 - MAINB); pk_other = MAINB; leave(RB, 1); }
#endif
static void *body(void *a)
{
  pk_other = 1 - MAINB;
  vf_setself(MAINB);
  vf_preempt_on();
  leave(RA, 0);
  return a;
}
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  pthread_create(&t, 0, body, 0);
  vf_assume(vf_nthreads() == 1);
  vf_run_thread(1);
  return 0;
}
void vf_main(void) { START(app_main); }
'''


class Rl(Auto):
    start = dict(begin=0, fini=0, done=0, real=0, rel=0, acc=0)
    late = 0

    def ev_cb(self, s, ev):
        if ev.name == "monitor_begin_process_exit":
            need(s["begin"] == 0, "begin-process-exit delivered twice")
            s["begin"] = 1
        if ev.name == "monitor_fini_process":
            need(s["fini"] == 0, "fini-process delivered twice")
            need(s["begin"] == 1, "fini-process before begin-process-exit")
            need(ev.args[1] == ("t", "any", "pdata"), "fini-process does not receive the process data")
            s["fini"] = 1
        if ev.name == "monitor_fini_library":
            need(s["done"], "fini-library delivered before fini-process finished")

    def ev_mark(self, s, ev):
        if ev.name == "fini_done":
            s["done"] = 1
        if ev.name == "released":
            s["rel"] = 1

    def ev_x(self, s, ev):
        if ev.name in ("exit", "_exit", "_Exit", "execve", "execv", "execvp"):
            if not ev.name.startswith("exec") or s["acc"]:
                need(s["done"], "a thread ends the process while fini-process is still pending")
            if s["real"]:
                s["rel"] = 1
            s["real"] = 1
        if ev.name == "access":
            s["acc"] = 1 if ev.ret == 0 else 0

    def ev_env(self, s, ev):
        if ev.name == "killed":
            need(s["done"], "a thread ends the process while fini-process is still pending")


class Late(Rl):
    def at_end(self, s, how, st):
        if how.startswith("terminated"):
            need(s["done"], "the process ends without fini-process")
            if how != "terminated:execve":
                need(s["rel"] or how.startswith("terminated:signal"), "a thread that exits late is not released")


def src(a, b, late, mainb=0):
    return "#define RA %d\n#define RB %d\n#define LATE %d\n#define MAINB %d\nvoid vf_exit_now(void);\n" % (a, b, late, mainb) + \
        SRC % {"here": HERE}


def check(ctx):
    rn = {1: "exit", 2: "_exit", 3: "signal", 4: "exec"}
    sc = []
    o = {"create_ok": 1, "attr_ok": 1, "yield": 1}
    pairs = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (4, 1)] if ctx.tier == "quick" else \
        [(a, b) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4)]
    for a, b in pairs:
        for mb in (0, 1):
            sc.append(Scn("race-%s-%s-%d" % (rn[a], rn[b], mb), src(a, b, 0, mb), Rl, opts=o, need=("cb:monitor_fini_process",)))
    for b in (1, 2):
        sc.append(Scn("late-exit-%s" % rn[b], src(1, b, 1), Late, opts=o, need=("mark:released",) if b == 1 else ()))
    ctx.run(sc)
