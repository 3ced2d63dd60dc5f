"""process exit protocol over every exit route"""
from fw import *
EXPLAIN = ("Typestate analysis of process termination: for every exit route (return from main, exit, _exit, _Exit, pthread_exit "
           "of the main thread, fatal signals, exit from another thread, re-entrant exits from callbacks) all paths to the real "
           "terminating function are checked against the exit automaton, in both link modes.")

SRC = r'''
#include "%(here)s/drv/thr.h"
static int phase;
static pthread_t other;
static int rc(void) { return vf_anyint("status"); }
static void route(int r)
{
  phase = 1;
  vf_mark("leave", r >= 100 ? r : 1);
  switch (r) {
  case 1: exit(rc());
  case 2: _exit(rc());
  case 3: _Exit(rc());
  case 4: pthread_exit(vf_ptr("exitval"));
  }
}
static void again(void)
{
  if (R2) {
    vf_mark("reenter");
    if (R2 == 1) exit(vf_anyint("status2"));
    if (R2 == 2) _exit(vf_anyint("status2"));
    if (R2 == 3) vf_deliver(15, 0);
  }
}
void monitor_begin_process_exit(int how) { if (W == 1) again(); }
void monitor_fini_process(int how, void *data) { if (W == 2) again(); }
void monitor_fini_library(void) { if (W == 3) again(); }
void monitor_fini_thread(void *d) { if (W == 4 && vf_cur() != pk_other) again(); }
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
void vf_on_sleep(void) { pk_react(); }
static void *body(void *a)
{
  if (T == 2) { pk_other = 0; route(R); }            /* the side thread ends the process */
  if (T == 3) { pk_other = 1; vf_setself(0); route(R); if (R == 0) { phase = 1; vf_mark("leave", 1); vf_crt_like(); } }
  return a;
}
int app_main(int argc, char **argv, char **envp)
{
  if (T) {
    pthread_create(&other, 0, body, 0);
    vf_assume(vf_nthreads() == 1);
    vf_run_thread(1);                              /* T==1: the thread has already finished */
  }
  if (T == 4) { pthread_t t2; pthread_create(&t2, 0, body, 0); }
  if (R == 5) {
    int s = vf_choose(1, 31);
    vf_assume(s != 9 && s != 19 && s != 17 && s != 18 && s != 23 && s != 28 && s != 20 && s != 21 && s != 22);
    vf_mark("leave", 100 + s);
    vf_deliver(s, s == 11 || s == 7 || s == 4);
    vf_mark("alive");
  }
  if (R) route(R);
  phase = 1;
  vf_mark("leave", 1);
  return rc();
}
void vf_main(void) { START(app_main); }
'''


class Rl(Auto):
    start = dict(leave=0, begin=0, fini=0, how=0, re=0, end=0, lib=0)
    R2 = 0

    def ev_mark(self, s, ev):
        if ev.name == "leave":
            s["leave"] = ev.args[0]
        elif ev.name == "reenter":
            s["re"] = 1
        elif ev.name == "alive":
            raise Violation("a fatal signal did not terminate the process")

    def ev_cb(self, s, ev):
        n = ev.name
        if n in ("monitor_begin_process_exit", "monitor_fini_process"):
            need(s["leave"], "%s delivered although the process is not ending" % n[8:])
            want = 2 if s["leave"] > 100 else 1
            need(ev.args[0] == want, "%s reports exit kind %s, expected %d" % (n[8:], fmt(ev.args[0]), want))
        if n == "monitor_begin_process_exit":
            need(s["begin"] == 0, "begin-process-exit delivered twice")
            need(s["fini"] == 0, "begin-process-exit delivered after fini-process")
            s["begin"] = 1
        if n == "monitor_fini_process":
            need(s["begin"] == 1, "fini-process delivered without begin-process-exit")
            need(s["fini"] == 0, "fini-process delivered twice")
            need(ev.args[1] == ("t", "any", "pdata"), "fini-process does not receive the process data")
            s["fini"] = 1

    def final(self, s):
        if not s["re"]:
            need(s["begin"] == 1 and s["fini"] == 1, "the process ends without begin-process-exit and fini-process")

    def ev_x(self, s, ev):
        if ev.name in ("exit", "_exit", "_Exit"):
            self.final(s)
            want = ("t", "any", "status2") if s["re"] else ("t", "any", "status")
            if s["leave"] < 100:
                need(ev.args[0] == want, "the exit status is changed")
            else:
                need(s["re"], "a fatal signal turned into a normal exit")
        if ev.name == "pthread_exit":
            self.final(s)
            need(ev.args[0] == ("t", "any", "exitval"), "the thread exit value is changed")
        if ev.name in ("abort", "errx"):
            raise Violation("the library aborts the process")

    def ev_env(self, s, ev):
        if ev.name == "killed":
            self.final(s)
            if s["leave"] > 100 and not s["re"]:
                need(ev.args[0] == s["leave"] - 100, "the process dies from a different signal")

    def at_end(self, s, how, st):
        need(s["leave"] and (s["fini"] or s["re"]), "path ends (%s) without the exit protocol" % how)


def src(R, T=0, W=0, R2=0):
    return "#define R %d\n#define T %d\n#define W %d\n#define R2 %d\n" % (R, T, W, R2) + \
        "#define vf_crt_like() exit(rc())\n" + SRC % {"here": HERE}


def check(ctx):
    rn = {0: "return", 1: "exit", 2: "_exit", 3: "_Exit", 4: "pthread_exit", 5: "signal"}
    sc = []
    for r in rn:
        sc.append(Scn(rn[r], src(r), Rl, need=("cb:monitor_fini_process",)))
        for t in (1, 2, 3):
            if t == 2 and r in (0, 4, 5) or t == 3 and r in (0, 5):
                continue
            o = {"create_ok": 1, "attr_ok": 1}
            sc.append(Scn("%s-T%d" % (rn[r], t), src(r, t), Rl, opts=o, need=("cb:monitor_fini_process",)))
    for r in (0, 1, 2, 5):
        for w in (1, 2, 3):
            for r2 in (1, 2, 3):
                if w == 3 and r2 == 3 and r == 5:
                    continue
                for t in (0, 1):
                    if ctx.tier == "quick" and t == 1 and not (w == 2):
                        continue
                    sc.append(Scn("%s-again%d-%s-T%d" % (rn[r], w, rn.get(r2, "sig"), t), src(r, t, w, r2), Rl,
                                  modes=("dynamic",) if w == 3 else ("dynamic", "static"),
                                  opts={"create_ok": 1, "attr_ok": 1}))
    ctx.run(sc)
