"""fork protocol and clean child"""
from fw import *
EXPLAIN = ("Typestate analysis of fork and vfork from single- and multi-threaded parents, from the main and from a side thread, "
           "during process exit and with another thread of the parent stopped at any point of its own library calls: both "
           "outcomes and failure are followed; the child must be a fresh single-threaded monitored process that can create "
           "threads, fork again and end normally.")

SRC = r'''
#include "%(here)s/drv/thr.h"
static int inchild, ending;
static void *t2(void *a) { vf_mark("childthread"); return a; }
static void *kid(void *a)
{
  vf_mark("kid");
  return a;
}
static void child_life(void)
{
  pthread_t t;
  int n = vf_nthreads();
  inchild = 1;
  vf_mark("child", monitor_is_threaded(), monitor_get_thread_num(), monitor_get_user_data());
  monitor_broadcast_signal(10);
  vf_mark("quiet");
  if (L == 1) {
    pthread_create(&t, 0, kid, vf_ptr("kidarg"));
    vf_assume(vf_nthreads() == n + 1);
    vf_run_thread(n + 1);
    vf_mark("kid_done");
  }
  if (L == 2) {
    pid_t p;
    vf_mark("call", vf_cur());
    p = fork();
    vf_mark("ret", p);
    if (p == 0) vf_mark("grandchild", monitor_is_threaded(), monitor_get_thread_num(), monitor_get_user_data());
  }
  if (L == 3) return;                                /* leave through the start routine */
  vf_mark("leave");
  if (L == 4) _exit(vf_anyint("cstatus"));
  if (L == 5) pthread_exit(0);
  exit(vf_anyint("cstatus"));
}
static void do_fork(void)
{
  pid_t p;
  vf_mark("call", vf_cur());
  if (K == 1) p = fork(); else if (K == 2) p = vfork(); else p = monitor_real_fork();
  vf_mark("ret", p);
  if (p == 0) child_life();
  else if (ENDP) { vf_mark("leave"); exit(0); }
}
static void *body(void *a)
{
  if (T == 1) do_fork();                             /* side thread forks */
  if (T == 2) { vf_setself(0); do_fork(); vf_end(); }   /* main forks while this thread is alive */
  if (T == 4) { vf_setself(0); vf_preempt_on(); ACT; vf_end(); }
  return a;
}
#if T == 4
/* the side thread forks while main is stopped anywhere inside ACT */
void vf_preempt(void)
{
  if (vf_cur() != 0) vf_end();
  vf_setself(1);
  vf_mark("anyfork");
  do_fork();
  vf_end();
}
#endif
void *monitor_pre_fork(void) { return vf_ptr("fdata"); }
void *monitor_init_process(int *argc, char **argv, void *data) { return inited++ ? vf_ptr("cdata") : vf_ptr("pdata"); }
void *monitor_init_thread(int tid, void *data) { return vf_ptr("tdata"); }
void *monitor_thread_pre_create(void) { return vf_ptr("tpre"); }
void monitor_begin_process_exit(int how) { if (X == 1 && !inchild) { do_fork(); } }
void monitor_fini_process(int how, void *d) { if (X == 2 && !inchild) { do_fork(); } }
void vf_on_sleep(void) { if (!inchild) { pk_other = 1; pk_react(); } }
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  if (T) {
    pthread_create(&t, 0, body, 0);
    vf_assume(vf_nthreads() == 1);
    vf_run_thread(1);
  }
  if (T == 0 || T == 3) do_fork();                   /* T==3: after the thread finished */
  vf_mark("leave");
  return 0;
}
void vf_main(void) { START(app_main); }
'''


class Rl(Auto):
    start = dict(pid=0, st=0, pre=0, post=0, init=0, fini=0, leave=0, real=0, kid=0, quiet=1, nest=0, begin=0)
    K = 1

    def ev_cb(self, s, ev):
        n = ev.name
        if n == "monitor_pre_fork":
            need(s["st"] == 1, "pre-fork delivered outside fork")
            need(s["pre"] == 0, "pre-fork delivered twice")
            s["pre"] = 1
        elif n == "monitor_post_fork":
            need(s["st"] == 2 and s["real"] != 0, "post-fork delivered in the child or without fork")
            need(s["post"] == 0, "post-fork delivered twice")
            need(ev.args[0] == s["real"], "post-fork does not report the result of fork")
            need(ev.args[1] == ("t", "any", "fdata"), "post-fork does not receive the pre-fork data")
            s["post"] = 1
        elif n == "monitor_init_process" and s["pid"]:
            need(s["st"] == 2 and s["real"] == 0, "init-process delivered in the child outside fork")
            need(s["init"] == 0, "init-process delivered twice in the child")
            need(ev.args[2] == ("t", "any", "fdata"), "the child's init-process does not receive the pre-fork data")
            s["init"] = 1
        elif n == "monitor_begin_process_exit":
            need(s["leave"], "begin-process-exit delivered although the process is not ending")
            need(s["begin"] == 0, "begin-process-exit delivered twice")
            s["begin"] = 1
        elif n == "monitor_fini_process":
            need(s["leave"], "fini-process delivered although the process is not ending")
            need(s["fini"] == 0, "fini-process delivered twice")
            if s["pid"]:
                want = ("t", "any", "cdata") if self.K != 3 else ("t", "any", "pdata")
                if self.T == 1 and self.K == 3:
                    want = ("t", "any", "tdata")
                need(ev.args[1] == want, "the child's fini-process does not receive the child's process data")
            s["fini"] = 1
        elif n == "monitor_fini_thread" and s["pid"]:
            need(s["kid"] == 2, "fini-thread delivered in the child for a thread of the parent")
            need(ev.args[0] == ("t", "any", "tdata"), "fini-thread does not receive the thread's data")
            s["kid"] = 3
        elif n == "monitor_init_thread" and s["pid"]:
            s["kid"] = 1

    def ev_mark(self, s, ev):
        n = ev.name
        if n == "call":
            s["st"], s["pre"], s["post"], s["init"], s["real"] = 1, 0, 0, 0, 0
        elif n == "ret":
            need(ev.args[0] == s["real"], "fork does not return the result of the real fork")
            s["st"] = 3
            if self.K != 3:
                if s["real"] == 0:
                    need(s["init"] == 1, "the child did not get init-process")
                    need(s["post"] == 0, "post-fork delivered in the child")
                else:
                    need(s["post"] == 1, "the parent did not get post-fork")
                    need(s["init"] == 0, "init-process delivered in the parent of a fork")
                need(s["pre"] == 1, "pre-fork was not delivered")
            else:
                need(not (s["pre"] or s["post"] or s["init"]), "real fork delivers fork callbacks")
        elif n == "child" or n == "grandchild":
            need(ev.args[0] == 0, "the child is reported as threaded")
            need(ev.args[1] == 0, "the forking thread is not the main thread of the child")
            if self.K != 3:
                need(ev.args[2] == ("t", "any", "cdata"), "user data in the child is not what init-process returned")
            s["quiet"] = 0
            s["begin"] = 0
        elif n == "quiet":
            s["quiet"] = 1
        elif n == "kid":
            need(s["kid"] == 1, "a thread of the child runs without init-thread")
            s["kid"] = 2
        elif n == "kid_done":
            need(s["kid"] == 3, "a thread created by the child got no fini-thread or never ran")
        elif n == "leave":
            s["leave"] = 1

    def ev_x(self, s, ev):
        if ev.name == "fork":
            need(s["st"] == 1, "fork called twice")
            if self.K != 3:
                need(s["pre"] == 1, "the real fork runs before pre-fork")
            s["st"] = 2
            s["real"] = ev.ret
            if ev.ret == 0:
                s["pid"] += 1
                s["init"] = s["fini"] = s["leave"] = s["begin"] = s["post"] = 0
        if ev.name == "vfork":
            raise Violation("the real vfork is used")
        if ev.name == "pthread_kill" and s["pid"] and not s["kid"]:
            raise Violation("the child signals a thread of the parent")
        if ev.name in ("exit", "_exit") and s["pid"]:
            need(s["begin"] == 1, "the child ends without begin-process-exit")
            need(s["fini"] == 1, "the child ends without fini-process")
        if ev.name == "errx":
            raise Violation("the library aborts the process")

    def at_end(self, s, how, st):
        if self.K == 1 and s["st"] not in (0, 3):
            raise Violation("fork does not return")


def mk(name, K, T=0, L=0, X=0, E=0, act=None, mode=("dynamic", "static"), opts=None):
    s = "#define K %d\n#define T %d\n#define L %d\n#define X %d\n#define ENDP %d\n#define ACT %s\n" % (K, T, L, X, E, act or "")
    s += "static int inited;\nvoid vf_exit_now(void);\n\nstatic void do_fork(void);\n"
    s += SRC % {"here": HERE}
    cls = type("Rl_%s" % name, (Rl,), {"K": K, "T": T})
    o = {"create_ok": 1, "attr_ok": 1}
    o.update(opts or {})
    return Scn(name, s, cls, modes=mode, opts=o, need=("x:fork",))


def check(ctx):
    kn = {1: "fork", 2: "vfork", 3: "real_fork"}
    ln = {0: "exit", 1: "thread", 2: "fork", 3: "return", 4: "_exit", 5: "pthread_exit"}
    sc = []
    for k in kn:
        for t in (0, 1, 2, 3):
            for l in ln:
                if l == 3 and t == 2 or k == 3 and l == 2:
                    continue
                if ctx.tier == "quick" and k == 2 and l not in (0, 1):
                    continue
                sc.append(mk("%s-T%d-%s" % (kn[k], t, ln[l]), k, t, l))
    for x in (1, 2):
        for t in (0, 2, 3):
            for l in (0, 1, 4):
                sc.append(mk("during-exit%d-T%d-%s" % (x, t, ln[l]), 1, t, l, x, 1))
    for l in ln:
        if l == 2 or ctx.tier == "quick" and l not in (0, 1):
            continue
        sc.append(mk("main-creates-thread-%s" % ln[l], 1, 4, l, act="pthread_t q; pthread_create(&q, 0, kid, 0)"))
        sc.append(mk("main-exits-%s" % ln[l], 1, 4, l, act="vf_mark(\"leave\"); exit(0)"))
        sc.append(mk("main-broadcasts-%s" % ln[l], 1, 4, l, act="monitor_broadcast_signal(10)"))
    ctx.run(sc)
