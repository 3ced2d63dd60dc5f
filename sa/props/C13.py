"""ignored threads"""
from fw import *
EXPLAIN = ("Typestate and value analysis of thread creation while new threads are disabled, when pre-create answers ignore and from "
           "unmonitored threads, by main, a side thread and before main, with and without attributes, on success and failure; ignored "
           "threads run, query, broadcast, create further threads and end in every way, and the process ends while they run.")

SRC = r'''
#include "%(here)s/drv/thr.h"
static int npre, stay;
static void *plain(void *a)
{
  vf_mark("body", a);
  vf_mark("q", monitor_get_user_data(), monitor_get_thread_num(), monitor_stack_bottom());
  if (stay) { vf_setself(0); stay = 0; exit(0); }
  if (END == 1) pthread_exit(a);
  if (END == 2) { vf_cancel(); vf_end(); }
  return a;
}
static void *mon(void *a)
{
  vf_mark("body", a);
  return a;
}
static void create(int ign, void *(*f)(void *), void *arg)
{
  pthread_t mine;
  pthread_attr_t *at = ATTR ? (pthread_attr_t *) vf_ptr("attr") : 0;
  int r;
  vf_mark("call", ign, &mine, at, f, arg);
  r = pthread_create(&mine, at, f, arg);
  vf_mark("ret", r);
}
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
void *monitor_thread_pre_create(void)
{
  npre++;
  return IGN == 2 && npre == 1 ? MONITOR_IGNORE_NEW_THREAD : vf_ptr("pre");
}
size_t monitor_reset_stacksize(size_t old) { return old + 4096; }
void *monitor_init_thread(int t, void *data) { return vf_ptr("tdata"); }
/* an unmonitored thread: everything it creates is unmonitored too */
static void *outer(void *a)
{
  vf_mark("body", a);
  vf_mark("q", monitor_get_user_data(), monitor_get_thread_num(), monitor_stack_bottom());
  if (NEST & 4) monitor_enable_new_threads();
  if (NEST & 8) monitor_block_shootdown();
  create(1, plain, vf_ptr("arg2"));
  create(1, plain, vf_ptr("arg2"));
  vf_mark("q", monitor_get_user_data(), monitor_get_thread_num(), monitor_stack_bottom());
  if (NEST & 2) { vf_run_thread(vf_nthreads()); }
  return a;
}
static void first(void)
{
  int n = vf_nthreads();
  if (IGN == 1) monitor_disable_new_threads();
  create(1, NEST ? outer : plain, vf_ptr("arg1"));
  if (vf_nthreads() > n) vf_run_thread(n + 1);
  if (IGN == 1 && TWO) create(1, plain, vf_ptr("arg1"));
  if (IGN == 1) monitor_enable_new_threads();
  n = vf_nthreads();
  create(0, mon, vf_ptr("arg3"));
  if (vf_nthreads() > n) vf_run_thread(n + 1);
}
static void *side(void *a)
{
  int n;
  vf_mark("body", a);
  if (WHO == 2) {
    /* the setting is this thread's own: main is not affected by it, nor this one by main's */
    monitor_disable_new_threads();
    vf_setself(0);
    create(0, mon, vf_ptr("arg4"));
    vf_setself(1);
    create(1, plain, vf_ptr("arg1"));
    vf_setself(0);
    monitor_enable_new_threads();
    vf_setself(1);
    create(1, plain, vf_ptr("arg1"));
    monitor_enable_new_threads();
    vf_setself(0);
    monitor_disable_new_threads();
    vf_setself(1);
    create(0, mon, vf_ptr("arg3"));
    return a;
  }
  if (WHO == 3) {
    /* a monitored thread runs; an ignored thread is created and the process ends while both run */
    stay = 1;
    pk_other = 1;
    if (IGN == 1) monitor_disable_new_threads();
    n = vf_nthreads();
    create(1, plain, vf_ptr("arg1"));
    if (IGN == 1) monitor_enable_new_threads();
    vf_assume(vf_nthreads() > n);
    monitor_broadcast_signal(10);
    vf_run_thread(n + 1);
    vf_end();
  }
  first();
  return a;
}
void vf_on_sleep(void) { pk_react(); }
int app_main(int argc, char **argv, char **envp)
{
  if (WHO == 0) first();
  if (WHO == 1 || WHO == 2 || WHO == 3) {
    npre = -1;
    create(0, side, vf_ptr("arg5"));
    vf_assume(vf_nthreads() == 1);
    vf_run_thread(1);
  }
  return 0;
}
void vf_main(void) { if (WHO == 4) first(); START(app_main); }
'''


def T(n):
    return ("t", "any", n)


class Rl(Auto):
    start = dict(n=0, ign=frozenset())

    def ev_mark(self, s, ev):
        cur = ev.st.env["cur"]
        if ev.name == "call":
            s["c%d" % cur] = (ev.args[0], tuple(ev.args[1:5]), 0, None, 0)
        elif ev.name == "ret":
            c = s["c%d" % cur]
            need(c[2] == 1, "pthread_create makes %d real creations" % c[2])
            need(ev.args[0] == c[3], "the result of the real creation is not passed on")
            if not c[0]:
                need(c[4] == 1, "a thread created after re-enabling, or by another thread, is not monitored")
            s["c%d" % cur] = None
        elif ev.name == "q":
            if cur in s["ign"]:
                need(ev.args[0] == 0, "an ignored thread has user data")
                need(ev.args[1] in (-1, 0xffffffff), "an ignored thread has a thread number")
                need(ev.args[2] == 0, "an ignored thread has a stack bottom")
        elif ev.name == "body":
            if cur not in s["ign"]:
                need("init%d" % cur in s, "a monitored thread runs without init-thread")

    def ev_cb(self, s, ev):
        cur = ev.st.env["cur"]
        n = ev.name
        if n in ("monitor_init_thread", "monitor_fini_thread"):
            need(cur not in s["ign"], "%s delivered in an ignored thread" % n)
            s["init%d" % cur] = 1
        if n in ("monitor_thread_pre_create", "monitor_thread_post_create", "monitor_reset_stacksize", "monitor_init_thread_support"):
            c = s.get("c%d" % cur)
            need(c is not None, "%s delivered outside of a creation" % n)
            if c[0]:
                if cur in s["ign"] or self.IGN == 1:
                    raise Violation("%s delivered for an ignored thread" % n)
                need(n in ("monitor_thread_pre_create", "monitor_init_thread_support"), "%s delivered for an ignored thread" % n)
            elif n == "monitor_thread_pre_create":
                s["c%d" % cur] = c[:4] + (1,)

    def ev_x(self, s, ev):
        cur = ev.st.env["cur"]
        if ev.name == "pthread_create":
            c = s["c%d" % cur]
            s["c%d" % cur] = (c[0], c[1], c[2] + 1, ev.ret, c[4])
            if c[0]:
                need(tuple(ev.args[:4]) == c[1], "an ignored thread is not created with the caller's own handle, attributes, routine and argument")
            if ev.ret == 0:
                s["n"] += 1
                if c[0]:
                    s["ign"] = s["ign"] | {s["n"]}
        elif ev.name == "pthread_kill":
            t = ev.args[0]
            need(not (type(t) is tuple and t[:2] == ("t", "self") and t[2] in s["ign"]), "an ignored thread is signalled")
        elif ev.name == "errx":
            raise Violation("the library aborts the process")

    def ev_env(self, s, ev):
        if ev.name == "thread_begin" and ev.args[0] in s["ign"]:
            pass


def mk(name, who, ign, nest=0, attr=0, end=0, two=0, opts=None, modes=("dynamic", "static")):
    s = "#define WHO %d\n#define IGN %d\n#define NEST %d\n#define ATTR %d\n#define END %d\n#define TWO %d\n" % (who, ign, nest, attr, end, two) + SRC % {"here": HERE}
    o = {"malloc_ok": 1, "attr_ok": 1}
    o.update(opts or {})
    return Scn(name, s, type("R", (Rl,), {"IGN": ign}), modes=modes, opts=o, need=("x:pthread_create", "mark:body"), ends=who != 3)


def check(ctx):
    sc = []
    for who in (0, 1, 4):
        for ign in (1, 2):
            for attr in (0, 1):
                sc.append(mk("who%d-ignore%d-attr%d" % (who, ign, attr), who, ign, attr=attr, two=1))
            for end in (1, 2):
                sc.append(mk("who%d-ignore%d-end%d" % (who, ign, end), who, ign, end=end, opts={"create_ok": 1}))
            for nest in (1, 2, 5, 9):
                sc.append(mk("who%d-ignore%d-nested%d" % (who, ign, nest), who, ign, nest=nest, opts={"create_ok": 1}))
    sc.append(mk("per-thread", 2, 1))
    sc.append(mk("process-end-1", 3, 1))
    sc.append(mk("process-end-2", 3, 2))
    ctx.run(sc)
