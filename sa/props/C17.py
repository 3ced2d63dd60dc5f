"""thread numbers"""
from fw import *
import props.C32 as B
EXPLAIN = ("Interference and value analysis of thread numbering: two and three threads start, run and end with another thread's whole start inserted at every "
           "shared point; entries are recycled, creations fail, processes fork. The set of all numbers given out in a process is tracked "
           "and each number is compared with the answers in callbacks, application code and handlers.")

SRC2 = r'''
static void q(void) { vf_mark("q", monitor_get_thread_num(), monitor_get_user_data(), monitor_is_threaded()); }
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("p1"); }
void *monitor_thread_pre_create(void) { return vf_ptr("a"); }
void *monitor_init_thread(int t, void *data) { vf_mark("init", t); q(); return vf_ptr("b"); }
void monitor_fini_thread(void *d) { q(); }
static int depth;
static void *body(void *a) { q(); if (NT == 4 && depth < 3) { pthread_t t; depth++; pthread_create(&t, 0, body, 0); vf_run_thread(vf_nthreads()); } q(); return a; }
void vf_preempt(void)
{
  int me = vf_cur();
  vf_run_thread(2);
  if (NT == 3) vf_run_thread(3);
  vf_setself(me);
}
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  int i, n;
  q();
  if (NT == 4) {
    pthread_create(&t, 0, body, 0);
    vf_run_thread(1);
    q();
    return 0;
  }
  for (i = 0; i < NT; i++) pthread_create(&t, 0, body, 0);
  vf_preempt_on();
  vf_run_thread(1);
  vf_preempt_off();
  q();
  pthread_create(&t, 0, body, 0);
  vf_run_thread(vf_nthreads());
  q();
  return 0;
}
void vf_main(void) { START(app_main); }
'''


class Rl(B.Rl):
    def unique(self, s, t):
        need(t not in s["nums"], "thread number %s is given to two threads" % fmt(t))
        s["nums"] = s["nums"] | {t}


class Rs(Auto):
    start = dict(nums=frozenset({0}))

    def ev_mark(self, s, ev):
        k = ev.st.env["cur"]
        if ev.name == "init":
            t = ev.args[0]
            need(type(t) is int and 0 < t < 1 << 31, "init-thread receives %s as thread number" % fmt(t))
            need(t not in s["nums"], "thread number %s is given to two threads" % fmt(t))
            s["nums"] = s["nums"] | {t}
            s["n%d" % k] = t
        elif ev.name == "q":
            if k == 0:
                need(ev.args[0] == 0, "the main thread reports number %s" % fmt(ev.args[0]))
            else:
                need(ev.args[0] == s["n%d" % k], "a thread's number changes")


def check(ctx):
    o = {"malloc_ok": 1, "attr_ok": 1, "create_ok": 1}
    sc = B.scns(Rl)
    for n in (2, 3, 4):
        sc.append(Scn("interleaved%d" % n, "#define NT %d\n" % n + SRC2, Rs, opts=o, need=("mark:init",)))
    if ctx.tier == "thorough":
        sc.append(Scn("interleaved2-both", "#define NT 2\n" + SRC2, Rs, opts=dict(o, **{"yield": 1}), need=("mark:init",), budget=3000, maxsteps=200_000_000))
    ctx.run(sc)
