"""any number of threads"""
from fw import *
EXPLAIN = ("Value analysis over histories longer than every internal table: hundreds of threads created before any starts, all live at once (crossing the preallocated table into allocated ones), and "
           "thousands of threads created and ended or failed in sequence while others live. Each thread's routine, argument, data and start address are compared with those of its own creation, at "
           "its start and again after all others were made; the number of table allocations is compared with the number of live threads. "
           "(Recycling under interference is decided by C16.)")
ASSUME = ["allocation of a new table succeeds"]

COMMON = r'''
static char arg[N + 8], pre[N + 8], dat[N + 8], rt[8];
static int cnt, live;
void *monitor_init_process(int *c, char **v, void *d) { return vf_ptr("p"); }
size_t monitor_reset_stacksize(size_t n) { return n; }
void *monitor_thread_pre_create(void) { return &pre[cnt]; }
void *monitor_init_thread(int t, void *d)
{
  int k = vf_cur();
  vf_assert(d == (void *) &pre[k - 1], "init-thread gets the data of another thread's creation");
  vf_mark("num", t);
  return &dat[k - 1];
}
static void *body0(void *);
static void *body1(void *);
static void q(int k)
{
  vf_assert(monitor_get_user_data() == (void *) &dat[k - 1], "a thread gets another thread's data");
  vf_assert(monitor_get_addr_thread_start() == (void *) (k % 2 ? body1 : body0), "a thread gets another thread's start routine");
}
void monitor_fini_thread(void *d) { vf_assert(d == (void *) &dat[vf_cur() - 1], "fini-thread gets another thread's data"); }
static void *go(void *a, int odd)
{
  int k = vf_cur();
  vf_assert(a == (void *) &arg[k - 1], "a thread gets another thread's argument");
  vf_assert(k % 2 == odd, "a thread runs another thread's routine");
  q(k);
  if (k <= live) { vf_mark("parked"); vf_park(); }
  return a;
}
static void *body0(void *a) { return go(a, 0); }
static void *body1(void *a) { return go(a, 1); }
static void run(void) { vf_run_thread(vf_cur()); }
static void ask(void) { q(vf_cur()); }
static void mk(void)
{
  pthread_t t;
  int k = cnt + 1, r;
  r = pthread_create(&t, 0, k % 2 ? body1 : body0, &arg[cnt]);
  cnt++;
  vf_assume(r == 0);
}
'''
LIVE = COMMON + r'''
int app_main(int argc, char **argv, char **envp)
{
  int i;
  live = N;
  for (i = 0; i < N; i++) { mk(); if (EACH) vf_as(i + 1, run); }
  if (!EACH) for (i = 0; i < N; i++) vf_as(ORDER ? N - i : i + 1, run);
  for (i = 1; i <= N; i++) vf_as(i, ask);
  vf_mark("all");
  live = 0;
  for (i = 0; i < 6; i++) { mk(); vf_as(N + 1 + i, run); }
  for (i = 1; i <= N; i += 7) vf_as(i, ask);
  vf_mark("over");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''
SEQ = COMMON + r'''
int app_main(int argc, char **argv, char **envp)
{
  int i;
  live = 3;
  for (i = 0; i < N; i++) { mk(); vf_as(i + 1, run); if (i % 100 == 99) { vf_as(1, ask); vf_as(2, ask); vf_as(3, ask); } }
  vf_mark("over");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''
FAIL = r'''
#include <errno.h>
size_t monitor_reset_stacksize(size_t n) { return n; }
void *monitor_thread_pre_create(void) { return vf_ptr("pre"); }
int vf_real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { return EAGAIN; }
static void *body(void *a) { return a; }
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  int i;
  for (i = 0; i < N; i++) pthread_create(&t, 0, body, 0);
  vf_mark("over");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''
BATCH = COMMON.replace("static void *go(void *a, int odd)", "static void more(void);\nstatic void *go(void *a, int odd)").replace("  q(k);\n  if", "  q(k);\n  more();\n  q(k);\n  if") + r'''
static int nxt, top;
static void more(void) { int me = vf_cur(); if (nxt < top) { nxt++; vf_run_thread(nxt); vf_setself(me); } }
int app_main(int argc, char **argv, char **envp)
{
  int i, j;
  for (j = 0; j < N / 4; j++) {
    for (i = 0; i < 2 + j % 3; i++) mk();
    top = cnt;
    nxt++;
    vf_run_thread(nxt);
    while (nxt < top) { nxt++; vf_run_thread(nxt); }
  }
  vf_mark("over");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''


class Rl(Auto):
    start = dict(nums=frozenset({0}), m=0)
    MAX = 0

    def ev_mark(self, s, ev):
        if ev.name == "num":
            t = ev.args[0]
            need(t not in s["nums"], "thread number %s is given to two threads" % fmt(t))
            s["nums"] = s["nums"] | {t}

    def ev_x(self, s, ev):
        if ev.name in ("malloc", "calloc", "mmap"):
            s["m"] = s["m"] + 1
            need(s["m"] <= self.MAX, "the library allocates a new table although ended or failed threads' entries are free")


def check(ctx):
    t = ctx.tier == "thorough"
    o = {"create_ok": 1, "attr_ok": 1, "malloc_ok": 1, "linear": 1}
    n = 1215 if t else 620
    sc = []

    def add(name, src, mx, defs=""):
        sc.append(Scn(name, defs + src, type("R", (Rl,), {"MAX": mx}), opts=o, need=("mark:over",), ends=False, cap=10 ** 9, maxsteps=30000000))
    for each in (0, 1):
        for order in (0, 1) if not each else (0,):
            add("live-%d-%d" % (each, order), LIVE, 1000, "#define N %d\n#define EACH %d\n#define ORDER %d\n" % (n, each, order))
    add("ended", SEQ, 0, "#define N %d\n" % (1900 if t else 1250))
    add("failed", FAIL, 0, "#define N %d\n" % (1900 if t else 1250))
    add("batches", BATCH, 0, "#define N %d\n" % (400 if t else 120))
    ctx.run(sc)
