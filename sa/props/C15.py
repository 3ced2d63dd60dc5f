"""new-thread info"""
from fw import *
EXPLAIN = ("Value and typestate analysis of the new-thread query, called in every callback and between all application calls, over histories "
           "of monitored, ignored (both ways), failing and nested thread creations by main, by a side thread and before main; start routine, "
           "return address and the untouched destination of a failing query are compared with the running creation of the asking thread.")

SRC = r'''
static int npre, depth, ncr, act;
static void *plain(void *a);
static void query(void)
{
  struct monitor_thread_info m;
  int r;
  m.mti_create_return_addr = vf_ptr("old1");
  m.mti_start_routine = vf_ptr("old2");
  r = monitor_get_new_thread_info(&m);
  vf_mark("q", r, m.mti_start_routine, m.mti_create_return_addr);
  if (monitor_get_new_thread_info(0) == 0) vf_mark("null");
}
static void *r1(void *a) { query(); return a; }
static void *r2(void *a) { query(); return a; }
static void create1(void)
{
  pthread_t t;
  vf_mark("call", r1, create1);
  pthread_create(&t, 0, r1, 0);
  vf_mark("ret");
}
static void create2(void)
{
  pthread_t t;
  pthread_attr_t *at = (pthread_attr_t *) vf_ptr("attr");
  vf_mark("call", r2, create2);
  pthread_create(&t, at, r2, 0);
  vf_mark("ret");
}
static void nested(int w)
{
  query();
  if (NEST == w && depth == 0) {
    depth = 1;
    if (NIGN) monitor_disable_new_threads();
    create2();
    if (NIGN) monitor_enable_new_threads();
    query();
    depth = 0;
  }
}
void *monitor_init_process(int *argc, char **argv, void *data) { query(); return vf_ptr("pdata"); }
void monitor_init_thread_support(void) { query(); nested(0); }
void *monitor_thread_pre_create(void)
{
  nested(1);
  npre++;
  if (IGN == 2 && (npre == 1 || npre == 3)) return MONITOR_IGNORE_NEW_THREAD;
  return vf_ptr("pre");
}
size_t monitor_reset_stacksize(size_t old) { nested(2); return old; }
void monitor_thread_post_create(void *d) { nested(3); }
void *monitor_init_thread(int t, void *data) { query(); return vf_ptr("tdata"); }
void monitor_fini_thread(void *d) { query(); }
void monitor_fini_process(int how, void *d) { query(); }
void vf_on_create(int k) { if (act) { act = 0; vf_run_thread(k); act = 1; } }
static void seq(void)
{
  query();
  if (IGN == 1) monitor_disable_new_threads();
  create1();
  query();
  if (IGN == 1) monitor_enable_new_threads();
  create2();
  query();
  create1();
  query();
}
static void *side(void *a)
{
  query();
  seq();
  if (STAY) { vf_setself(0); seq(); vf_setself(1); query(); }
  return a;
}
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  int r;
  if (WHO == 0) { act = FAST; seq(); }
  if (WHO == 1) {
    vf_mark("call", side, app_main);
    r = pthread_create(&t, 0, side, 0);
    vf_mark("ret");
    vf_assume(r == 0);
    act = FAST;
    vf_run_thread(1);
    query();
  }
  return 0;
}
void vf_main(void) { if (WHO == 2) { act = FAST; seq(); } START(app_main); }
'''


class Rl(Auto):
    start = dict()

    def ev_mark(self, s, ev):
        k = "c%d" % ev.st.env["cur"]
        st = s.get(k, ())
        if ev.name == "call":
            s[k] = st + (ev.args[:2],)
        elif ev.name == "ret":
            s[k] = st[:-1]
        elif ev.name == "null":
            raise Violation("the query with a null destination succeeds")
        elif ev.name == "q":
            r, sr, ra = ev.args[:3]
            if st:
                need(r == 0, "the new-thread query fails inside pthread_create")
                need(sr == st[-1][0], "the query reports a start routine other than that of the running pthread_create")
                need(type(ra) is tuple and ra[:2] == ("t", "retaddr"), "the query reports no return address")
                need(st[-1][1][1] == ra[2][0], "the reported return address is not in the caller of pthread_create")
            else:
                need(r == 1, "the new-thread query succeeds outside pthread_create")
                need(sr == ("t", "any", "old2") and ra == ("t", "any", "old1"), "a failing query writes to its destination")


def mk(name, who, ign=0, nest=9, nign=0, fast=0, stay=0, opts=None, modes=("dynamic", "static")):
    s = "#define WHO %d\n#define IGN %d\n#define NEST %d\n#define NIGN %d\n#define FAST %d\n#define STAY %d\n" % (who, ign, nest, nign, fast, stay) + SRC
    o = {"malloc_ok": 1, "attr_ok": 1}
    o.update(opts or {})
    return Scn(name, s, Rl, modes=modes, opts=o, need=("mark:q", "x:pthread_create"))


def check(ctx):
    sc = []
    for who in (0, 1, 2):
        for ign in (0, 1, 2):
            sc.append(mk("who%d-ignore%d" % (who, ign), who, ign))
            sc.append(mk("who%d-ignore%d-fast" % (who, ign), who, ign, fast=1, stay=1, opts={"create_ok": 1}))
    for nest in (0, 1, 2, 3):
        for nign in (0, 1):
            sc.append(mk("nested%d-ignored%d" % (nest, nign), 0, 0, nest, nign, opts={"create_ok": 1}))
    sc.append(mk("attr-failures", 0, opts={"attr_ok": 0}))
    ctx.run(sc)
