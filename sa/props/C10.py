"""pthread_create protocol"""
from fw import *
EXPLAIN = ("Typestate and value analysis of pthread_create by main, by a side thread, before main and from inside callbacks, with and "
           "without attributes, for success and failure of the real creation, where the new thread may not have started, have run to its "
           "end, or have ended with its entry taken over by yet another thread before the creator continues; and with the new thread "
           "inserted at every shared point of the creator.")

SRC = r'''
static int npre, ncreated, act;
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
void *monitor_thread_pre_create(void)
{
  npre++;
  return npre == 1 ? vf_ptr("pre1") : npre == 2 ? vf_ptr("pre2") : npre == 3 ? vf_ptr("pre3") : vf_ptr("pre4");
}
void *monitor_init_thread(int t, void *data) { return vf_ptr("tdata"); }
size_t monitor_reset_stacksize(size_t old) { return SIZE ? SIZE : old; }
static void *plain(void *a) { return a; }
static void create(void *(*f)(void *))
{
  int r;
  pthread_t *h = (pthread_t *) vf_ptr("h0");
  pthread_attr_t *at = ATTR ? (pthread_attr_t *) vf_ptr("attr") : 0;
  pthread_t mine;
  h = &mine;
  vf_mark("call", h, at);
  r = pthread_create(h, at, f, vf_ptr("arg"));
  vf_mark("ret", r, mine);
}
#if PROG
void vf_on_create(int k)
{
  int me = vf_cur();
  if (!act) return;
  if (PROG == 1) { act = 0; vf_run_thread(k); }
  if (PROG == 2) { act = 0; vf_run_thread(k); vf_setself(1 - me); create(plain); vf_setself(me); }
  if (PROG == 3) { act = 0; vf_run_thread(k); vf_setself(1 - me); create(plain); vf_run_thread(vf_nthreads()); create(plain); vf_setself(me); }
}
#endif
#if PRE
void vf_preempt(void)
{
  int me = vf_cur(), n = vf_nthreads();
  if (n == (PRE == 1 ? 1 : 2)) vf_run_thread(n);
  if (PRE == 2) { vf_setself(1); create(plain); vf_setself(me); }
}
#endif
static void *side(void *a)
{
  if (WHO == 1) { act = 1; create(plain); return a; }
  /* this thread stays alive, main goes on */
  vf_setself(0);
  act = 1;
#if PRE
  vf_preempt_on();
#endif
  create(plain);
#if PRE
  vf_preempt_off();
#endif
  if (TWICE) create(plain);
  vf_mark("over");
  vf_end();
  return a;
}
int app_main(int argc, char **argv, char **envp)
{
  if (WHO == 0) {
    act = 1;
#if PRE
    vf_preempt_on();
#endif
    create(plain); 
    create(plain);
    vf_mark("over");
  }
  if (WHO == 1 || WHO == 2) {
    create(side);
    vf_assume(vf_nthreads() == 1);
    vf_run_thread(1);
    create(plain);
  }
  return 0;
}
void vf_main(void) { if (WHO == 3) { create(plain); create(plain); } START(app_main); }
'''


class Rl(Auto):
    start = dict(sup=0)

    def ev_mark(self, s, ev):
        k = "c%d" % ev.st.env["cur"]
        if ev.name == "call":
            s[k] = (1, None, None, ev.args[0], ev.args[1])
        elif ev.name == "ret":
            ph, pre, ret, h, at = s[k]
            need(ph == 4, "pthread_create returns without pre-create, real creation and post-create")
            need(ev.args[0] == ret, "pthread_create does not return the real result")
            if ret == 0:
                t = ev.args[1]
                need(type(t) is tuple and t[:2] == ("t", "self"), "the caller does not get the thread handle")
            s[k] = None

    def ev_cb(self, s, ev):
        n = ev.name
        k = "c%d" % ev.st.env["cur"]
        c = s.get(k)
        if n == "monitor_init_thread_support":
            need(not s["sup"], "thread-support delivered twice")
            need(c and c[0] == 1, "thread-support delivered outside pthread_create or after pre-create")
            s["sup"] = 1
        elif n == "monitor_thread_pre_create":
            need(c and c[0] == 1, "pre-create delivered twice, late or in a thread that creates none")
            need(s["sup"], "pre-create before thread-support")
            s["n"] = s.get("n", 0) + 1
            s[k] = (2, ("t", "any", "pre%d" % min(s["n"], 4))) + c[2:]
        elif n == "monitor_thread_post_create":
            need(c and c[0] == 3, "post-create delivered twice, early or in a thread that creates none")
            need(ev.args[0] == c[1], "post-create receives %s instead of the value pre-create returned" % fmt(ev.args[0]))
            s[k] = (4,) + c[1:]

    def ev_x(self, s, ev):
        if ev.name == "pthread_create":
            k = "c%d" % ev.st.env["cur"]
            c = s.get(k)
            need(c and c[0] == 2, "real thread creation twice or before pre-create")
            need(ev.args[0] == c[3], "the real creation gets a different thread handle")
            if c[4] != 0:
                need(ev.args[1] == c[4], "the caller's attributes are not used")
            s[k] = (3, c[1], ev.ret, c[3], c[4])
        if ev.name == "errx":
            raise Violation("the library aborts the process")


def mk(name, who, prog=0, attr=0, size=0, pre=0, twice=0, opts=None, modes=("dynamic", "static")):
    s = "#define WHO %d\n#define PROG %d\n#define ATTR %d\n#define SIZE %d\n#define PRE %d\n#define TWICE %d\n" % (who, prog, attr, size, pre, twice) + SRC
    o = {"malloc_ok": 1, "yield": 1}
    o.update(opts or {})
    return Scn(name, s, Rl, modes=modes, opts=o, need=("x:pthread_create", "mark:ret"), ends=who != 2)


def check(ctx):
    sc = []
    for who in (0, 1, 2, 3):
        for attr in (0, 1):
            for size in (0, 99):
                sc.append(mk("who%d-attr%d-size%d" % (who, attr, size), who, 0, attr, size, twice=1, opts={"attr_ok": 1} if who else None))
    for prog in (1, 2, 3):
        for who in (0, 1, 2):
            if who == 0 and prog > 1:
                continue
            sc.append(mk("progress%d-who%d" % (prog, who), who, prog, opts={"create_ok": 1, "attr_ok": 1}))
    for pre, who in ((1, 0), (2, 2)):
        sc.append(mk("interleaved%d" % pre, who, 0, pre=pre, opts={"create_ok": 1, "attr_ok": 1}))
    ctx.run(sc)
