"""sigwait family"""
from fw import *
EXPLAIN = ("Typestate analysis of sigwait, sigwaitinfo and sigtimedwait: the real wait yields any sequence of results (interruption, other errors, a signal in the set or not, "
           "client signals accepted or declined, the shutdown signal before or during process end) for any number of rounds; the automaton derives from each result whether "
           "the wrapper must wait again or return, and checks value, errno, info, arguments, client offers and fini-thread.")

SRC = r'''
#include <errno.h>
#define SHOOT 42
static int done;
void *monitor_thread_pre_create(void) { return vf_ptr("tpre"); }
void *monitor_init_thread(int t, void *d) { return vf_ptr("tdata"); }
static int ch(int s, siginfo_t *i, void *c) { int r = vf_pick(3) - 1; vf_mark("client", s, i, c, r); return r; }
static int result(const sigset_t *s, siginfo_t *i, const void *t)
{
  int k = vf_pick(8), r;
  vf_mark("wait", s, i, t);
  switch (k) {
  case 0: errno = EINTR; r = -1; break;
  case 1: errno = EINVAL; r = -1; break;
  case 2: errno = EAGAIN; r = -1; break;
  case 3: r = 12; break;          /* in the set */
  case 4: r = 10; break;          /* in the set, client registered */
  case 5: r = 36; break;          /* not in the set, client registered */
  case 6: r = 13; break;          /* not in the set */
  default: r = SHOOT; break;
  }
  vf_mark("result", r, r < 0 ? errno : 0);
  return r;
}
int vf_real_sigwaitinfo(const sigset_t *s, siginfo_t *i) { return result(s, i, 0); }
int vf_real_sigtimedwait(const sigset_t *s, siginfo_t *i, const struct timespec *t) { return result(s, i, t); }
void vf_on_sleep(void) { vf_mark("parked"); vf_park(); }
int vf_real_pthread_kill(pthread_t t, int s) { return 0; }
static void main_exits(void) { exit(0); }
static void *body(void *a)
{
  sigset_t s;
  siginfo_t info;
  struct timespec ts;
  int r, sg = -7, e;
  sigemptyset(&s);
  sigaddset(&s, 12);
  sigaddset(&s, 10);
  sigaddset(&s, 16);
  if (INSET) sigaddset(&s, SHOOT);
  if (EXITING) vf_as(0, main_exits);
  if (BLOCKED) monitor_block_shootdown();
#if FN == 0
  vf_mark("begin", &s, 0, 0);
  r = NUL ? sigwait(&s, 0) : sigwait(&s, &sg);
  vf_mark("end0", r, sg);
#elif FN == 1
  vf_mark("begin", &s, NUL ? 0 : &info, 0);
  r = sigwaitinfo(&s, NUL ? 0 : &info);
  e = errno;
  vf_mark("end1", r, e);
#else
  vf_mark("begin", &s, NUL ? 0 : &info, &ts);
  r = sigtimedwait(&s, NUL ? 0 : &info, &ts);
  e = errno;
  vf_mark("end1", r, e);
#endif
  vf_end();
  return a;
}
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  if (CL) { monitor_sigaction(10, ch, 0, 0); monitor_sigaction(36, ch, 0, 0); }
  if (CL > 1) monitor_sigaction(SHOOT, ch, 0, 0);
  if (!THREAD) { body(0); vf_end(); }
  pthread_create(&t, 0, body, 0);
  vf_assume(vf_nthreads() == 1);
  vf_run_thread(1);
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''
SHOOT = 42


def sx(x):
    return x - (1 << 32) if type(x) is int and x >= 1 << 31 else x


class Rl(Auto):
    # ph: what must come next: "wait", "ret" (return res), "offer" (client), "offered"
    start = dict(ph=None, set=None, info=None, ts=None, res=0, err=0, fini=0, winfo=None)
    INSET = CL = EXITING = BLOCKED = FN = NUL = THREAD = 0

    def client(self, r):
        return self.CL and r in (10, 36) or self.CL > 1 and r == SHOOT

    def inset(self, r):
        return r in (12, 10, 16) or r == SHOOT and self.INSET

    def ev_mark(self, s, ev):
        n, a = ev.name, ev.args
        if n == "begin":
            s.update(ph="wait", set=a[0], info=a[1], ts=a[2])
        elif n == "wait":
            need(s["ph"] == "wait", "waits again although result %s must be returned" % (s["res"],) if s["ph"] == "ret" else
                 "waits again although fini-thread is due" if s["ph"] == "fini" else "waits again although the client was not offered signal %s" % (s["res"],))
            need(a[0] == s["set"], "the real wait gets another signal set")
            need(a[1] != 0, "the real wait gets no place for the signal information")
            if s["info"]:
                need(a[1] == s["info"], "the real wait gets another place for the signal information")
            if self.FN == 2:
                need(a[2] == s["ts"], "the real wait gets another timeout")
            s.update(winfo=a[1])
        elif n == "result":
            r, e = sx(a[0]), a[1]
            s.update(res=r, err=e)
            if r < 0:
                s["ph"] = "wait" if e == 4 else "ret"
            elif r == SHOOT and self.EXITING and self.THREAD and not s["fini"] and not self.BLOCKED:
                s["ph"] = "fini"
            elif self.client(r):
                s["ph"] = "offer"
            else:
                s["ph"] = "ret" if self.inset(r) else "wait"
        elif n == "client":
            need(s["ph"] == "offer", "the client's handler runs although no signal of its own arrived")
            need(a[0] == s["res"], "the client is offered the wrong signal")
            need(a[1] == s["winfo"], "the client does not get the signal information")
            need(type(a[2]) is tuple, "the client gets no context")
            s["ph"] = "wait" if a[3] == 0 else "ret" if self.inset(s["res"]) else "wait"
        elif n == "end0":
            self.ret(s)
            if s["res"] < 0:
                need(a[0] == s["err"], "sigwait does not return the error of the real wait")
                need(sx(a[1]) == -7, "a failing sigwait reports a signal")
            else:
                need(a[0] == 0, "a successful sigwait returns an error")
                if not self.NUL:
                    need(a[1] == s["res"], "sigwait reports the wrong signal")
        elif n == "end1":
            self.ret(s)
            need(sx(a[0]) == s["res"], "the result of the real wait is not returned")
            if s["res"] < 0:
                need(a[1] == s["err"], "errno of the real wait is lost")

    def ret(self, s):
        if s["ph"] == "wait":
            raise Violation("signal or error %s is returned although the wait must be resumed" % (s["res"] if s["res"] > 0 else "EINTR"))
        need(s["ph"] == "ret", "returns signal %s although %s" % (s["res"], "fini-thread is due" if s["ph"] == "fini" else "the client was not offered it"))
        s["ph"] = None

    def ev_cb(self, s, ev):
        if ev.name == "monitor_fini_thread":
            need(s["ph"] == "fini", "fini-thread without a shutdown signal during process end")
            need(ev.st.env["cur"] == 1, "fini-thread in the wrong thread")
            need(ev.args[0] == ("t", "any", "tdata"), "fini-thread gets the wrong data")
            s.update(fini=1, ph="wait")


def mk(name, **kw):
    d = dict(INSET=0, CL=1, EXITING=0, BLOCKED=0, FN=0, NUL=0, THREAD=1)
    d.update(kw)
    s = "".join("#define %s %d\n" % x for x in d.items()) + SRC
    return Scn(name, s, type("R", (Rl,), d), need=("mark:wait", "mark:end") + (("cb:monitor_fini_thread",) if d["EXITING"] and d["THREAD"] and not d["BLOCKED"] else ()), ends=False, cap=2000,
               opts={"create_ok": 1, "attr_ok": 1, "malloc_ok": 1})


def check(ctx):
    sc = []
    for fn, nm in ((0, "sigwait"), (1, "sigwaitinfo"), (2, "sigtimedwait")):
        for nul in (0, 1):
            v = nm + ("-null" if nul else "")
            sc.append(mk(v, FN=fn, NUL=nul))
            sc.append(mk(v + "-no-client", FN=fn, NUL=nul, CL=0))
            sc.append(mk(v + "-exiting", FN=fn, NUL=nul, EXITING=1))
        sc.append(mk(nm + "-main", FN=fn, THREAD=0, INSET=1))
        sc.append(mk(nm + "-shutdown-in-set", FN=fn, INSET=1))
        sc.append(mk(nm + "-shutdown-in-set-exiting", FN=fn, INSET=1, EXITING=1))
        sc.append(mk(nm + "-shutdown-client-exiting", FN=fn, INSET=1, CL=2, EXITING=1))
        sc.append(mk(nm + "-blocked-exiting", FN=fn, EXITING=1, BLOCKED=1))
    ctx.run(sc)
