"""the application cannot block the client's or the shutdown signal"""
from fw import *
from models import disp, curmask, ss_mem, ss_add, ss_del, EMPTY, FULL
EXPLAIN = ("Per-signal dataflow over signal sets: every operation (block, unblock, set, query, null set) of sigprocmask and pthread_sigmask x every set content (empty, full, each single "
           "signal, each single signal missing) x current masks with protected signals open or blocked x protected sets (none, client-registered, configured, shutdown chosen "
           "by environment); the rule computes for every one of 64 signals the mask that must result and compares it with the mask the real calls leave, and does "
           "the same for the mask of every handler the application installs.")

SRC = r'''
static int ch(int s, siginfo_t *i, void *c) { return 0; }
static void h1(int s) { }
static void h3(int s, siginfo_t *i, void *c) { }
static void mkset(sigset_t *s)
{
  int k = KINDS, n;
  if (k == 0) { sigemptyset(s); return; }
  if (k == 1) { sigfillset(s); return; }
  n = SIGS;
  if (k == 2) { sigemptyset(s); sigaddset(s, n); }
  if (k == 3) { sigfillset(s); sigdelset(s, n); }
  if (k == 4) { sigemptyset(s); sigaddset(s, 10); sigaddset(s, 36); sigaddset(s, SHOOT); }
}
static void protect(void)
{
  sigset_t m;
#ifdef CL1
  monitor_sigaction(CL1, ch, 0, 0);
#endif
#ifdef CL2
  struct sigaction a;
  memset(&a, 0, sizeof(a));
  sigaddset(&a.sa_mask, 5);
  vf_mark("clientact", CL2);
  monitor_sigaction(CL2, ch, 0, &a);
  vf_mark("clientdone", CL2);
#endif
  vf_mark("protect");
}
int app_main(int argc, char **argv, char **envp)
{
  sigset_t s, old, cur;
  int how, r;
#if !LATE
  protect();
#endif
  /* any current mask, set by the client's real call */
  sigemptyset(&cur);
  if (vf_choose(0, 1)) { sigaddset(&cur, SHOOT); sigaddset(&cur, 36); sigaddset(&cur, 10); sigaddset(&cur, 13); }
  monitor_real_sigprocmask(SIG_SETMASK, &cur, 0);
#if LATE
  protect();
#endif
#if HAND
  {
    struct sigaction a;
    int v = vf_choose(0, 1), hsig = HSIG;
    memset(&a, 0, sizeof(a));
    if (v) { a.sa_sigaction = h3; a.sa_flags = SA_SIGINFO; } else a.sa_handler = h1;
    mkset(&a.sa_mask);
    vf_mark("action", hsig, &a.sa_mask);
    sigaction(hsig, &a, 0);
    vf_mark("actiondone", hsig);
  }
#else
#if TWICE
  sigemptyset(&s);
  how = vf_choose(1, 2);
#else
  mkset(&s);
  how = vf_choose(0, 4);
#endif
  if (how < 3) {
    vf_mark("call", how, &s);
    r = vf_choose(0, 1) ? MASKF(how, &s, &old) : MASKF(how, &s, 0);
    vf_mark("done", &s);
  } else if (how == 3) {
    vf_mark("call", 0, 0);
    r = MASKF(vf_choose(0, 2), 0, &old);
    vf_mark("done", 0);
    vf_mark("old", &old);
  } else {
    vf_mark("call", 2, &s);
    r = MASKF(SIG_SETMASK, &s, &old);
    vf_mark("done", &s);
    vf_mark("old", &old);
  }
#endif
#if TWICE
  sigemptyset(&cur);
  if (vf_choose(0, 1)) { sigaddset(&cur, SHOOT); sigaddset(&cur, 36); sigaddset(&cur, 10); sigaddset(&cur, 14); }
  monitor_real_pthread_sigmask(SIG_SETMASK, &cur, 0);
  mkset(&s);
  how = vf_choose(0, 2);
  vf_mark("call", how, &s);
  MASKF(how, &s, 0);
  vf_mark("done", &s);
#endif
  vf_mark("over");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''
RET = r'''
static void one(int how, const sigset_t *s, sigset_t *o)
{
  int r;
  vf_mark("begin");
  r = vf_choose(0, 1) ? sigprocmask(how, s, o) : pthread_sigmask(how, s, o);
  vf_mark("ret", r);
}
int app_main(int argc, char **argv, char **envp)
{
  sigset_t s, o;
  sigemptyset(&s);
  sigaddset(&s, 12);
  one(vf_choose(0, 2), vf_choose(0, 1) ? &s : 0, vf_choose(0, 1) ? &o : 0);
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''
ALL = [n for n in range(1, 65) if n not in (32, 33)]


class Rl(Auto):
    start = dict(how=None, req=None, cur=None, n=0, before=None)
    PROT = ()

    def ldset(self, ev, p):
        from models import ldset
        return ldset(ev.eng, ev.st, p)

    def mem(self, ev, s, n):
        return ss_mem(ev.eng, ev.st, s, n)

    def ev_mark(self, s, ev):
        n, a = ev.name, ev.args
        if n == "call":
            s.update(how=a[0], req=self.ldset(ev, a[1]) if a[1] else None, cur=curmask(ev.st), n=0)
        elif n == "done":
            now, cur, req = curmask(ev.st), s["cur"], s["req"]
            need(s["n"] >= 1, "the real function is not called")
            for g in ALL:
                was = self.mem(ev, cur, g)
                if req is None or g in self.PROT:
                    exp = was
                else:
                    r = self.mem(ev, req, g)
                    exp = (1 if was or r else 0) if s["how"] == 0 else (1 if was and not r else 0) if s["how"] == 1 else r
                if g in (9, 19):
                    continue
                need(self.mem(ev, now, g) == exp, "after %s signal %d is %s%s" % (
                    ("block", "unblock", "setmask")[s["how"]] if req is not None else "a query", g, "blocked" if not exp else "not blocked",
                    " although it is protected" if g in self.PROT else ""))
            if req is not None:
                need(self.ldset(ev, a[0]) == req, "the caller's signal set is modified")
            s.update(how=None)
        elif n == "old":
            o = self.ldset(ev, a[0])
            for g in ALL:
                need(self.mem(ev, o, g) == self.mem(ev, s["cur"], g), "the previous mask is reported wrong for signal %d" % g)
            s.update(cur=None, req=None)
        elif n == "action":
            s.update(req=self.ldset(ev, a[1]))
        elif n == "actiondone":
            h, f, m = disp(ev.eng, ev.st, a[0])
            for g in ALL:
                if g in (9, 19):
                    continue
                exp = 1 if g == self.SHOOT else 0 if g in self.PROT else self.mem(ev, s["req"], g)
                need(self.mem(ev, m, g) == exp, "during the handler of signal %d signal %d is %s" % (
                    a[0], g, ("not held back" if g == self.SHOOT else "not blocked") if exp else "blocked"))
            s.update(req=None)
        elif n == "clientdone":
            h, f, m = disp(ev.eng, ev.st, a[0])
            for g in ALL:
                exp = 1 if g in (self.SHOOT, 5) else 0
                need(self.mem(ev, m, g) == exp, "during the client's handler of signal %d signal %d is wrongly %s" % (a[0], g, "open" if exp else "blocked"))
        elif n == "protect":
            # all handlers hold back the shutdown signal from the beginning
            for g in ALL:
                if g in (9, 19):
                    continue
                h, f, m = disp(ev.eng, ev.st, g)
                need(self.mem(ev, m, self.SHOOT) == 1, "the shutdown signal is not held back during the handler of signal %d" % g)

    def ev_x(self, s, ev):
        if ev.name == "sigprocmask" and s["how"] is not None:
            s["n"] = min(2, s["n"] + 1)


class Ret(Auto):
    start = dict(r=None, on=0)

    def ev_mark(self, s, ev):
        if ev.name == "begin":
            s.update(on=1, r=None)
        else:
            need(s["r"] is not None, "the real function is not called")
            need(ev.args[0] == s["r"], "the result of the real function is not returned")
            s.update(on=0)

    def ev_x(self, s, ev):
        if ev.name == "sigprocmask" and s["on"]:
            s["r"] = ev.ret


def mk(name, fn, kinds, sigs, prot, shoot=42, cl1=None, cl2=None, hand=0, late=0, twice=0, cfg="default", args=(), env=None):
    d = "#define MASKF %s\n#define KINDS %s\n#define SIGS %s\n#define SHOOT %d\n#define HAND %d\n#define HSIG vf_choose(1, 3)\n#define LATE %d\n#define TWICE %d\n" % (fn, kinds, sigs, shoot, hand, late, twice)
    if cl1:
        d += "#define CL1 %d\n" % cl1
    if cl2:
        d += "#define CL2 %d\n" % cl2
    o = {}
    if env:
        o["getenv"] = {"MONITOR_SHOOTDOWN_SIGNAL": (env,)}
    return Scn(name, d + SRC, type("R", (Rl,), {"PROT": frozenset(prot) | {shoot}, "SHOOT": shoot, "scanned": None}), need=("mark:over",), ends=False, cap=8000,
               cfg=cfg, args=args, opts=o)


def check(ctx):
    sc = [Scn("result", RET, Ret, opts={"mask_ret": 1}, need=("mark:ret",), ends=False)]
    for fn in ("sigprocmask", "pthread_sigmask"):
        for a, b in ((1, 16), (17, 31), (34, 49), (50, 64)):
            sc.append(mk("%s-single-%d-%d" % (fn, a, b), fn, "vf_choose(2, 3)", "vf_choose(%d, %d)" % (a, b), {10}, cl1=10))
        sc.append(mk("%s-none" % fn, fn, "vf_choose(0, 4)", "36", ()))
        sc.append(mk("%s-two-clients" % fn, fn, "vf_choose(0, 4)", "vf_choose(9, 13)", {10, 36}, cl1=10, cl2=36))
        sc.append(mk("%s-twice" % fn, fn, "vf_choose(0, 4)", "10", {10}, cl1=10, twice=1))
        sc.append(mk("%s-late" % fn, fn, "vf_choose(0, 4)", "vf_choose(9, 13)", {10, 36}, cl1=10, cl2=36, late=1))
        sc.append(mk("%s-configured" % fn, fn, "vf_choose(0, 4)", "vf_choose(34, 44)", {27, 36}, cfg="open", args=("--enable-client-signals=SIGPROF,36",)))
    sc.append(mk("handler-none", "sigprocmask", "vf_choose(0, 4)", "vf_choose(1, 5)", (), hand=1))
    sc.append(mk("handler-clients", "sigprocmask", "vf_choose(0, 4)", "vf_choose(34, 44)", {10, 36}, cl1=10, cl2=36, hand=1))
    sc.append(mk("handler-configured", "sigprocmask", "vf_choose(0, 4)", "vf_choose(34, 38)", {27, 36}, hand=1, cfg="open", args=("--enable-client-signals=SIGPROF,36",)))
    ctx.run(sc)
