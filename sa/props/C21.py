"""signal and sigaction behave like the system's"""
from fw import *
from models import disp, ss_mem, EMPTY
EXPLAIN = ("Typestate analysis of sigaction and signal: every signal number 1..64 and representative invalid numbers x sequences of up to three settings and queries with "
           "every kind of action (default, ignore, handler, flag combinations, masks), client registration before or after, inherited dispositions; the driver "
           "compares what is reported with what was set, and the rule checks on every real sigaction the handler, flags and target, and that nothing else is installed.")

SRC = r'''
#include <errno.h>
static int sig;
static int ch(int s, siginfo_t *i, void *c) { return 0; }
static void h1(int s) { }
static void h2(int s) { }
static void h3(int s, siginfo_t *i, void *c) { }
static struct sigaction cur;      /* what the application believes is set */
static int curmask2;              /* is signal 2 in the mask of cur? */
static int bysignal;              /* set by signal(): only the handler counts */
static void mk(struct sigaction *a, int k)
{
  memset(a, 0, sizeof(*a));
  switch (k) {
  case 0: a->sa_handler = SIG_DFL; break;
  case 1: a->sa_handler = SIG_IGN; a->sa_flags = SA_ONSTACK; break;
  case 2: a->sa_handler = h1; a->sa_flags = SA_RESTART | SA_NOCLDSTOP; sigaddset(&a->sa_mask, 2); break;
  case 3: a->sa_sigaction = h3; a->sa_flags = SA_SIGINFO | SA_RESETHAND | SA_ONSTACK; sigfillset(&a->sa_mask); break;
  case 4: a->sa_handler = h2; a->sa_flags = SA_NODEFER; break;
  }
}
static void check(struct sigaction *o)
{
  vf_assert(o->sa_handler == cur.sa_handler, "sigaction reports a handler other than the application's last one");
  if (!bysignal) {
    vf_assert(o->sa_flags == cur.sa_flags, "sigaction reports flags other than the application's last ones");
    vf_assert(sigismember(&o->sa_mask, 2) == sigismember(&cur.sa_mask, 2) && sigismember(&o->sa_mask, 12) == sigismember(&cur.sa_mask, 12)
      && sigismember(&o->sa_mask, SHOOT) == sigismember(&cur.sa_mask, SHOOT), "sigaction reports a mask other than the application's last one");
  }
}
static void op(void)
{
  struct sigaction a, o;
  int k = vf_choose(0, 9), r;
  o.sa_handler = h2;
  if (k <= 4) {
    mk(&a, k);
    vf_mark("set", sig, a.sa_handler, a.sa_flags);
    if (vf_choose(0, 1)) {
      r = sigaction(sig, &a, &o);
      vf_assert(r == 0, "sigaction fails for a valid signal");
      check(&o);
    } else {
      r = sigaction(sig, &a, 0);
      vf_assert(r == 0, "sigaction fails for a valid signal");
    }
    mk(&cur, k);
    bysignal = 0;
  } else if (k <= 8) {
    void (*h)(int) = k == 5 ? SIG_DFL : k == 6 ? SIG_IGN : k == 7 ? h1 : h2;
    vf_mark("set", sig, h, 0);
    vf_assert(signal(sig, h) == cur.sa_handler, "signal does not return the previous handler");
    cur.sa_handler = h;
    bysignal = 1;
  } else {
    vf_mark("query", sig);
    vf_assert(sigaction(sig, 0, &o) == 0, "a sigaction query fails for a valid signal");
    check(&o);
  }
  vf_mark("done");
}
int app_main(int argc, char **argv, char **envp)
{
  int cl = CLIENT, i;
  sig = SIG;
  vf_assume(sig != 9 && sig != 19 && sig != 32 && sig != 33);
  memset(&cur, 0, sizeof(cur));
  cur.sa_handler = INH ? SIG_IGN : SIG_DFL;
  if (cl == 1) monitor_sigaction(sig, ch, 0, 0);
  op();
  if (cl == 2) { struct sigaction a; mk(&a, 3); vf_mark("client"); monitor_sigaction(sig, ch, 0, &a); vf_mark("done"); }
  for (i = 1; i < OPS; i++) op();
  vf_mark("over");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''
BAD = r'''
#include <errno.h>
static void h1(int s) { }
int app_main(int argc, char **argv, char **envp)
{
  static int num[] = { 0, -1, -2147483647 - 1, 65, 66, 127, 128, 1000, 2147483647, 32, 33, 9, 19 };
  int i = vf_choose(0, 12), r;
  int sig = num[i], k = vf_choose(0, 6);
  struct sigaction a, o;
  memset(&a, 0, sizeof(a));
  memset(&o, 0x5a, sizeof(o));
  a.sa_handler = k & 1 ? h1 : k & 2 ? SIG_IGN : SIG_DFL;
  errno = 0;
  vf_mark("bad", sig, k);
  if (k == 6) {
    vf_assert(signal(sig, h1) == SIG_ERR, "signal accepts an invalid signal number");
  } else if (k == 5) {
    r = sigaction(sig, 0, &o);
    if (sig == 9 || sig == 19) { vf_assert(r == 0 && o.sa_handler == SIG_DFL, "querying an uncatchable signal fails"); vf_end(); }
    vf_assert(r == -1, "sigaction accepts an invalid signal number");
  } else {
    r = sigaction(sig, &a, &o);
    vf_assert(r == -1, "sigaction accepts an invalid signal number");
  }
  vf_assert(errno == EINVAL, "an invalid signal number does not give EINVAL");
  vf_assert(o.sa_flags == 0x5a5a5a5a, "a failing sigaction writes its result");
  vf_mark("over");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''
REQ = 4 | 0x10000000
FORB = 0x80000000 | 0x08000000
M32 = 0xffffffff


class Rl(Auto):
    start = dict(op=None, sig=0, h=None, fl=0, n=0, base=None)
    INH = 0

    def init_disp(self, sig):
        return self.INH

    def ev_mark(self, s, ev):
        n = ev.name
        if n == "set":
            s.update(op="set", sig=ev.args[0], h=ev.args[1], fl=ev.args[2], n=0)
            s["base"] = self.snap(ev)
        elif n == "query":
            s.update(op="query", sig=ev.args[0], n=0)
            s["base"] = self.snap(ev)
        elif n == "client":
            s.update(op="client", n=0, fl=FORB)
            s["base"] = self.snap(ev)
        elif n == "bad":
            s.update(op="bad", sig=ev.args[0], n=0)
            s["base"] = self.snap(ev)
        elif n in ("done", "over"):
            if s["op"] is None:
                return
            b = dict(s["base"])
            now = dict(self.snap(ev))
            for k in now:
                if k == s["sig"] and s["op"] in ("set", "client"):
                    h, f, m = disp(ev.eng, ev.st, k)
                    need(h == b[k][0], "setting signal %d displaces the library's handler" % k)
                    need(type(f) is int and f & REQ == REQ, "signal %d loses siginfo or restart delivery" % k)
                    need(f & FORB == 0, "signal %d is installed with one-shot or alternate-stack delivery" % k)
                    if s["op"] == "set":
                        need((f & ~REQ) & M32 == (s["fl"] & ~REQ & ~FORB) & M32, "signal %d is installed with flags %x for %x" % (k, f, s["fl"] & M32))
                else:
                    need(now[k] == b[k], "%s for signal %d changes the handling of signal %d" % (s["op"], s["sig"], k))
            s.update(op=None, base=None, h=None, fl=0)

    def snap(self, ev):
        return tuple((k, disp(ev.eng, ev.st, k)) for k in range(1, 65))

    def ev_x(self, s, ev):
        if ev.name == "signal":
            raise Violation("the real signal() is called")
        if ev.name == "sigaction" and s["op"]:
            sig, act, old, info = ev.args
            if s["op"] == "query":
                need(info is None, "a query installs something")
            if s["op"] == "bad":
                need(info is None or sig in (9, 19), "an invalid number installs something")
            if info is not None and sig not in (9, 19):
                need(type(info[0]) is tuple and info[0][0] == "f" and not info[0][1].startswith("drv_"), "the library's handler of signal %d is displaced" % sig)

    def at_end(self, s, how, st):
        pass


def mk(name, sigs, client=0, inh=0, ops=2):
    s = "#define SIG vf_choose(%d, %d)\n#define CLIENT %d\n#define INH %d\n#define OPS %d\n#define SHOOT 42\n" % (sigs[0], sigs[1], client, inh, ops) + SRC
    return Scn(name, s, type("R", (Rl,), {"INH": inh}), need=("mark:over",), ends=False, cap=6000)


def check(ctx):
    sc = [Scn("invalid-numbers", BAD, Rl, need=("mark:over",), ends=False, cap=2000)]
    for a, b in ((1, 8), (10, 18), (20, 31), (34, 44), (45, 54), (55, 64)):
        sc.append(mk("signals-%d-%d" % (a, b), (a, b), ops=1))
    for x in (2, 12, 17, 20, 42, 64):
        sc.append(mk("signal-%d-sequence" % x, (x, x), ops=2))
        sc.append(mk("signal-%d-client-first" % x, (x, x), client=1))
        sc.append(mk("signal-%d-client-later" % x, (x, x), client=2))
        sc.append(mk("signal-%d-inherited-ignore" % x, (x, x), inh=1))
    if ctx.tier == "thorough":
        for x in (11, 42):
            sc.append(mk("signal-%d-long-sequence" % x, (x, x), ops=3))
    ctx.run(sc)
