"""signal delivery: client first, then the application's disposition"""
from fw import *
from models import disp
EXPLAIN = ("Typestate analysis of signal delivery: every catchable signal number x disposition (inherited default, inherited ignore, set to default, ignored, "
           "one-argument or siginfo handler, set by signal or sigaction, set and reset again) x client (no handler, handler with unknown answer), as a fault or sent, "
           "twice in a row; the automaton demands the client's handler first with the original arguments and then exactly the effect of the disposition.")

SRC = r'''
static int kind, sync_, sig, before;
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
#if BLOCKALL
void monitor_fini_process(int how, void *data) { sigset_t s; sigfillset(&s); monitor_real_sigprocmask(SIG_BLOCK, &s, 0); }
#endif
static int ch(int s, siginfo_t *i, void *c) { int r = vf_anyint("ans"); vf_mark("client", s, i, c); return r; }
static void h1(int s) { vf_mark("h1", s); }
static void h3(int s, siginfo_t *i, void *c) { vf_mark("h3", s, i, c); }
static void other(int s) { vf_mark("other", s); }
static void set(int k)
{
  struct sigaction a;
  memset(&a, 0, sizeof(a));
  switch (k) {
  case 1: a.sa_handler = SIG_DFL; sigaction(sig, &a, 0); break;
  case 2: a.sa_handler = SIG_IGN; sigaction(sig, &a, 0); break;
  case 3: a.sa_handler = h1; a.sa_flags = SA_RESTART; sigaction(sig, &a, 0); break;
  case 4: a.sa_sigaction = h3; a.sa_flags = SA_SIGINFO; sigaction(sig, &a, 0); break;
  case 5: signal(sig, SIG_DFL); break;
  case 6: signal(sig, SIG_IGN); break;
  case 7: signal(sig, h1); break;
  case 8: a.sa_sigaction = h3; a.sa_flags = SA_SIGINFO | SA_RESETHAND | SA_NODEFER | SA_ONSTACK; sigfillset(&a.sa_mask); sigaction(sig, &a, 0); break;
  case 9: a.sa_handler = h1; a.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(sig, &a, 0); break;
  }
}
int app_main(int argc, char **argv, char **envp)
{
  int cl = CLIENT ? vf_choose(0, 2) : 0;
  sig = SIG;
  vf_assume(sig != 9 && sig != 19 && sig != 32 && sig != 33);
  if (cl == 1) monitor_sigaction(sig, ch, 0, 0);
#if PRE
  set(vf_choose(1, 9));
#endif
  kind = vf_choose(0, 9);
  if (PRE) signal(sig == 10 ? 12 : 10, other);
  set(kind);
  if (cl == 2) { struct sigaction a; memset(&a, 0, sizeof(a)); a.sa_flags = SA_RESETHAND | SA_ONSTACK; monitor_sigaction(sig, ch, 0, &a); }
#if PRE
  if (kind == 0) vf_end();
#endif
  sync_ = vf_choose(0, 1);
  if (sync_) vf_assume(sig == 11 || sig == 7 || sig == 4 || sig == 8 || sig == 5);
  vf_mark("deliver", sig, kind, cl, sync_);
  vf_deliver(sig, sync_);
  vf_mark("back");
  vf_mark("deliver", sig, kind, cl, 0);
  vf_deliver(sig, 0);
  vf_mark("back");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''
NOTERM = (17, 18, 23, 28)
STOP = (20, 21, 22)
SI, UC = ("t", "any", "siginfo"), ("t", "any", "ucontext")


class Rl(Auto):
    start = dict(sig=0, kind=0, cl=0, client=0, app=0, beg=0, fin=0, stop=0, on=0, h=None)
    INH = 0                # inherited disposition: SIG_DFL or SIG_IGN

    def init_disp(self, sig):
        return self.INH

    def ev_mark(self, s, ev):
        n = ev.name
        if n == "deliver":
            sig, kind, cl, sync = ev.args[:4]
            s.update(sig=sig, kind=kind, cl=cl, client=0, app=0, stop=0, on=1)
            h = disp(ev.eng, ev.st, sig)
            need(type(h[0]) is tuple and h[0][0] == "f" and not h[0][1].startswith("drv_"), "signal %d is not caught by the library's handler" % sig)
            s["h"] = h
        elif n == "client":
            need(s["on"] == 1, "the client's handler runs without a signal")
            need(s["cl"] != 0, "the client's handler runs although not registered")
            need(s["client"] == 0, "the client's handler runs twice for one signal")
            need(not s["app"] and not s["beg"] and not s["stop"], "the application's disposition is applied before the client's handler")
            need(ev.args[:3] == (s["sig"], SI, UC), "the client's handler does not get the original signal arguments")
            s["client"] = 1
        elif n in ("h1", "h3"):
            self.applied(s, ev)
            need((s["kind"] in (3, 7, 9)) == (n == "h1"), "the wrong application handler runs")
            need(s["kind"] in (3, 4, 7, 8, 9), "an application handler runs although the disposition is default or ignore")
            need(s["app"] == 0, "the application's handler runs twice for one signal")
            need(ev.args[0] == s["sig"], "the application's handler gets the wrong signal number")
            if n == "h3":
                need(ev.args[1:3] == (SI, UC), "the application's handler does not get the original siginfo and context")
            s["app"] = 1
        elif n == "other":
            raise Violation("the handler of another signal runs")
        elif n == "back":
            a = self.accepted(s, ev.st)
            k = s["kind"]
            if s["cl"]:
                need(s["client"], "the client's handler is not offered the signal")
            if k in (3, 4, 7, 8, 9) and a is not True:
                if a is False:
                    need(s["app"] == 1, "the application's handler does not run")
                else:
                    need(s["app"] == 1, "the application's handler does not run although the client may have declined")
            if self.dfl(k) and a is not True:
                need(s["sig"] in NOTERM or s["sig"] in STOP, "signal %d does not terminate the process by default" % s["sig"])
                if s["sig"] in STOP:
                    need(s["stop"] == 1, "signal %d does not stop the process by default" % s["sig"])
            h = disp(ev.eng, ev.st, s["sig"])
            need(h == s["h"], "delivery of signal %d changes its installed handling" % s["sig"])
            s.update(on=0, h=None)

    def dfl(self, k):
        return k in (1, 5) or k == 0 and self.INH == 0

    def accepted(self, s, st):
        """did the client accept (return 0)? True, False or None"""
        if not s["client"]:
            return False
        f = st.facts.get(((("t", "any", "ans"), 1),))
        if f is None:
            return None
        if f[0] == 0 and f[1] == 0:
            return True
        if 0 in f[2] or f[0] is not None and f[0] > 0 or f[1] is not None and f[1] < 0:
            return False
        return None

    def applied(self, s, ev):
        need(s["on"] == 1, "an application action without a signal")
        if s["cl"]:
            need(s["client"] == 1, "the application's disposition is applied before the client was offered the signal")
            need(self.accepted(s, ev.st) is False, "the application's disposition is applied although the client may have accepted the signal")

    def ev_cb(self, s, ev):
        n = ev.name
        if n in ("monitor_begin_process_exit", "monitor_fini_process"):
            self.applied(s, ev)
            need(self.dfl(s["kind"]), "%s although the disposition is not default" % n)
            need(s["sig"] not in NOTERM + STOP, "%s for signal %d whose default action does not terminate" % (n, s["sig"]))
            if n == "monitor_begin_process_exit":
                need(s["beg"] == 0, "begin-exit twice")
                s["beg"] = 1
            else:
                need(s["beg"] == 1 and s["fin"] == 0, "fini-process twice or before begin-exit")
                s["fin"] = 1
        elif n == "monitor_fini_thread":
            raise Violation("fini-thread by an ordinary signal")

    def ev_x(self, s, ev):
        if ev.name == "raise" and s["on"]:
            if ev.args[0] == 19:
                self.applied(s, ev)
                need(self.dfl(s["kind"]) and s["sig"] in STOP, "the process is stopped by signal %d" % s["sig"])
                need(s["stop"] == 0, "the process is stopped twice")
                s["stop"] = 1

    def ev_env(self, s, ev):
        if ev.name == "killed":
            self.applied(s, ev)
            need(ev.args[0] == s["sig"], "the process is killed by signal %d instead of %d" % (ev.args[0], s["sig"]))
            need(self.dfl(s["kind"]), "the process is killed although the disposition is not default")
            need(s["beg"] and s["fin"], "the process is killed by a signal without the exit callbacks")

    def at_end(self, s, how, st):
        if s["on"]:
            need(how.startswith("terminated:signal"), "delivery of signal %d ends with %s" % (s["sig"], how))


def mk(name, sigs, client=1, inh=0, pre=0, blockall=0, cfg="default", args=()):
    s = "#define SIG vf_choose(%d, %d)\n#define CLIENT %d\n#define PRE %d\n#define BLOCKALL %d\n" % (sigs[0], sigs[1], client, pre, blockall) + SRC
    return Scn(name, s, type("R", (Rl,), {"INH": inh}), need=("mark:deliver", "mark:back"), ends=False, cap=6000, cfg=cfg, args=args)


def check(ctx):
    sc = []
    for a, b in ((1, 8), (10, 18), (20, 31), (34, 44), (45, 54), (55, 64)):
        sc.append(mk("signals-%d-%d" % (a, b), (a, b)))
        sc.append(mk("signals-%d-%d-inherited-ignore" % (a, b), (a, b), inh=1))
    for x in (2, 7, 11, 17, 20, 40):
        sc.append(mk("signal-%d-reset" % x, (x, x), pre=1))
        sc.append(mk("signal-%d-blocked-by-callback" % x, (x, x), blockall=1))
    ctx.run(sc)
