"""the shutdown signal"""
from fw import *
from models import disp, ss_mem
EXPLAIN = ("Typestate analysis of the choice of the shutdown signal: environment absent, unparsable text or any number -3..70 and extremes x configured choices and client-signal lists x which call "
           "initialises the library and what client and application do with signals afterwards; the signal is observed in the masks of the installed handlers, in the shutdown "
           "handler and in the signals sent to threads at process end, and compared with the specified choice.")

SRC = r'''
#include <errno.h>
void *monitor_thread_pre_create(void) { return vf_ptr("tpre"); }
static int ch(int s, siginfo_t *i, void *c) { return 0; }
static void h1(int s) { }
int vf_real_pthread_kill(pthread_t t, int s) { vf_mark("kill", s); vf_end(); return 0; }
void vf_on_sleep(void) { vf_mark("nobody"); vf_end(); }
static void later(void)
{
  sigset_t s;
  switch (vf_choose(0, 4)) {
  case 1: vf_mark("snap"); monitor_sigaction(42, ch, 0, 0); monitor_sigaction(28, ch, 0, 0); break;
  case 2: vf_mark("snap"); signal(42, h1); signal(12, h1); break;
  case 3: sigfillset(&s); pthread_sigmask(SIG_BLOCK, &s, 0); break;
  case 4: signal(42, SIG_IGN); break;
  }
}
static void *body(void *a)
{
  later();
  vf_mark("snap");
  vf_setself(0);
  exit(0);
  return a;
}
#if FIRST == 1
void *monitor_init_process(int *c, char **v, void *d) { monitor_sigaction(43, ch, 0, 0); return d; }
#endif
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  pthread_create(&t, 0, body, 0);
  vf_assume(vf_nthreads() >= 1);
  vf_run_thread(vf_nthreads());
  vf_end();
  return 0;
}
void vf_main(void)
{
#if FIRST == 2
  sigset_t s;
  sigemptyset(&s);
  sigprocmask(SIG_BLOCK, &s, 0);
#endif
#if FIRST == 3
  monitor_sigaction(10, ch, 0, 0);
#endif
#if FIRST == 4
  signal(12, h1);
#endif
#if FIRST == 5
  pthread_t t;
  pthread_create(&t, 0, body, 0);
#endif
  START(app_main);
}
'''
STOP = (20, 21, 22)


def valid(x):
    return 1 <= x <= 64 and x not in (9, 19, 32, 33) + STOP


class Rl(Auto):
    start = dict(scan="absent", sig=None, by=None)
    OPEN = ()
    CONF = 0
    scanned = list(range(-3, 71)) + [127, 128, 1000, -2147483648, 2147483647]

    def fix(self, s, sig, by):
        need(type(sig) is int, "the shutdown signal is not a definite signal number")
        if s["sig"] is not None:
            need(s["sig"] == sig, "the shutdown signal changes from %s to %s" % (s["sig"], sig))
            return
        s["sig"] = sig
        need(valid(sig), "the shutdown signal %s is not a catchable, non-stopping signal" % sig)
        sc = s["scan"]
        if sc not in ("absent", None) and valid(sc):
            need(sig == sc, "the environment's choice %s of the shutdown signal is not honoured (%s)" % (sc, sig))
        elif valid(self.CONF):
            need(sig == self.CONF, "the configured shutdown signal %s is not used (%s)" % (self.CONF, sig))
        else:
            need(sig not in self.OPEN, "the shutdown signal %s is one held open for the client" % sig)

    def ev_x(self, s, ev):
        if ev.name == "sscanf" and s["scan"] == "absent" and s["sig"] is None:
            s["scan"] = ev.args[0]
        if ev.name == "sigaction":
            sig, act, old, info = ev.args
            if info is not None and sig not in (9, 19) and info[0] not in (0, 1):
                m = [g for g in range(1, 65) if ss_mem(ev.eng, ev.st, info[2], g) == 1]
                if s["sig"] is None and s["by"] is None:
                    need(len(m) == 1, "the first handler installed does not hold back exactly the shutdown signal")
                if len(m) == 1:
                    self.fix(s, m[0], "mask")
                if s["by"] is None:
                    s["by"] = 1

    def ev_mark(self, s, ev):
        if ev.name == "kill":
            self.fix(s, ev.args[0], "kill")
            h = disp(ev.eng, ev.st, s["sig"])[0]
            need(type(h) is tuple and h[0] == "f", "no handler is installed for the shutdown signal when it is sent")
            need(h != disp(ev.eng, ev.st, 30 if s["sig"] != 30 else 31)[0], "the shutdown signal is sent without the shutdown handler installed")
        elif ev.name == "snap":
            need(s["sig"] is not None, "the shutdown signal is not chosen before the application's signal settings")


def mk(name, first=0, open=(), conf=0, env=(0,), args=(), cfg="default", scanned=None, modes=("dynamic", "static")):
    d = {"OPEN": frozenset(open), "CONF": conf}
    if scanned:
        d["scanned"] = scanned
    return Scn(name, "#define FIRST %d\n" % first + SRC, type("R", (Rl,), d), opts={"create_ok": 1, "attr_ok": 1, "malloc_ok": 1, "getenv": {"MONITOR_SHOOTDOWN_SIGNAL": env}},
               need=("mark:kill",), ends=False, cap=3000, cfg=cfg, args=args, modes=modes)


def check(ctx):
    sc = []
    few = [-1, 0, 9, 10, 19, 20, 33, 34, 36, 42, 64, 65]
    for k in range(0, 80, 8):
        x = Rl.scanned[k:k + 8]
        if x:
            sc.append(mk("environment-%d" % k, env=(1,), scanned=x))
    for f in range(6):
        sc.append(mk("first-call-%d" % f, first=f, env=(0, 1), scanned=few))
    rt = list(range(42, 57))
    for nm, o, c, a in (("client-42", (42,), 0, ("--enable-client-signals=42",)),
                        ("client-rt-and-usr", rt + [12, 10], 0, ("--enable-client-signals=%s,SIGUSR2,SIGUSR1" % ",".join(map(str, rt)),)),
                        ("config-usr1", (), 10, ("--enable-shootdown-signal=SIGUSR1",)),
                        ("config-kill", (), 9, ("--enable-shootdown-signal=SIGKILL",)),
                        ("config-34-client-34", (34,), 34, ("--enable-shootdown-signal=34", "--enable-client-signals=34")),
                        ("config-200", (), 200, ("--enable-shootdown-signal=200",)),
                        ("config-33-client-out-of-range", (42, 27), 33, ("--enable-shootdown-signal=33", "--enable-client-signals=100,42,27"))):
        sc.append(mk(nm, open=o, conf=c, args=a, cfg=nm, env=(0, 1), scanned=few, modes=("dynamic",)))
    ctx.run(sc)
