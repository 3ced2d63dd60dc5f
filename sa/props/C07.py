"""system()"""
from fw import *
from models import disp, curmask, ss_mem, ss_add
EXPLAIN = ("Typestate and value analysis of system() over every outcome of the real fork, exec and wait (including any number of "
           "interrupted waits) for both values of the override switch: the dispositions of SIGINT and SIGQUIT and the signal mask "
           "are tracked through every path and compared with the caller's at the exec in the child and at the return in the parent; "
           "the shell's argument vector, the environment, the awaited process and the result are compared with the request.")

SRC = r'''
char *envv[] = { "A=1", "LD_PRELOAD=x", "C=3", 0 };
char **environ = envv;
char cmd[100];
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
void *monitor_pre_fork(void) { return vf_ptr("fdata"); }
static int doexec(const char *p, char **a, char **e)
{
  vf_assert(strcmp(p, "/bin/sh") == 0, "system does not run the shell");
  vf_assert(a[0] && strcmp(a[1], "-c") == 0 && a[2] == cmd && a[3] == 0, "the shell does not get the caller's command");
#if CLIENT
  vf_assert(e[0] == envv[0] && e[1] == envv[2] && e[2] == 0, "the shell does not get the environment without LD_PRELOAD");
#else
  vf_assert(e[0] == envv[0] && e[1] == envv[1] && e[2] == envv[2] && e[3] == 0, "the shell does not get the environment unchanged");
#endif
  vf_mark("exec");
  if (vf_nondet()) vf_end();
  vf_mark("execfail");
  return -1;
}
int vf_real_execve(const char *p, char *const a[], char *const e[]) { return doexec(p, (char **) a, (char **) e); }
int vf_real_execv(const char *p, char *const a[]) { return doexec(p, (char **) a, environ); }
int vf_real_system(const char *c) { vf_assert(c == CMD, "the real system gets a different command"); return vf_anyint("sysret"); }
static void use(void)
{
  int r;
  vf_mark("call", FN, CMD != 0);
  r = FN == 1 ? system(CMD) : monitor_real_system(CMD);
  vf_mark("ret", r);
}
static void *body(void *a) { use(); return a; }
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  struct sigaction sa;
#if DISP
  memset(&sa, 0, sizeof(sa));
  sa.sa_handler = DISP == 1 ? SIG_IGN : (void (*)(int)) vf_ptr("apph");
  sigaction(SIGINT, &sa, 0);
  sigaction(SIGQUIT, &sa, 0);
#endif
#if THR
  pthread_create(&t, 0, body, 0);
  vf_assume(vf_nthreads() == 1);
  vf_run_thread(1);
#else
  use();
#endif
#if TWICE
  use();
#endif
  vf_mark("leave");
  return 0;
}
void vf_main(void)
{
#if EARLY
  use();
#endif
  START(app_main);
}
'''


def snap(eng, st):
    return (disp(eng, st, 2), disp(eng, st, 3), curmask(st))


class Rl(Auto):
    start = dict(st=0, snap=None, pre=0, post=0, pid=None, wait=None, ret=None, acc=None, x=None, leave=0, nfork=0)
    override = 1
    client = 0

    def init_disp(self, sig):
        return ("t", "any", "disp%d" % sig) if sig in (2, 3) else 0

    def ev_mark(self, s, ev):
        if ev.name == "call":
            s.update(st=1, snap=snap(ev.eng, ev.st), pre=0, post=0, pid=None, wait=None, acc=None, x=None, cmd=ev.args[1], nfork=0)
        elif ev.name == "ret":
            need(s["st"] in (1, 2), "system returns in the child")
            r = ev.args[0]
            need(snap(ev.eng, ev.st) == s["snap"], "SIGINT, SIGQUIT or the signal mask are not restored when system returns")
            if not self.override:
                need(s["x"] is not None and r == s["x"], "the result of the real system is not returned")
                need(not s["pre"] and not s["post"], "fork callbacks although the override is switched off")
            elif not s["cmd"]:
                need(s["acc"] is not None and (r == 0) == (s["acc"] != 0) and type(r) is int, "system(NULL) does not report whether a shell exists")
                need(not s["pre"] and not s["post"] and not s["nfork"], "system(NULL) forks or delivers callbacks")
            else:
                need(s["nfork"] == 1, "system does not start exactly one process")
                if not self.client:
                    need(s["pre"] == 1 and s["post"] == 1, "system without pre-fork or post-fork")
                if s["pid"] == 0xffffffff:
                    need(r == 0xffffffff, "system does not report a failed fork")
                else:
                    need(s["wait"] is not None, "system returns without waiting for its child")
                    need(r == s["wait"], "system does not return the status of its child")
            s["st"] = 0
        elif ev.name == "exec":
            need(s["pid"] == 0, "exec in the parent")
            a = snap(ev.eng, ev.st)
            need(a[0] == s["snap"][0] and a[1] == s["snap"][1], "SIGINT or SIGQUIT are not restored in the child")
            need(a[2] == s["snap"][2], "the signal mask is not restored in the child")
        elif ev.name == "execfail":
            s["st"] = 5
        elif ev.name == "leave":
            s["leave"] = 1

    def ev_cb(self, s, ev):
        n = ev.name
        if s["leave"]:
            return
        if s["pid"] == 0:
            raise Violation("%s delivered in the child of system" % n)
        if n == "monitor_pre_fork":
            need(s["st"] == 1 and s["pid"] is None and not s["pre"], "pre-fork at the wrong time")
            need(not self.client, "pre-fork delivered for the client's system")
            s["pre"] = 1
        elif n == "monitor_post_fork":
            need(s["st"] == 2 and not s["post"], "post-fork at the wrong time")
            need(not self.client, "post-fork delivered for the client's system")
            need(s["pid"] == 0xffffffff or s["wait"] is not None, "post-fork before the command has finished")
            need(ev.args[0] == s["pid"], "post-fork does not report the result of fork")
            need(ev.args[1] == ("t", "any", "fdata"), "post-fork does not receive the pre-fork data")
            s["post"] = 1
        elif s["st"]:
            need(False, "%s delivered during system" % n)

    def ev_x(self, s, ev):
        n = ev.name
        if n == "errx":
            raise Violation("the library aborts the process")
        if n == "system":
            need(s["st"] == 1 and not self.override, "the real system is called")
            need(s["x"] is None, "the real system is called twice")
            s["x"] = ("t", "any", "sysret")
        if not s["st"]:
            return
        if n == "access":
            s["acc"] = ev.ret
        elif n == "fork":
            need(self.override and s["cmd"], "a process is started")
            need(s["nfork"] == 0, "system starts a second process")
            if not self.client:
                need(s["pre"] == 1, "the process is started before pre-fork")
            a = snap(ev.eng, ev.st)
            need(a[0][0] == 1 and a[1][0] == 1, "SIGINT and SIGQUIT are not ignored while the command runs")
            need(ss_mem(ev.eng, ev.st, a[2], 17) == 1, "SIGCHLD is not blocked while the command runs")
            need(ss_add(s["snap"][2], 17) == a[2], "signals other than SIGCHLD are blocked by system")
            s["nfork"], s["pid"], s["st"] = 1, ev.ret, 2
        elif n == "waitpid":
            need(s["st"] == 2 and s["pid"] == ev.args[0], "system waits for a process other than its child")
            need(s["wait"] is None, "system waits again after its child has ended")
            need(ev.args[2] in (0,), "system does not wait for the end of its child")
            a = snap(ev.eng, ev.st)
            need(a[0][0] == 1 and a[1][0] == 1 and ss_mem(ev.eng, ev.st, a[2], 17) == 1, "the signal state is restored before the child has ended")
            if ev.ret == 0xffffffff:
                if ev.args[-1] == 4:
                    pass
                else:
                    s["wait"] = 0xffffffff
            else:
                s["wait"] = ("t", "any", "waitstatus")
        elif n in ("exit", "_exit", "_Exit"):
            need(s["pid"] == 0 and s["st"] == 5, "process ended inside system")
            need(n != "exit", "the child runs the parent's exit handlers")
            need(ev.args[0] == 127, "the child does not report 127 if the shell cannot run")
            s["st"] = 9

    def at_end(self, s, how, st):
        need(s["st"] not in (1, 2) or how in ("cut",), "system does not return")


def mk(name, fn=1, null=0, disp=0, thr=0, twice=0, override=1, early=0, modes=("dynamic", "static")):
    d = "#define FN %d\n#define CMD %s\n#define DISP %d\n#define THR %d\n#define TWICE %d\n#define CLIENT %d\n#define EARLY %d\n" % (
        fn, "0" if null else "cmd", disp, thr, twice, int(fn == 2), early)
    cls = type("Rl_" + name, (Rl,), {"override": override, "client": int(fn == 2)})
    return Scn(name, d + SRC, cls, modes=modes, need=("mark:ret",) + (() if null or not override else ("mark:exec",)),
               opts={"create_ok": 1, "attr_ok": 1, "getenv": {"MONITOR_NO_SYSTEM_OVERRIDE": (0 if override else 1,)}})


def check(ctx):
    sc = []
    for d in (0, 1, 2):
        for t in (0, 1):
            sc.append(mk("command-D%d-T%d" % (d, t), disp=d, thr=t))
    sc += [mk("twice", twice=1), mk("null", null=1), mk("null-T", null=1, thr=1),
           mk("before-main", early=1), mk("plain", override=0), mk("plain-null", override=0, null=1), mk("plain-twice", override=0, twice=1)]
    ctx.run(sc)
