"""library-level callbacks"""
from fw import *
EXPLAIN = ("Typestate analysis of the library callbacks: init-library precedes every other callback and is never repeated; in "
           "preloaded programs every way the process image ends (exit, _exit, _Exit, fatal signal, successful exec, in parent and "
           "forked child) passes through exactly one fini-library, after fini-process and before the real terminating call.")

SRC = r'''
static void leave(int r)
{
  vf_mark("leave");
  switch (r) {
  case 1: exit(3);
  case 2: _exit(3);
  case 3: _Exit(3);
  case 5: vf_deliver(15, 0);
  case 6: execv("/bin/x", (char **) vf_ptr("av")); break;
  case 7: execvp("/bin/x", (char **) vf_ptr("av")); break;
  case 8: execve("/bin/x", (char **) vf_ptr("av"), (char **) vf_ptr("ev")); break;
  }
}
static void *body(void *a) { return a; }
void monitor_fini_library(void) { if (RE == 1) exit(4); if (RE == 2) _exit(4); if (RE == 3) vf_deliver(15, 0); }
int app_main(int argc, char **argv, char **envp)
{
  vf_mark("main");
  if (F == 1) { pid_t p = fork(); vf_mark("forked", p); }
  if (F == 2) { pid_t p = vfork(); vf_mark("forked", p); }
  if (F == 3) { pthread_t t; monitor_initialize(); pthread_create(&t, 0, body, 0); monitor_initialize(); }
  if (F == 4) { pid_t p = monitor_real_fork(); }
  leave(R);
  if (R >= 6) { vf_mark("survived"); leave(R2); }
  return 3;
}
void vf_main(void)
{
  if (F == 5) fork();
  if (F == 6) { pthread_t t; pthread_create(&t, 0, body, 0); }
  if (F == 7) monitor_initialize();
  START(app_main);
}
'''


class Rl(Auto):
    start = dict(lib=0, fini=0, proc=0, main=0, acc=0, late=0)

    def ev_cb(self, s, ev):
        n = ev.name
        if n == "monitor_init_library":
            need(s["lib"] == 0, "init-library delivered twice")
            need(s["main"] == 0, "init-library delivered after main started")
            s["lib"] = 1
        elif n == "monitor_fini_library":
            need(s["lib"] == 1, "fini-library without init-library")
            need(s["proc"] == 1, "fini-library delivered before fini-process")
            need(s["fini"] == 0, "fini-library delivered twice")
            need(self.mode == "dynamic", "fini-library delivered in a static program")
            s["fini"] = 1
        elif n == "monitor_fini_process":
            s["proc"] = 1
        elif n not in ("monitor_start_main_init", "monitor_pre_fork", "monitor_post_fork", "monitor_wrap_main"):
            need(s["lib"] == 1, "%s delivered before init-library" % n[8:])
        if n not in ("monitor_fini_library",):
            need(s["fini"] == 0 or s["late"], "%s delivered after fini-library" % n[8:])

    def ev_mark(self, s, ev):
        if ev.name == "main":
            s["main"] = 1
            need(s["lib"] == 1, "main starts before init-library")
        if ev.name == "survived":
            s["late"] = 1

    def ev_x(self, s, ev):
        if ev.name == "fork" and ev.ret == 0:
            s["fini"] = s["proc"] = 0
        if ev.name == "access":
            s["acc"] = 1 if ev.ret == 0 else 0
        if self.mode != "dynamic":
            return
        if ev.name in ("_exit", "_Exit"):
            need(s["fini"] == 1, "the process ends without fini-library")
        if ev.name.startswith("exec") and s["acc"]:
            need(s["fini"] == 1, "the program image is replaced without fini-library")

    def ev_env(self, s, ev):
        if ev.name in ("killed", "process_end") and self.mode == "dynamic":
            need(s["fini"] == 1, "the process ends without fini-library")


def src(R, F=0, RE=0, R2=1):
    return "#define R %d\n#define F %d\n#define RE %d\n#define R2 %d\n" % (R, F, RE, R2) + SRC


def check(ctx):
    sc = []
    rn = {0: "return", 1: "exit", 2: "_exit", 3: "_Exit", 5: "signal", 6: "execv", 7: "execvp", 8: "execve"}
    fn = {0: "plain", 1: "fork", 2: "vfork", 3: "threads", 4: "real_fork", 5: "fork-before-main", 6: "thread-before-main",
          7: "client-init"}
    o = {"create_ok": 1, "attr_ok": 1}
    for r in rn:
        for f in fn:
            if ctx.tier == "quick" and f and r not in (0, 2, 5, 8):
                continue
            sc.append(Scn("%s-%s" % (rn[r], fn[f]), src(r, f), Rl, opts=o, need=("mark:main",)))
    for r in (0, 2, 5):
        for re in (1, 2, 3):
            sc.append(Scn("%s-reenter%d" % (rn[r], re), src(r, 0, re), Rl, modes=("dynamic",), opts=o))
    for r2 in (0, 1, 2, 5):
        sc.append(Scn("failed-exec-then-%s" % rn[r2], src(8, 0, 0, r2), Rl, opts=o, need=("mark:survived",)))
    ctx.run(sc)
