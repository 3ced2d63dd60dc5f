"""process start-up protocol"""
from fw import *
EXPLAIN = ("Interprocedural typestate analysis of start-up: every path from the loader/crt entry (and from early entries: "
           "thread creation, fork or explicit initialisation before main) to the application's main is checked against the "
           "start-up automaton; argument values are tracked through memory by constant propagation.")

SRC = r'''
static void *tmain(void *a) { return a; }
void *monitor_init_process(int *argc, char **argv, void *data)
{
  vf_mark("init_process", *argc, argv, data);
  if (V == 4) { pthread_t t; pthread_create(&t, 0, tmain, 0); monitor_initialize(); }
  return vf_ptr("pdata");
}
int app_main(int argc, char **argv, char **envp)
{
  vf_mark("main", argc, argv, envp);
  vf_mark("addr", monitor_get_addr_main(), (void *) app_main);
  if (V == 5) { monitor_initialize(); pthread_t t; pthread_create(&t, 0, tmain, 0); }
  return vf_anyint("status");
}
void vf_main(void)
{
  pthread_t t;
  if (V == 1) { vf_mark("early"); pthread_create(&t, 0, tmain, 0); }
  if (V == 2) { vf_mark("early"); monitor_initialize(); monitor_initialize(); }
  if (V == 3) { fork(); }
  START(app_main);
}
'''


class R(Auto):
    start = dict(lib=0, proc=0, start=0, atmain=0, main=0, early=0)

    def ev_x(self, s, ev):
        if ev.name == "fork" and ev.ret == 0:
            s["proc"] = 0
            s["early"] = 1
        if ev.name == "exit":
            need(s["main"], "the program ends before the application's main was called")
            need(ev.args[0] == ("t", "any", "status"), "main's return value is not the process status")

    def ev_mark(self, s, ev):
        if ev.name == "early":
            s["early"] = 1
        if ev.name == "init_process" and not s["early"]:
            need(ev.args[0] == ("t", "any", "argc") and ev.args[1] == ("t", "any", "argv"),
                 "init-process does not see the program's argument vector")
        if ev.name == "addr":
            if self.mode == "dynamic":
                need(ev.args[0] == ev.args[1], "the reported address of main is not the application's main")
            else:
                need(ev.args[0] == ("x", "main"), "the reported address of main is not the application's main")
        if ev.name == "main":
            need(s["main"] == 0, "application main called twice")
            for k, n in (("lib", "init-library"), ("start", "start-main-init"), ("proc", "init-process"), ("atmain", "at-main")):
                need(s[k] == 1, "%s was not delivered before the application's main" % n)
            a = ("t", "any", "argc"), ("t", "any", "argv"), ("t", "any", "envp")
            need(ev.args == a, "main does not receive the original arguments")
            s["main"] = 1

    def ev_cb(self, s, ev):
        n = ev.name
        if n == "monitor_init_library":
            need(s["lib"] == 0, "init-library delivered twice")
            need(s["proc"] == 0, "init-library delivered after init-process")
            s["lib"] = 1
        elif n == "monitor_start_main_init":
            need(s["start"] == 0, "start-main-init delivered twice")
            need(s["main"] == 0, "start-main-init delivered after main")
            s["start"] = 1
        elif n == "monitor_init_process":
            need(s["lib"] == 1, "init-process delivered before init-library")
            need(s["proc"] == 0, "init-process delivered twice")
            if not s["early"]:
                need(s["start"] == 1, "init-process delivered before start-main-init")
                need(ev.args[2] == 0, "init-process of the initial process carries fork data")
            s["proc"] = 1
        elif n == "monitor_at_main":
            need(s["proc"] == 1, "at-main delivered before init-process")
            need(s["atmain"] == 0, "at-main delivered twice")
            need(s["main"] == 0, "at-main delivered after main")
            s["atmain"] = 1
        elif s["main"] == 0 and n not in ("monitor_pre_fork", "monitor_post_fork") and not n.startswith("monitor_thread") \
                and n not in ("monitor_init_thread_support", "monitor_reset_stacksize", "monitor_wrap_main"):
            raise Violation("unexpected client callback %s during start-up" % n)

    def at_end(self, s, how, st):
        need(how == "terminated:exit" and s["main"], "start-up path ends (%s) without running main" % how)


def check(ctx):
    names = {0: "normal", 1: "thread-before-main", 2: "explicit-init", 3: "fork-before-main", 4: "init-process-creates-thread",
             5: "init-after-main"}
    sc = []
    for v, n in names.items():
        for dbg in ((0, 1) if ctx.tier == "thorough" or v == 0 else (0,)):
            sc.append(Scn("%s-dbg%d" % (n, dbg), "#define V %d\n" % v + SRC, R, opts={"debug": dbg}, need=("mark:main",)))
    ctx.run(sc)
