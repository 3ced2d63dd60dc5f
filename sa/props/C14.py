"""stack size adjustment"""
from fw import *
EXPLAIN = ("Resource-state analysis of every pthread_attr_* call around thread creation: all combinations of failure of attribute "
           "initialisation, size query, size change and creation; with and without application attributes; client keeping, changing or "
           "perhaps changing the size; creations by main and by a side thread, repeated with the same attributes object, monitored and ignored.")

SRC = r'''
static int npre;
static void *plain(void *a) { return a; }
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
void *monitor_thread_pre_create(void) { npre++; return IGN && npre == 1 ? MONITOR_IGNORE_NEW_THREAD : vf_ptr("pre"); }
void *monitor_init_thread(int t, void *data) { return vf_ptr("tdata"); }
size_t monitor_reset_stacksize(size_t old)
{
  size_t n = HOW == 1 ? old : HOW == 2 ? old + 4096 : HOW == 5 ? old - 4096 : vf_nondet() ? old : old + 4096;
  vf_mark("reset", old, n);
  return n;
}
static void create(void)
{
  int r;
  pthread_t t;
  pthread_attr_t *at = ATTR ? (pthread_attr_t *) vf_ptr("attr") : 0;
  vf_mark("call", at);
  r = pthread_create(&t, at, plain, 0);
  vf_mark("ret", r);
}
static void *side(void *a) { create(); if (TWICE) create(); return a; }
int app_main(int argc, char **argv, char **envp)
{
  if (WHO == 0) { create(); if (TWICE) create(); }
  if (WHO == 1) {
    pthread_t t;
    vf_mark("call", (void *) 0);
    int r = pthread_create(&t, 0, side, 0);
    vf_mark("ret", r);
    vf_assume(r == 0);
    vf_run_thread(1);
  }
  return 0;
}
void vf_main(void) { START(app_main); }
'''
APP = ("t", "any", "attr")


def size(ev, a):
    for k, v in ev.st.env.get("stk", ()):
        if k == a:
            return v
    return ("t", "stk", a)


class Rl(Auto):
    start = dict(on=0)

    def ev_mark(self, s, ev):
        if ev.name == "call":
            s.update(on=1, at=ev.args[0], old=None, new=None, fail=0, stuck=0, own=None, made=0, orig=size(ev, APP), asked=0)
        elif ev.name == "reset":
            need(s["asked"] == 0, "the client is asked for a stack size twice")
            need(ev.args[0] == s["cur"], "the client is not asked with the size the thread would have")
            s.update(old=ev.args[0], new=ev.args[1], asked=1)
        elif ev.name == "ret":
            need(s["made"] == 1, "pthread_create does not make exactly one real creation")
            if not s["stuck"]:
                need(size(ev, APP) == s["orig"], "the application's attributes object keeps the changed stack size after pthread_create")
            need(s["own"] is None, "an internal attributes object is not destroyed")
            s["on"] = 0

    def ev_x(self, s, ev):
        n = ev.name
        if not s["on"]:
            return
        if n == "errx":
            raise Violation("the library aborts the process")
        a = ev.args[0] if ev.args else None
        if n == "pthread_attr_init":
            need(s["own"] is None, "attributes object initialised twice")
            need(a != APP, "the application's attributes object is initialised again")
            if ev.ret == 0:
                s["own"] = a
                s["cur"] = ("t", "stk", a)
            else:
                s["fail"] = 1
        elif n == "pthread_attr_destroy":
            need(s["own"] == a, "an attributes object is destroyed that is not an initialised internal one")
            s["own"] = None
        elif n == "pthread_attr_getstacksize":
            need(a == s["at"] and a != 0 or a == s["own"], "stack size taken from an uninitialised attributes object")
            if ev.ret:
                s["fail"] = 1
            else:
                s["cur"] = size(ev, a)
        elif n == "pthread_attr_setstacksize":
            need(a == s["at"] and a != 0 or a == s["own"], "stack size set in an uninitialised attributes object")
            if s["made"]:
                need(a != APP or ev.args[1] == s["orig"], "the application's attributes object gets a wrong size back")
                if ev.ret:
                    s["stuck"] = 1
            else:
                if ev.ret:
                    s["fail"] = 1
        elif n == "pthread_create":
            need(s["made"] == 0, "two real creations")
            s["made"] = 1
            at = ev.args[1]
            if at != s["at"]:
                need(at == s["own"] and at is not None, "the real creation uses an attributes object that is not initialised")
                need(s["at"] == 0, "the real creation does not use the application's attributes")
            if self.IGN and s["asked"] == 0:
                need(at == s["at"], "an ignored thread does not get the caller's attributes")
                return
            if s["old"] is not None and s["old"] == s["new"]:
                need(at == s["at"], "the caller's attributes pointer is not passed unchanged although the client kept the size")
            if not s["fail"] and s["asked"] == 0:
                raise Violation("the client is not asked for the stack size")
            if not s["fail"] and s["asked"] and s["old"] != s["new"]:
                need(at != 0, "the client's stack size is not used")
                need(size(ev, at) == s["new"], "the thread is created with a stack size the client did not choose")
            if at == APP and s["fail"]:
                need(size(ev, at) == s["orig"] or size(ev, at) == s["new"], "the thread is created with a stack size nobody chose")


def mk(name, who, attr, how, ign=0, twice=0, modes=("dynamic", "static"), opts=None):
    s = "#define WHO %d\n#define ATTR %d\n#define HOW %d\n#define IGN %d\n#define TWICE %d\n" % (who, attr, how, ign, twice) + SRC
    o = {"malloc_ok": 1}
    o.update(opts or {})
    return Scn(name, s, type("R", (Rl,), {"HOW": how, "IGN": ign}), modes=modes, opts=o, need=("x:pthread_create", "mark:ret"))


def check(ctx):
    sc = []
    for who in (0, 1):
        for attr in (0, 1):
            for how in (1, 2, 4, 5):
                sc.append(mk("who%d-attr%d-how%d" % (who, attr, how), who, attr, how, twice=1))
            sc.append(mk("who%d-attr%d-ignored" % (who, attr), who, attr, 2, ign=1, twice=1))
    ctx.run(sc)
