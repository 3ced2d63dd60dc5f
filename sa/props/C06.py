"""exec family"""
from fw import *
EXPLAIN = ("Typestate and value analysis of the whole exec family: for every variant, argument count, PATH shape and set of "
           "executable files (the file system is an oracle of the driver), the path, every argv element and the environment that "
           "reach the real exec are compared with the caller's, and the exit callbacks must be delivered exactly when the named file "
           "is executable.")

SRC = r'''
char pool[400];
char *envv[] = { "A=1", "LD_PRELOAD=x", 0 };
char **environ = envv;
char *myenv[] = { "B=2", 0 };
static int nexec, expect_env;
static const char *expect_path;
static char **exp_argv;
static int called;
void *monitor_init_process(int *argc, char **argv, void *data) { return vf_ptr("pdata"); }
/* the file system: which names are executable */
int vf_real_access(const char *p, int mode)
{
  static const char *ex[] = { EXES 0 };
  int i;
  vf_mark("access");
  vf_assert(mode == 1, "the file is not tested for execute permission");
  for (i = 0; ex[i]; i++)
    if (strcmp(ex[i], p) == 0) return 0;
  errno = 13;
  return -1;
}
static int real(const char *path, char **argv, char **env, int search)
{
  int i;
  vf_assert(!called, "the real exec is tried twice");
  called = 1;
  vf_assert(path == expect_path, "the real exec gets a different path");
  if (exp_argv) {
    for (i = 0; exp_argv[i]; i++)
      vf_assert(argv[i] == exp_argv[i], "the real exec gets a different argument list");
    vf_assert(argv[i] == 0, "the argument list is not terminated");
  }
  else
    vf_assert(argv == (char **) vf_ptr("av"), "the real exec gets a different argument list");
  vf_assert(env == (expect_env ? myenv : envv), "the real exec gets a different environment");
  if (!SEARCH) vf_assert(!search, "a plain exec searches the PATH");
  vf_mark("real", search);
  if (vf_nondet()) { vf_mark("replaced"); vf_end(); }
  errno = 2;
  return -1;
}
int vf_real_execv(const char *p, char *const a[]) { return real(p, (char **) a, environ, 0); }
int vf_real_execve(const char *p, char *const a[], char *const e[]) { return real(p, (char **) a, (char **) e, 0); }
int vf_real_execvp(const char *p, char *const a[]) { return real(p, (char **) a, environ, 1); }
int vf_real_execvpe(const char *p, char *const a[], char *const e[]) { return real(p, (char **) a, (char **) e, 1); }
static void *body(void *a) { return a; }
int app_main(int argc, char **argv, char **envp)
{
  int r;
  static const char file[] = FILE_;
  expect_path = file;
  INIT
  vf_mark("call", WILL);
  r = CALL;
  vf_mark("failed", r);
  vf_assert(called, "the real exec was not tried");
  if (!WILL) {
    /* still fully monitored */
    pthread_t t;
    pthread_create(&t, 0, body, 0);
    vf_mark("leave");
    exit(3);
  }
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''


class Rl(Auto):
    start = dict(call=0, will=0, begin=0, fini=0, real=0, leave=0)

    def ev_mark(self, s, ev):
        if ev.name == "call":
            s["call"], s["will"] = 1, ev.args[0]
        elif ev.name == "real":
            s["real"] = 1
            if s["will"]:
                need(s["begin"] == 1 and s["fini"] == 1, "the program is replaced without begin-exit and fini-process")
            else:
                need(s["begin"] == 0 and s["fini"] == 0, "exit callbacks delivered for an exec that cannot succeed")
        elif ev.name == "failed":
            need(ev.args[0] == 0xffffffff, "a failed exec does not return -1")
        elif ev.name == "leave":
            s["leave"] = 1

    def ev_cb(self, s, ev):
        if ev.name in ("monitor_begin_process_exit", "monitor_fini_process"):
            k = "begin" if "begin" in ev.name else "fini"
            if s["leave"]:
                want = 1
            else:
                need(s["call"] == 1 and s["real"] == 0, "%s delivered at the wrong time" % ev.name[8:])
                need(s["will"], "%s delivered for an exec that cannot succeed" % ev.name[8:])
                want = 3
            need(ev.args[0] == want, "%s reports exit kind %s, expected %d" % (ev.name[8:], fmt(ev.args[0]), want))
            need(s[k] == 0, "%s delivered twice" % ev.name[8:])
            if k == "fini":
                need(ev.args[1] == ("t", "any", "pdata"), "fini-process does not receive the process data")
                need(s["begin"] == 1, "fini-process before begin-exit")
            s[k] = 1

    def ev_x(self, s, ev):
        if ev.name in ("exit", "_exit"):
            need(s["leave"] and s["begin"] and s["fini"], "after a failed exec the process ends without its exit callbacks")
        if ev.name == "errx":
            raise Violation("the library aborts the process")


def cstrlit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def mk(name, fn, file, exes, will, n=None, path=None, opts=None, modes=("dynamic", "static")):
    search = fn in ("execlp", "execvp")
    init = ""
    if fn in ("execl", "execlp", "execle"):
        args = ", ".join("pool + %d" % i for i in range(n))
        tail = ", (char *) 0" + (", myenv" if fn == "execle" else "")
        call = "%s(file, %s%s)" % (fn, args, tail)
        init = "static char *ea[] = { %s, 0 }; exp_argv = ea;" % args
        if fn == "execle":
            init += " expect_env = 1;"
    elif fn == "execve":
        call = "execve(file, (char **) vf_ptr(\"av\"), myenv)"
        init = "expect_env = 1;"
    else:
        call = "%s(file, (char **) vf_ptr(\"av\"))" % fn
    d = "#include <errno.h>\n#define FILE_ %s\n#define EXES %s\n#define WILL %d\n#define CALL %s\n#define INIT %s\n#define SEARCH %d\n" % (
        cstrlit(file), "".join(cstrlit(e) + ", " for e in exes), int(will), call, init, int(search))
    ge = {"PATH": (path,) if path is not None else (0,)}
    o = {"create_ok": 1, "attr_ok": 1, "malloc_ok": 1, "getenv": ge}
    o.update(opts or {})
    return Scn(name, d + SRC, Rl, opts=o, modes=modes, need=("mark:real",), ends=not will)


LONG = "/" + "d" * 4090
PATHS = [  # (name, PATH, executable files, found)
    ("first", "/a:/b", ["/a/prog"], 1), ("last", "/a:/b", ["/b/prog"], 1), ("none", "/a:/b", ["/a/other", "prog"], 0),
    ("colons", ":/a::/b:", ["/b/prog"], 1), ("prefix", "/a:/bb", ["/b/prog", "/a/pro", "/a/progx"], 0),
    ("single", "/usr/local/bin", ["/usr/local/bin/prog"], 1), ("slash", "/a/:/b", ["/a//prog"], 1),
    ("relative", "bin:.", ["./prog"], 1), ("three", "/a:/b:/c", ["/c/prog"], 1),
    ("empty-first", ":/a", ["prog"], 1), ("empty-last", "/a:", ["prog"], 1), ("empty-mid", "/a::/b", ["prog"], 1), ("empty", "", ["prog"], 1),
    ("long", LONG + ":/b", ["/b/prog"], 1), ("long-none", "/a:" + LONG, [], 0), ("longer", "/" + "e" * 9000 + ":/b", ["/b/prog"], 1),
    ("limit", "/" + "d" * (4096 - 6 - 1) + ":/b", ["/" + "d" * (4096 - 6 - 1) + "/prog"], 1),
    ("unset", None, ["/usr/bin/prog", "/bin/prog"], 1), ("unset-none", None, [], 0),
]


def check(ctx):
    sc = []
    q = ctx.tier == "quick"
    for fn in ("execl", "execlp", "execle", "execv", "execvp", "execve"):
        for nm, file, exes, will in (("ok", "/bin/prog", ["/bin/prog"], 1), ("noexec", "/bin/prog", ["/bin/other"], 0),
                                     ("rel", "./prog", ["./prog"], 1), ("rel-no", "d/prog", ["prog"], 0)):
            sc.append(mk("%s-%s" % (fn, nm), fn, file, exes, will, 3, "/a:/b"))
        if fn not in ("execlp", "execvp"):
            sc.append(mk("%s-noslash" % fn, fn, "prog", ["prog"], 1, 3, "/a:/b"))
            sc.append(mk("%s-noslash-no" % fn, fn, "prog", ["/a/prog"], 0, 3, "/a:/b"))
    ns = [1, 2, 61, 62, 63, 64, 65, 126, 127, 128, 129, 255, 256, 300] if q else \
        [1, 2, 3, 4, 5, 31, 32, 33] + list(range(58, 70)) + list(range(122, 134)) + [250, 255, 256, 257, 300, 390]
    for n in ns:
        for fn in ("execl", "execlp", "execle"):
            if q and fn == "execlp" and n not in (1, 64, 128):
                continue
            sc.append(mk("%s-args%d" % (fn, n), fn, "/bin/prog", ["/bin/prog"], 1, n, "/a", modes=("dynamic",) if q else ("dynamic", "static")))
    for fn in ("execvp", "execlp"):
        for nm, path, exes, will in PATHS:
            if q and fn == "execlp" and nm not in ("last", "none", "unset"):
                continue
            sc.append(mk("%s-PATH-%s" % (fn, nm), fn, "prog", exes, will, 2, path, modes=("dynamic",) if q else ("dynamic", "static")))
    sc.append(mk("execvp-empty-name", "execvp", "", ["/a/", "/b/"], 0, 2, "/a:/b"))
    ctx.run(sc)
