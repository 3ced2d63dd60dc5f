"""bounds"""
from fw import *
EXPLAIN = ("Bounds analysis: every access, and every library copy or print, at a known offset is compared with the size of its object, over inputs around every internal limit: environments from none to "
           "thousands of entries with hidden entries anywhere, argument lists across every growth step, search-path elements and file names whose joint length runs through the limit, signal numbers "
           "over the whole integer range and the worst signal sets with tracing on. The results (environment, arguments, tested names) are compared with the input as well. "
           "(Thread counts beyond every table are decided by C37; every other check applies the same bounds rule to the paths it analyses.)")
ASSUME = ["allocation succeeds", "a system page has 4096 bytes"]

ENV = r'''
#include <errno.h>
extern char **environ;
static char *ev[N + 3];
char **environ = ev;
static char plain[] = "LD_PRELOADX=1", hid[] = "LD_PRELOAD=/x", other[] = "L";
static char *av[2];
static int called;
static int isd(int i) { return HIDE; }
static void chk(char **e)
{
  int i, j = 0;
  called = 1;
  for (i = 0; i < N; i++)
    if (!isd(i)) { vf_assert(e[j] == ev[i], "an environment entry is lost or changed"); j++; }
  vf_assert(e[j] == 0, "the environment is not terminated");
  vf_mark("env");
}
int vf_real_execve(const char *p, char *const a[], char *const e[]) { chk((char **) e); errno = 2; return -1; }
pid_t vf_real_fork(void) { return 0; }
int app_main(int argc, char **argv, char **envp)
{
  int i;
  for (i = 0; i < N; i++) ev[i] = isd(i) ? hid : i % 3 ? plain : other;
  ev[N] = 0;
  av[0] = plain;
  CALL;
  vf_mark("back");
  CALL;
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''
PATHD = r'''
#include <errno.h>
static char path[PLEN + 40], file[FLEN + 2];
static char want[PLEN + FLEN + 40];
static int nacc, last;
char *vf_real_getenv(const char *n) { return n[0] == 'P' && n[1] == 'A' && n[2] == 'T' && n[3] == 'H' && n[4] == 0 ? path : 0; }
int vf_real_access(const char *p, int mode)
{
  nacc++;
  if (strcmp(p, want) == 0) last = 1;
  vf_mark("access", strcmp(p, want) == 0);
  errno = 13;
  return -1;
}
int vf_real_execvp(const char *p, char *const a[]) { vf_mark("real"); errno = 2; return -1; }
int vf_real_execvpe(const char *p, char *const a[], char *const e[]) { vf_mark("real"); errno = 2; return -1; }
int app_main(int argc, char **argv, char **envp)
{
  char *av[2];
  memset(path, 'd', PLEN);
  memcpy(path, "/", 1);
  memcpy(path + PLEN, TAIL, sizeof(TAIL));
  memset(file, 'f', FLEN);
  file[FLEN] = 0;
  memset(want, 'd', PLEN);
  memcpy(want, "/", 1);
  want[PLEN] = '/';
  memset(want + PLEN + 1, 'f', FLEN);
  want[PLEN + 1 + FLEN] = 0;
  av[0] = file;
  av[1] = 0;
  execvp(file, av);
  /* one that the system could never accept need not be tested */
  if (PLEN + FLEN + 2 <= 4096) vf_assert(last, "a directory of the search path is not tested");
  vf_mark("over");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''
ARGS = r'''
#include <errno.h>
static char pool[N + 1];
char *evv[] = { 0 };
char **environ = evv;
char *mine[] = { 0 };
static int real(char **a, char **e)
{
  int i;
  for (i = 0; i < N; i++) vf_assert(a[i] == pool + i, "the real exec gets a different argument list");
  vf_assert(a[N] == 0, "the argument list is not terminated");
  vf_assert(e == (OWN ? mine : evv), "the real exec gets a different environment");
  vf_mark("real");
  errno = 2;
  return -1;
}
int vf_real_access(const char *p, int mode) { errno = 13; return -1; }
int vf_real_execv(const char *p, char *const a[]) { return real((char **) a, environ); }
int vf_real_execvp(const char *p, char *const a[]) { return real((char **) a, environ); }
int vf_real_execve(const char *p, char *const a[], char *const e[]) { return real((char **) a, (char **) e); }
int vf_real_execvpe(const char *p, char *const a[], char *const e[]) { return real((char **) a, (char **) e); }
int app_main(int argc, char **argv, char **envp)
{
  CALL;
  CALL;
  vf_mark("over");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''
SIG = r'''
static void h(int s) { }
static int ch(int s, siginfo_t *i, void *c) { return 0; }
static void one(int n)
{
  struct sigaction a, o;
  int valid = n > 0 && n < 65 && n != 32 && n != 33, r;
  memset(&a, 0, sizeof(a));
  a.sa_handler = h;
  r = sigaction(n, &a, &o);
  if (!valid) vf_assert(r == -1, "an invalid signal number is accepted");
  r = sigaction(n, 0, &o);
  if (!valid) vf_assert(r == -1, "an invalid signal number is accepted");
  sigaction(n, &a, 0);
  if (!valid) vf_assert(signal(n, h) == SIG_ERR, "an invalid signal number is accepted");
  else signal(n, h);
  r = monitor_sigaction(n, ch, 0, 0);
  if (!valid) vf_assert(r == -1, "an invalid signal number is accepted");
  r = monitor_sigaction(n, ch, 0, &a);
  if (!valid) vf_assert(r == -1, "an invalid signal number is accepted");
}
int app_main(int argc, char **argv, char **envp)
{
  static const int l[] = { LIST };
  unsigned i;
  for (i = 0; i < sizeof(l) / sizeof(l[0]); i++) one(l[i]);
  vf_mark("over");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''
SETS = r'''
#include <time.h>
static int in(int s) { return MEMBER; }
int vf_real_sigwait(const sigset_t *s, int *n) { *n = 1; return 0; }
int vf_real_sigwaitinfo(const sigset_t *s, siginfo_t *i) { if (i) i->si_signo = 1; return 1; }
int vf_real_sigtimedwait(const sigset_t *s, siginfo_t *i, const struct timespec *t) { if (i) i->si_signo = 1; return 1; }
int app_main(int argc, char **argv, char **envp)
{
  sigset_t s, o;
  siginfo_t si;
  struct timespec ts;
  int i;
  sigemptyset(&s);
  for (i = 1; i < 65; i++) if (i != 32 && i != 33 && in(i)) sigaddset(&s, i);
  monitor_real_sigprocmask(SIG_SETMASK, &s, 0);
  sigprocmask(SIG_BLOCK, &s, &o);
  sigprocmask(SIG_UNBLOCK, &s, 0);
  sigprocmask(SIG_SETMASK, &s, 0);
  pthread_sigmask(SIG_BLOCK, &s, &o);
  pthread_sigmask(SIG_SETMASK, &s, 0);
  sigprocmask(SIG_BLOCK, 0, &o);
  vf_mark("masks");
  if (WAIT == 1) sigwait(&s, &i);
  if (WAIT == 2) sigwaitinfo(&s, &si);
  if (WAIT == 3) { ts.tv_sec = 1; ts.tv_nsec = 0; sigtimedwait(&s, &si, &ts); }
  vf_mark("over");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
'''


class Rl(Auto):
    start = dict()

    def ev_x(self, s, ev):
        if ev.name == "errx":
            raise Violation("the library aborts the process")


def check(ctx):
    t = ctx.tier == "thorough"
    o = {"create_ok": 1, "attr_ok": 1, "malloc_ok": 1, "linear": 1}
    sc = []

    def add(name, src, defs, need, modes=("dynamic", "static"), opts=None):
        oo = dict(o)
        oo.update(opts or {})
        sc.append(Scn(name, defs + src, Rl, opts=oo, need=need, modes=modes, ends=False, cap=10 ** 9, maxsteps=30000000, budget=240))
    one = ("dynamic", "static") if t else ("dynamic",)
    ns = [0, 1, 2, 100, 247, 248, 249, 250, 251, 252, 255, 256, 510, 511, 512, 513, 600, 1500]
    if t:
        ns = sorted(set(ns + list(range(240, 260)) + list(range(505, 518)) + list(range(1018, 1030)) + [2047, 2048, 3000]))
    for n in ns:
        for hn, h in (("no", "0"), ("one", "i == N / 2"), ("last", "i == N - 1"), ("all", "1")):
            if not t and hn in ("all", "last") and n not in (0, 1, 248, 249, 250, 512):
                continue
            d = "#define N %d\n#define HIDE (%s)\n" % (n, h)
            add("environ-%d-%s" % (n, hn), ENV, d + '#define CALL monitor_real_execve("/bin/p", av, ev)\n', ("mark:env",), one)
    for n in (0, 1, 247, 248, 249, 250, 600):
        add("system-%d" % n, ENV, '#define N %d\n#define HIDE (i == 0)\n#define CALL monitor_real_system("cmd")\n' % n, ("mark:env",), one)
    fl = [1, 4, 255, 4000, 4092, 4093, 4094, 4095, 4096, 4097, 9000]
    for f in fl:
        pl = sorted({1, 2, 60} | {p for p in range(4096 - f - 5, 4096 - f + 3) if p > 0} | ({4094, 4095, 4096, 4097, 5000} if f in (1, 4) else set()))
        for p in pl:
            if not t and f not in (1, 4, 4000) and p > 2:
                continue
            for i, tail in enumerate(("", ":", ":/b", "::")):
                if not t and i and (p < 4080 or f != 4):
                    continue
                add("path-%d-%d-%d" % (p, f, i), PATHD, '#define PLEN %d\n#define FLEN %d\n#define TAIL "%s"\n' % (p, f, tail), ("mark:over",), one, {"debug": 1} if (p + f) % 2 else None)
    ns = [1, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 700]
    if t:
        ns = sorted(set(ns + list(range(1, 6)) + list(range(58, 70)) + list(range(122, 134)) + list(range(250, 262)) + list(range(506, 518)) + [1023, 1024, 1025]))
    for n in ns:
        for f in ("execl", "execlp", "execle"):
            if not t and f == "execlp" and n not in (63, 64, 128):
                continue
            a = ", ".join("pool + %d" % i for i in range(n))
            c = '#define N %d\n#define OWN %d\n#define CALL %s("/bin/p", %s, (char *) 0%s)\n' % (n, f == "execle", f, a, ", mine" if f == "execle" else "")
            add("%s-%d" % (f, n), ARGS, c, ("mark:over",), one)
    l = [-2147483647 - 1, -2147483647, -65536, -64, -2, -1, 0, 65, 66, 67, 127, 128, 129, 1000, 65536, 2147483646, 2147483647]
    if t:
        l += list(range(-200, 0)) + list(range(68, 300))
    for dbg in (0, 1):
        add("signal-numbers-%d" % dbg, SIG, "#define LIST %s\n" % ", ".join("(%s)" % ("-2147483647 - 1" if x == -2147483648 else x) for x in l + [1, 31, 34, 62, 63, 64]),
            ("mark:over",), opts={"debug": 1} if dbg else None)
    for i, m in enumerate(("0", "1", "i % 2 == 1", "i % 2 == 0", "i % 3 != 0", "i % 3 != 1", "i >= 10 && i % 2", "i > 9 && i % 3", "i == 64 || i == 1", "i % 4 != 0", "i > 40", "i % 7 > 1")):
        for w in (0, 1, 2, 3):
            if not t and w and i not in (1, 2, 4):
                continue
            add("sets-%d-%d" % (i, w), SETS, "#define MEMBER (%s)\n#define WAIT %d\n" % (m.replace("i", "s"), w), ("mark:masks",), one, {"debug": 1})
    ctx.run(sc)
