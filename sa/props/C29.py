"""any entry point first"""
from fw import *
EXPLAIN = ("Typestate analysis from the library's initial memory image: every override and every public function is called before anything else has run (as from a constructor of another object, before the "
           "library's own constructor), then a second entry (any in thorough mode), then the program starts normally and uses the first one again. Calls through unresolved pointers, null dereferences, "
           "unbounded recursion and waits that nothing can end are violations; pass-through overrides must still reach their real function, the start-up callbacks must still run once and the main "
           "routine must still be entered.")

# name, code, real function that must be reached (or None), does it come back
E = [
    ("exit", "exit(3);", "exitlike", 0), ("_exit", "_exit(3);", "exitlike", 0), ("_Exit", "_Exit(3);", "exitlike", 0),
    ("fork", "fork();", "fork", 1), ("vfork", "vfork();", "fork", 1), ("system", 'system("cmd");', None, 1),
    ("execve", 'execve(vf_ptr("path"), (char **) vf_ptr("av"), (char **) vf_ptr("ev"));', "execlike", 1), ("execv", 'execv(vf_ptr("path"), (char **) vf_ptr("av"));', "execlike", 1),
    ("execvp", 'execvp("/bin/x", (char **) vf_ptr("av"));', "execlike", 1), ("execl", 'execl("/bin/x", "x", (char *) 0);', "execlike", 1), ("execlp", 'execlp("/bin/x", "x", (char *) 0);', "execlike", 1),
    ("execle", 'execle("/bin/x", "x", (char *) 0, (char **) vf_ptr("ev"));', "execlike", 1),
    ("dlopen", 'dlopen(vf_ptr("lib"), 2);', "dlopen", 1), ("dlclose", 'dlclose(vf_ptr("h"));', "dlclose", 1),
    ("pthread_create", "pthread_create(&th, 0, body, 0);", None, 1), ("pthread_exit", 'pthread_exit(vf_ptr("r"));', "pthread_exit", 0),
    ("signal", "signal(10, hnd);", None, 1), ("sigaction", "sa.sa_handler = hnd; sa.sa_flags = 0; sigemptyset(&sa.sa_mask); sigaction(10, &sa, 0);", None, 1),
    ("sigprocmask", "sigemptyset(&ss); sigprocmask(0, &ss, 0);", "sigprocmask", 1), ("pthread_sigmask", "sigemptyset(&ss); pthread_sigmask(0, &ss, 0);", "sigprocmask", 1),
    ("sigwaitinfo", "sigemptyset(&ss); sigaddset(&ss, 10); sigwaitinfo(&ss, 0);", None, 1), ("sigwait", "sigemptyset(&ss); sigaddset(&ss, 10); sigwait(&ss, &n);", None, 1),
    ("sigtimedwait", "sigemptyset(&ss); sigaddset(&ss, 10); sigtimedwait(&ss, 0, &tv);", None, 1),
    ("MPI_Init", "MPI_Init(0, 0);", "MPI_Init", 1), ("mpi_init_", "mpi_init_(&n);", "mpi_init_", 1), ("MPI_Finalize", "MPI_Finalize();", "MPI_Finalize", 1),
    ("MPI_Comm_rank", "MPI_Comm_rank(0, &n);", "MPI_Comm_rank", 1), ("mpi_finalize__", "mpi_finalize__(&n);", "mpi_finalize__", 1), ("mpi_comm_rank", "mpi_comm_rank(&n, &n, &n);", "mpi_comm_rank", 1),
    ("m_initialize", "monitor_initialize();", None, 1),
    ("m_real_exit", "monitor_real_exit(3);", "exitlike", 0), ("m_real_abort", "monitor_real_abort();", None, 0),
    ("m_real_fork", "monitor_real_fork();", "fork", 1), ("m_real_execve", 'monitor_real_execve(vf_ptr("path"), (char **) vf_ptr("av"), env0);', "execlike", 1),
    ("m_real_system", 'monitor_real_system("cmd");', None, 1),
    ("m_real_dlopen", 'monitor_real_dlopen(vf_ptr("lib"), 2);', "dlopen", 1), ("m_real_dlclose", 'monitor_real_dlclose(vf_ptr("h"));', "dlclose", 1),
    ("m_real_sigprocmask", "sigemptyset(&ss); monitor_real_sigprocmask(0, &ss, 0);", "sigprocmask", 1), ("m_real_pthread_sigmask", "sigemptyset(&ss); monitor_real_pthread_sigmask(0, &ss, 0);", "sigprocmask", 1),
    ("m_sigaction", "monitor_sigaction(10, chnd, 0, 0);", None, 1),
    ("m_broadcast", "monitor_broadcast_signal(10);", None, 1),
    ("m_is_threaded", "monitor_is_threaded();", None, 1), ("m_addr_main", "monitor_get_addr_main();", None, 1), ("m_addr_thread", "monitor_get_addr_thread_start();", None, 1),
    ("m_user_data", "monitor_get_user_data();", None, 1), ("m_thread_num", "monitor_get_thread_num();", None, 1), ("m_stack_bottom", "monitor_stack_bottom();", None, 1),
    ("m_set_size_rank", "monitor_set_size_rank(4, 1);", None, 1), ("m_mpi_size", "monitor_mpi_comm_size(); monitor_mpi_comm_rank();", None, 1),
    ("m_block_shootdown", "monitor_block_shootdown(); monitor_unblock_shootdown();", None, 1),
    ("m_new_threads", "monitor_disable_new_threads(); monitor_enable_new_threads();", None, 1),
    ("m_new_thread_info", "monitor_get_new_thread_info(&nti);", None, 1),
]
LIKE = {"exitlike": ("_exit", "_Exit", "exit"), "execlike": ("execve", "execv", "execvp")}

DRV = r'''
static char *env0[] = { "A=b", "LD_PRELOAD=x", 0 };
char **environ = env0;
int MPI_Init(int *, char ***); void mpi_init_(int *); int MPI_Finalize(void); int MPI_Comm_rank(void *, int *); void mpi_finalize__(int *); void mpi_comm_rank(int *, int *, int *);
int vf_real_MPI_Init(int *a, char ***b) { vf_mark("real", "MPI_Init"); return 0; }
void vf_real_mpi_init_(int *a) { vf_mark("real", "mpi_init_"); }
int vf_real_MPI_Finalize(void) { vf_mark("real", "MPI_Finalize"); return 0; }
int vf_real_MPI_Comm_rank(void *c, int *x) { vf_mark("real", "MPI_Comm_rank"); *x = 1; return 0; }
int vf_real_MPI_Comm_size(void *c, int *x) { *x = 4; return 0; }
void vf_real_mpi_finalize__(int *a) { vf_mark("real", "mpi_finalize__"); }
void vf_real_mpi_comm_rank(int *a, int *b, int *c) { vf_mark("real", "mpi_comm_rank"); *b = 1; }
void vf_real_mpi_comm_size(int *a, int *b, int *c) { *b = 4; }
void *monitor_thread_pre_create(void) { return vf_ptr("tpre"); }
static void *body(void *a) { return a; }
static void hnd(int s) { }
static int chnd(int s, siginfo_t *i, void *c) { return 0; }
static struct timespec tv;
static void first(void)
{
  pthread_t th; sigset_t ss; struct sigaction sa; struct monitor_thread_info nti; int n = 0;
  vf_mark("call1"); %(one)s vf_mark("back1");
}
static void second(void)
{
  pthread_t th; sigset_t ss; struct sigaction sa; struct monitor_thread_info nti; int n = 0;
  %(two)s
}
static int once[4];
static void at(int w) { if (WHERE == w && !once[w]) { once[w] = 1; first(); } }
void monitor_init_library(void) { vf_mark("initlib"); at(1); }
void monitor_start_main_init(void) { at(2); }
void *monitor_init_process(int *c, char **v, void *d) { at(3); return d; }
int app_main(int argc, char **argv, char **envp)
{
  vf_mark("main");
  first();
  return 0;
}
void vf_main(void) { at(0); second(); START(app_main); }
'''


class Cold(Auto):
    start = dict(on=0, seen=0, main=0, lib=0, proc=0, exec_=0, child=0)
    NAME = ""
    REAL = None

    def hit(self, s, n):
        if s["on"] and self.REAL and n in LIKE.get(self.REAL, (self.REAL,)):
            s["seen"] = 1

    def ev_mark(self, s, ev):
        if ev.name == "call1":
            s["on"] = 1
            s["seen"] = 0
        elif ev.name == "real":
            self.hit(s, ev.args[0] if type(ev.args[0]) is str else self.REAL)
        elif ev.name == "back1":
            need(s["seen"] or not self.REAL, "%s returns without reaching the real function" % self.NAME)
            s["on"] = 0
        elif ev.name == "main":
            s["main"] = 1
        elif ev.name == "initlib":
            need(not s["lib"], "init-library runs twice in one process image")
            s["lib"] = 1

    def ev_x(self, s, ev):
        self.hit(s, ev.name)

    def at_end(self, s, how, st):
        if s["on"] and self.REAL and how not in ("cut", "unreachable"):
            need(s["seen"], "%s ends the path without reaching the real function" % self.NAME)


def check(ctx):
    sc = []
    o = {"create_ok": 1, "attr_ok": 1, "malloc_ok": 1, "dlsym_fail": ()}
    firsts = [e for e in E]
    few = "switch (vf_choose(0, 7)) { " + " ".join("case %d: { %s } break;" % (k, dict((e[0], e[1]) for e in E)[n]) for k, n in enumerate(
        ("fork", "signal", "dlopen", "sigprocmask", "system", "m_broadcast", "execv"))) + " case 7: pthread_create(&th, 0, body, 0); if (vf_nthreads() == 1) vf_run_thread(1); break; }"
    seconds = [("none", ";", None, 1), ("some", few, None, 1)] + ([e for e in E if e[3]] if ctx.tier == "thorough" else [])
    for e in firsts:
        for f in seconds:
            if f[0] != "none" and not e[3]:
                continue
            for w in range(4 if f[0] == "none" else 1):
                sc.append(Scn("first-%s%s%s" % (e[0], "" if f[0] == "none" else "-then-" + f[0], ("", "-in-init-library", "-in-start-main-init", "-in-init-process")[w]),
                              "#define WHERE %d\n" % w + DRV % dict(one=e[1], two=f[1]), type("C", (Cold,), {"NAME": e[0], "REAL": e[2]}), opts=dict(o),
                              need=("mark:call1",) + (("mark:main",) if e[3] else ()), ends=False))
    ctx.run(sc)
