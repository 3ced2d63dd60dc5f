#!/usr/bin/env python3
"""writes the planted bugs s04.. (needs a clean /repo)"""
import sys
sys.path.insert(0, "/verif/tools")
from seedlib import seed
S, P, F = "src/signal.c", "src/pthread.c", "src/fork.c"
PR = '#define PR(...) do { printf(__VA_ARGS__); fflush(stdout); } while (0)\n'
OK = 'grep -q "ALLOK" out || { echo "demonstration failed"; exit 1; }\nexit 0'
seed("s04", "C20", [(S, "    SIGCHLD, SIGCONT, SIGURG, SIGWINCH, -1", "    SIGCHLD, SIGCONT, SIGWINCH, -1")],
     PR + 'void monitor_fini_process(int how, void *d) { PR("FINI\\n"); }',
     PR + 'int main(void) { raise(SIGWINCH); raise(SIGURG); PR("AFTER\\n"); return 0; }',
     '[ "$(head -1 out)" = AFTER ] || { echo "exit callbacks although the process goes on"; exit 1; }\nexit 0',
     "SIGURG with the default disposition", "SIGURG, whose default is to be ignored, delivers the exit callbacks")
seed("s05", "C21", [(S, '    if (sig <= 0 || sig >= MONITOR_NSIG ||\n	monitor_signal_array[sig].mse_invalid) {\n	MONITOR_DEBUG("application',
                        '    if (sig <= 0 || sig >= MONITOR_NSIG - 1 ||\n	monitor_signal_array[sig].mse_invalid) {\n	MONITOR_DEBUG("application')], "",
     PR + 'static int got; static void h(int s) { got = s; }\nint main(void) { if (signal(64, h) == SIG_ERR) return 1; raise(64); if (got == 64) PR("ALLOK\\n"); return 0; }', OK,
     "the application handles the highest real-time signal", "sigaction of the last signal fails with EINVAL")
seed("s06", "C22", [(S, "		} else {\n		    sigdelset(set, sig);\n		}", "		}")],
     'static int ch(int s, siginfo_t *i, void *c) { return 0; }\nvoid *monitor_init_process(int *c, char **v, void *d) { monitor_sigaction(SIGUSR1, ch, 0, 0); return 0; }',
     PR + 'int main(void) { sigset_t s, o; sigemptyset(&s); sigaddset(&s, SIGUSR1); sigaddset(&s, SIGUSR2); sigprocmask(SIG_SETMASK, &s, 0); sigprocmask(SIG_BLOCK, 0, &o);\n'
     ' if (sigismember(&o, SIGUSR2) == 1 && sigismember(&o, SIGUSR1) == 0) PR("ALLOK\\n"); return 0; }', OK,
     "SIG_SETMASK with a client signal in the set while it is open", "the application can block the client's signal with SIG_SETMASK")
seed("s07", "C23", [(P, "	return (sigwait_errno == EINTR);", "	return (sigwait_errno == EINTR || sigwait_errno == EAGAIN);")], "",
     PR + '#include <time.h>\nint main(void) { sigset_t s; struct timespec t = { 0, 50000000 }; siginfo_t i; sigemptyset(&s); sigaddset(&s, SIGUSR2); sigprocmask(SIG_BLOCK, &s, 0);\n'
     ' if (sigtimedwait(&s, &i, &t) == -1 && errno == EAGAIN) PR("ALLOK\\n"); return 0; }', OK,
     "sigtimedwait that runs into its timeout", "sigtimedwait never times out", to=6)
seed("s08", "C24", [(S, "	    && sig > 0 && sig < MONITOR_NSIG\n	    && !monitor_signal_array[sig].mse_avoid\n	    && !monitor_signal_array[sig].mse_invalid",
                        "	    && sig > 0 && sig <= MONITOR_NSIG\n	    && !monitor_signal_array[sig].mse_avoid\n	    && !monitor_signal_array[sig].mse_invalid")], "",
     PR + 'static void *f(void *a) { sleep(60); return 0; }\nint main(void) { pthread_t t; pthread_create(&t, 0, f, 0); usleep(100000); PR("at end\\n"); return 0; }',
     '[ $rc = 0 ] || { echo "the process aborts"; exit 1; }\nexit 0',
     "MONITOR_SHOOTDOWN_SIGNAL set to one more than the last signal", "an invalid shutdown signal is accepted and the process aborts at its end", env="MONITOR_SHOOTDOWN_SIGNAL=65")
seed("s09", "C26", [("src/mpi_init_f2.c", "    monitor_mpi_init_count(-1);\n", "")],
     PR + 'void monitor_mpi_post_init(void) { PR("POST\\n"); }\nvoid monitor_fini_process(int how, void *d) { PR("rank %d size %d\\n", monitor_mpi_comm_rank(), monitor_mpi_comm_size()); }',
     PR + 'int main(void) { int ie = 0, r; void (*init)(int *) = dlsym(RTLD_DEFAULT, "mpi_init__"); int (*rk)(void *, int *) = dlsym(RTLD_DEFAULT, "MPI_Comm_rank");\n'
     ' init(&ie); rk((void *) 0x44000000, &r); PR("r %d\\n", r); return 0; }',
     'grep -q "rank 3 size 8" out || { echo "size and rank not reported"; exit 1; }\nexit 0',
     "the Fortran variant of MPI initialisation with two underscores", "after mpi_init__ the client never gets size and rank",
     fake='void mpi_init__(int *e) { *e = 0; }\nint MPI_Comm_rank(void *c, int *r) { *r = 3; return 0; }\nint MPI_Comm_size(void *c, int *s) { *s = 8; return 0; }\n')
seed("s10", "C14", [(P, "    if (restore) {", "    if (restore && ret == 0) {")],
     'size_t monitor_reset_stacksize(size_t n) { return n + 65536; }',
     PR + 'static void *f(void *a) { return 0; }\nint main(void) { pthread_t t; pthread_attr_t a; size_t n = 0; int i, bad = 0; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);\n'
     ' for (i = 0; i < 3; i++) { pthread_create(&t, &a, f, 0); pthread_attr_getstacksize(&a, &n); if (n != 1 << 20) bad = 1; }\n if (!bad) PR("ALLOK\\n"); return 0; }', OK,
     "the real pthread_create fails for an application that gives its own attributes", "the stack size in the application's attributes keeps the client's adjustment",
     fake='int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { return EAGAIN; }\n')
seed("s11", "C18", [(P, "	    tn->tn_appl_started && !tn->tn_fini_started) {", "	    !tn->tn_fini_started) {")],
     PR + 'volatile int in_init, go;\nvoid *monitor_init_thread(int t, void *d) { in_init = 1; while (!go) usleep(1000); in_init = 2; return 0; }\nvoid client_go(void) { while (in_init != 1) usleep(1000); monitor_broadcast_signal(SIGUSR1); usleep(200000); go = 1; }',
     PR + 'static volatile int n; static void h(int s) { n++; }\nstatic void *f(void *a) { return 0; }\nint main(void) { pthread_t t; void (*g)(void) = dlsym(RTLD_DEFAULT, "client_go"); signal(SIGUSR1, h); pthread_create(&t, 0, f, 0); g(); pthread_join(t, 0);\n'
     ' if (n == 0) PR("ALLOK\\n"); return 0; }', OK,
     "a broadcast while another thread is inside init-thread", "the broadcast reaches a thread whose application code has not started")
seed("s12", "C07", [(F, "	(*real_sigaction)(SIGQUIT, &old_quit, NULL);\n	(*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);\n	arglist", "	(*real_sigprocmask)(SIG_SETMASK, &old_set, NULL);\n	arglist")], "",
     PR + 'int main(void) { unsetenv("LD_PRELOAD"); system("grep SigIgn /proc/self/status"); return 0; }',
     'm=$(sed -n "s/SigIgn:[^0-9a-f]*//p" out | head -1)\n[ -n "$m" ] || exit 97\n[ $(( 0x$m & 4 )) = 0 ] || { echo "the command runs with SIGQUIT ignored"; exit 1; }\nexit 0',
     "a command run by system() that depends on SIGQUIT", "commands run by system() ignore SIGQUIT")
seed("s13", "C19", [(P, "	if (num_unfinished == 0)\n	    break;", "	if (num_unstarted == 0)\n	    break;")],
     PR + 'void monitor_fini_thread(void *d) { PR("fini-begin\\n"); usleep(700000); PR("fini-end\\n"); }\nvoid monitor_fini_process(int how, void *d) { PR("process\\n"); }',
     'static void *f(void *a) { for (;;) sleep(5); return 0; }\nint main(void) { pthread_t t; pthread_create(&t, 0, f, 0); usleep(300000); return 0; }',
     'e=$(grep -n fini-end out | cut -d: -f1); p=$(grep -n process out | cut -d: -f1)\n[ -n "$e" ] && [ "$e" -lt "${p:-0}" ] || { echo "fini-process before the end of fini-thread"; exit 1; }\nexit 0',
     "a fini-thread callback that is still running when every thread has got the signal", "fini-process is delivered while a fini-thread is running")
seed("s14", "C06", [(F, "    if (strchr(file, SLASH) != NULL)", "    if (file[0] == SLASH)")],
     PR + 'void monitor_fini_process(int how, void *d) { PR("FINI %d\\n", how); }',
     'int main(void) { char *a[] = { "./zz_lnk", "x", 0 }; symlink("/bin/true", "zz_lnk"); execvp("./zz_lnk", a); return 3; }',
     'grep -q "FINI 3" out || { echo "exec without the exit callbacks"; exit 1; }\nexit 0',
     "execvp of a relative path with a slash", "the exit callbacks are missing before a successful execvp of ./name")
seed("s15", "C32", [(P, "	main_tn->tn_user_data = tn->tn_user_data;\n", "")],
     PR + 'static int pd, td;\nvoid *monitor_init_process(int *c, char **v, void *d) { return &pd; }\nvoid *monitor_init_thread(int t, void *d) { return &td; }\n'
     'void client_fork(void) { int p; if (monitor_get_user_data() != &td) return; p = monitor_real_fork(); if (p == 0) { if (monitor_get_user_data() == &td) PR("ALLOK\\n"); monitor_real_exit(0); } waitpid(p, 0, 0); }',
     'static void *f(void *a) { ((void (*)(void)) dlsym(RTLD_DEFAULT, "client_fork"))(); return 0; }\nint main(void) { pthread_t t; pthread_create(&t, 0, f, 0); pthread_join(t, 0); return 0; }', OK,
     "the client forks with its real fork from a side thread", "the thread that forked loses its user data in the child")
