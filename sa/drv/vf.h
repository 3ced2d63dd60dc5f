/* Analysis drivers: these programs are never compiled to machine code or run.  They describe client
 * and application behaviour (with non-deterministic choices) to the dataflow engine. */
#ifndef VF_H
#define VF_H
#define _GNU_SOURCE
#include <sys/types.h>
#include <pthread.h>
#include <signal.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#include <dlfcn.h>
#include "monitor.h"
void *vf_any(const char *);
void *vf_ptr(const char *);
int vf_anyint(const char *);
long vf_anylong(const char *);
int vf_nondet(void);
int vf_choose(int, int);
int vf_pick(int);
void vf_mark(const char *, ...);
void vf_assume(int);
void vf_assert(int, const char *);
void vf_end(void);
void vf_setself(int);
void vf_time(int);
void vf_cancel(void);
int vf_nthreads(void);
int vf_cur(void);
void *vf_run_thread(int);
int vf_deliver(int, int);
void vf_ctors(void);
void vf_preempt_on(void);
void vf_preempt_off(void);
int vf_preempted(void);
void vf_as(int, void (*)(void));
void vf_park(void);
void vf_rearm(void);
int app_main(int, char **, char **);
#ifdef DRV_DYNAMIC
int __libc_start_main(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
#define START(mainf) do { vf_ctors(); \
  __libc_start_main(mainf, vf_anyint("argc"), (char **) vf_ptr("argv"), 0, 0, 0, 0); vf_end(); } while (0)
#else
int __wrap_main(int, char **, char **);
int vf_real_main(int c, char **v, char **e) { return app_main(c, v, e); }
/* static: crt calls __wrap_main; its result is given to the real exit */
void vf_crt_exit(int);
#define START(mainf) do { vf_crt_exit(__wrap_main(vf_anyint("argc"), (char **) vf_ptr("argv"), (char **) vf_ptr("envp"))); vf_end(); } while (0)
#endif
#endif
