// simrt: deterministic simulation runtime for kasync (see DESIGN.md).
// Real pthreads are serialised by a token; every instrumented memory access, every
// synchronisation call and every I/O call of the code under test is a scheduling point.
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct sim_cfg {
	uint64_t seed;
	int policy;        /* -1: by seed */
	int spurious;      /* per mille: spurious condvar wakeups */
	int fail_create;   /* per mille: pthread_create failures */
	int fail_malloc;   /* per mille, only while armed with sim_fail_malloc() */
	int short_io;      /* per mille: short read/write */
	int eagain;        /* per mille: injected EAGAIN with a later edge */
	int accept_abort;  /* per mille: accept fails with ECONNABORTED */
	int64_t max_steps; /* 0: default */
} sim_cfg;
/* configuration of the running child */
extern sim_cfg sim;
/* key=value parameters given on the command line */
const char *sim_param(const char *name, const char *def);
int sim_iparam(const char *name, int def);
extern int sim_file_short; /* reads of files may give less than asked for */

/* random numbers for the scenario (independent of the scheduler's) */
uint32_t sim_rand(void);
int sim_rnd(int n); /* 0..n-1 */

/* trace: one event record {"e":..., "f":..., "o":..., "a":..., "b":...} */
void sim_ev(const char *e, long f, long o, long a, long b);
/* raw extra (adds verbatim JSON object) */
void sim_raw(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* scenario configuration record, verbatim JSON object put under "cfg" */
void sim_cfgjson(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

/* scheduling */
extern int64_t sim_max_vtime; /* virtual us after which a run counts as stuck */
void sim_turns(int mean); /* turns of so many accesses from now on */
extern int sim_spinny; /* set by scenarios whose threads spin: short turns for everybody */
void sim_point(void);
/* block the calling thread until pred(arg) or until vms virtual ms have passed (vms<0: forever); returns 1 if pred held */
int sim_wait(int (*pred)(void *), void *arg, int64_t vms);
/* block until nothing else can run without virtual time passing, at least vms virtual ms from now */
void sim_quiesce(int64_t vms);
void sim_atomic_begin(void);
void sim_atomic_end(void);
int sim_tid(void);
extern void (*sim_thread_exit_hook)(int tid);
int sim_live_threads(void);
void sim_dump_threads(void);
int64_t sim_thread_acc(int tid); /* instrumented accesses executed so far */
int64_t sim_now_us(void);
void sim_advance_us(int64_t us);
void sim_step_clock_us(int64_t us); /* jump of the wall clock only */
void sim_finish(void) __attribute__((noreturn)); /* end of the run: trace complete */
void sim_stuck(const char *why) __attribute__((noreturn));

/* faults under driver control */
void sim_fail_creates(int n);   /* next n pthread_create fail */
void sim_fail_malloc_big(size_t min_size, int n); /* next n allocations of at least min_size fail */
extern int64_t sim_create_failures;
extern volatile int sim_io_faults; /* 1: short_io/eagain active */

/* memory accounting (code under test only) */
long sim_live_blocks(void);
long sim_live_bytes(void);
void sim_mem_mark(void);                /* remember the current generation */
long sim_live_total(void); /* all live blocks */
long sim_live_since_mark(void);         /* live blocks allocated since the mark */
void sim_dump_live(void);
int sim_is_valid(const void *p, size_t n);
size_t sim_block_size(const void *p);
long sim_off(const void *p); /* position of simulated memory, -1 for any other address */
int sim_open_fds(void);
int sim_live_fds(void); /* open and not closed by the code under test */
extern int sim_net_grace_ms; /* real ms to wait for TCP before letting virtual time pass 2 s beyond the last transfer */
extern __thread int sim_fail_fd; /* of this thread: 1: the next socket() fails, 2: the next registration with an epoll */
extern int (*sim_ktls)(int fd); /* which connections have (stand-in) kernel TLS */
extern int sim_connect_sync; /* TCP connects are decided at once, except on these ports */
void sim_stuck_port(int port);
void sim_hold_port(int port); /* decided, but the loops hear of it only after sim_release_fd (or shutdown) */
void sim_release_fd(int fd);
/* fds opened through accept/socket/open by the code under test: close accounting */
extern long sim_bad_close;

/* resolver */
struct addrinfo;
typedef int (*sim_resolver)(const char *node, const struct addrinfo *hints, struct addrinfo **res);
extern sim_resolver sim_getaddrinfo;
typedef void (*sim_addrfree)(struct addrinfo *res);
extern sim_addrfree sim_freeaddrinfo;

/* scenarios */
typedef void (*sim_scenario)(void);
struct sim_reg { const char *name; sim_scenario fn; struct sim_reg *next; };
void sim_register(struct sim_reg *r);
#ifdef __cplusplus
}
#define SCENARIO(n) static void scen_##n(); static struct sim_reg reg_##n = {#n, scen_##n, 0}; \
  __attribute__((constructor)) static void ctor_##n() { sim_register(&reg_##n); } static void scen_##n()
#endif
#define NOSAN __attribute__((no_sanitize("thread")))
#endif
