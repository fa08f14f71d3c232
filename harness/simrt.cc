// simrt: see simrt.h and DESIGN.md.  Compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simrt.h"
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/aio_abi.h>
#include <linux/futex.h>
#include <netdb.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <deque>
#include <string>
#include <vector>
#include <map>

extern "C" {
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__);
REAL(void *, malloc, size_t) REAL(void, free, void *) REAL(void *, calloc, size_t, size_t) REAL(void *, realloc, void *, size_t)
REAL(int, pthread_mutex_init, pthread_mutex_t *, const pthread_mutexattr_t *)
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)
REAL(int, epoll_wait, int, struct epoll_event *, int, int)
REAL(int, epoll_ctl, int, int, int, struct epoll_event *)
REAL(ssize_t, read, int, void *, size_t) REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, readv, int, const struct iovec *, int) REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(ssize_t, recv, int, void *, size_t, int) REAL(ssize_t, send, int, const void *, size_t, int)
REAL(ssize_t, recvmsg, int, struct msghdr *, int) REAL(ssize_t, sendmsg, int, const struct msghdr *, int)
REAL(ssize_t, recvfrom, int, void *, size_t, int, struct sockaddr *, socklen_t *)
REAL(ssize_t, sendto, int, const void *, size_t, int, const struct sockaddr *, socklen_t)
REAL(ssize_t, sendfile, int, int, off_t *, size_t)
REAL(int, accept, int, struct sockaddr *, socklen_t *) REAL(int, accept4, int, struct sockaddr *, socklen_t *, int)
REAL(int, connect, int, const struct sockaddr *, socklen_t)
extern long __real_syscall(long, ...); extern int __real_nanosleep(const struct timespec *, struct timespec *); extern int __real_clock_gettime(clockid_t, struct timespec *);
REAL(int, close, int) REAL(int, shutdown, int, int)
REAL(int, socket, int, int, int)
REAL(void *, memcpy, void *, const void *, size_t) REAL(void *, memmove, void *, const void *, size_t) REAL(void *, memset, void *, int, size_t)
}

// ---------------------------------------------------------------- parameters
static const int NSLOT = 8;
static const size_t BUFSZ = 8u << 20;
struct Shared { volatile size_t len, cfglen; volatile int overflow, finished; char cfg[65536]; char buf[BUFSZ]; };
static Shared *sh;
static std::map<std::string, std::string> *params;
sim_cfg sim;
static sim_reg *regs;
extern "C" void sim_register(struct sim_reg *r) { r->next = regs; regs = r; }
extern "C" const char *sim_param(const char *n, const char *d) { auto it = params->find(n); return it == params->end() ? d : it->second.c_str(); }
extern "C" int sim_iparam(const char *n, int d) { auto it = params->find(n); return it == params->end() ? d : atoi(it->second.c_str()); }

// ---------------------------------------------------------------- random
static uint64_t rs_sched, rs_drv;
static inline uint64_t sm64(uint64_t &s) { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static inline uint32_t srnd(uint32_t n) { return n ? (uint32_t)((sm64(rs_sched) >> 32) % n) : 0; }
extern "C" uint32_t sim_rand(void) { return (uint32_t)(sm64(rs_drv) >> 32); }
extern "C" int sim_rnd(int n) { return n > 0 ? (int)(sim_rand() % (uint32_t)n) : 0; }

// ---------------------------------------------------------------- threads
enum { RUN, BLOCKED, DONE };
struct Th {
	int id, state;
	int go;
	int (*ready)(void *);
	void *rctx;
	int64_t deadline; // virtual us, -1 none
	int64_t qtime;    // quiescer: earliest time, -1 no
	bool usr2_blocked, usr2_pending;
	int64_t prio;
	int run_len;
	void *(*fn)(void *);
	void *arg;
	const char *what;
	void *wobj;
	int64_t acc; // instrumented accesses
};
static Th *ths[256];
static pthread_t th_pt[256];
static int nth;
static Th *cur;
static __thread Th *self;
static volatile int active, inrt;
static int64_t now_us, wall_off;
static const int64_t WALL0 = 1700000000ll * 1000000;
static int64_t budget = 1, steps, max_steps = 60000000;
int64_t sim_max_vtime = 400ll * 1000000;
static int pol, pmean, psync; // policy
int sim_spinny; // scenario of spinning threads: short turns
#define spinny sim_spinny
static int64_t pct_cp[4]; static int pct_n; static int64_t pct_low = -1;
extern "C" { static bool aio_some(void); static void aio_maybe(void); }
static int net_dirty; static int aio_inflight; static int64_t net_last_us; static int net_graced; int sim_net_grace_ms;
int64_t sim_create_failures;
static int fail_creates;
volatile int sim_io_faults = 0;
long sim_bad_close;
static std::vector<int> *epfds;
struct Rearm { int64_t when; int epfd, fd; };
static std::vector<Rearm> *rearms;
struct EpKey { int ep, fd; bool operator<(const EpKey &o) const { return ep < o.ep || (ep == o.ep && fd < o.fd); } };
static std::map<EpKey, epoll_event> *epreg;

static void fut_wait(int *p) { while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) __real_syscall(SYS_futex, p, FUTEX_WAIT, 0, 0, 0, 0); __atomic_store_n(p, 0, __ATOMIC_RELEASE); }
static void fut_post(int *p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); __real_syscall(SYS_futex, p, FUTEX_WAKE, 1, 0, 0, 0); }

static void put(const char *s, size_t n)
{
	if (sh->len + n + 1 >= BUFSZ) { sh->overflow = 1; return; }
	__real_memcpy(sh->buf + sh->len, s, n); sh->len += n;
}
extern "C" void sim_ev(const char *e, long f, long o, long a, long b)
{
	char t[256];
	int n = snprintf(t, sizeof t, "%s{\"e\":\"%s\",\"f\":%ld,\"o\":%ld,\"a\":%ld,\"b\":%ld}", sh->len ? "," : "", e, f, o, a, b);
	put(t, n);
}
extern "C" void sim_raw(const char *fmt, ...)
{
	static char t[1 << 20];
	int n = 0;
	if (sh->len) t[n++] = ',';
	va_list ap; va_start(ap, fmt); n += vsnprintf(t + n, sizeof t - n, fmt, ap); va_end(ap);
	if (n >= (int)sizeof t) { sh->overflow = 1; return; }
	put(t, n);
}
extern "C" void sim_cfgjson(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt); sh->cfglen = vsnprintf(sh->cfg, sizeof sh->cfg, fmt, ap); va_end(ap);
	if (sh->cfglen >= sizeof sh->cfg) { sh->overflow = 1; sh->cfglen = 0; }
}
extern "C" void sim_finish(void) { active = 0; sh->finished = 1; fflush(stderr); _exit(0); }
extern "C" void sim_dump_threads(void)
{
	for (int i = 0; i < nth; i++) if (ths[i]->state != DONE)
		fprintf(stderr, "thread %d %s %s obj=%p deadline=%lld\n", i, ths[i]->state == RUN ? "run" : "blocked", ths[i]->what ? ths[i]->what : "", ths[i]->wobj, (long long)ths[i]->deadline);
}
extern "C" void sim_stuck(const char *why)
{
	active = 0;
	fprintf(stderr, "STUCK: %s at virtual %lld us, steps %lld\n", why, (long long)now_us, (long long)steps);
	sim_dump_threads();
	sim_ev("Stuck", 0, 0, 0, 0);
	sh->finished = 1; fflush(stderr);
	_exit(0);
}
static void crash(const char *why, const void *addr, void *pc)
{
	active = 0;
	fprintf(stderr, "CRASH: %s addr=%p pc=%p\n", why, addr, pc);
	void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2);
	sim_ev("Crash", 0, 0, 0, 0);
	sh->finished = 1; fflush(stderr);
	_exit(0);
}
static bool is_ready(Th *t)
{
	if (t->state == RUN) return true;
	if (t->state != BLOCKED) return false;
	if (t->ready && t->ready(t->rctx)) return true;
	if (t->deadline >= 0 && t->deadline <= now_us) return true;
	return false;
}
static bool do_rearm(bool force)
{
	for (size_t i = 0; i < rearms->size(); i++) {
		Rearm r = (*rearms)[i];
		if (!force && r.when > now_us) continue;
		rearms->erase(rearms->begin() + i);
		auto it = epreg->find(EpKey{r.epfd, r.fd});
		if (it != epreg->end()) { epoll_event e = it->second; __real_epoll_ctl(r.epfd, EPOLL_CTL_MOD, r.fd, &e); }
		return true;
	}
	return false;
}
static void real_grace(int usec) { struct timespec ts = {0, usec * 1000l}; __real_nanosleep(&ts, 0); }
// choose the next thread to run; the current one may be blocked/done/run
static Th *choose(void)
{
	Th *c[256]; int n = 0;
	for (;;) {
		if (!rearms->empty() && srnd(4) == 0) do_rearm(true);
		n = 0;
		for (int i = 0; i < nth; i++) if (ths[i]->qtime < 0 && is_ready(ths[i])) c[n++] = ths[i];
		if (n) break;
		if (do_rearm(true)) continue;
		if (net_dirty) {
			// let the kernel deliver what is on its way
			bool hit = false;
			net_dirty = 0; net_last_us = now_us; net_graced = 0;
			for (int k = 0; k < 12 && !hit; k++) {
				real_grace(k < 4 ? 20 : 100);
				for (int i = 0; i < nth; i++) if (ths[i]->qtime < 0 && is_ready(ths[i])) { hit = true; break; }
			}
			continue;
		}
		if (aio_some()) continue;
		// quiescent: quiescers first, then time
		Th *q = 0;
		for (int i = 0; i < nth; i++) if (ths[i]->state == BLOCKED && ths[i]->qtime >= 0 && ths[i]->qtime <= now_us) q = ths[i];
		if (q) { q->qtime = -1; return q; }
		int64_t md = -1;
		for (int i = 0; i < nth; i++) {
			if (ths[i]->state != BLOCKED) continue;
			int64_t d = ths[i]->qtime >= 0 ? ths[i]->qtime : ths[i]->deadline;
			if (d >= 0 && (md < 0 || d < md)) md = d;
		}
		if (md < 0) sim_stuck("deadlock: no thread can run");
		if (++steps > max_steps) sim_stuck("step limit");
		if (sim_net_grace_ms && !net_graced && md > net_last_us + 2000000) {
			// real TCP may hold a packet back for some real milliseconds
			bool hit = false;
			net_graced = 1;
			for (int k = 0; k < sim_net_grace_ms && !hit; k++) {
				real_grace(1000);
				for (int i = 0; i < nth; i++) if (ths[i]->qtime < 0 && is_ready(ths[i])) { hit = true; break; }
			}
			if (hit) { net_graced = 0; continue; }
		}
		if (md > now_us) now_us = md;
		if (now_us > sim_max_vtime) sim_stuck("virtual time limit");
	}
	if (pol == 2) {
		Th *b = c[0];
		for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i];
		return b;
	}
	return c[srnd(n)];
}
static void new_budget(void)
{
	if (pol == 0) budget = spinny ? 1 << 12 : 1 << 20;
	else if (pol == 1) { // geometric-ish with mean pmean
		uint32_t r = srnd(1000) + 1; double u = r / 1001.0;
		int64_t b = 1; double v = u; // -ln(u)*mean without libm
		double l = 0; while (v < 0.5) { v *= 2; l += 0.6931472; }
		l += (1 - v) + (1 - v) * (1 - v) / 2 + (1 - v) * (1 - v) * (1 - v) / 3;
		b = (int64_t)(l * (spinny && pmean > 80 ? 1 + pmean % 7 : pmean)) + 1; budget = b;
	} else budget = spinny ? 100 : 500;
}
static void switch_to(Th *t)
{
	Th *me = cur;
	if (t->state == BLOCKED) t->state = RUN;
	t->qtime = -1;
	if (t == me) return;
	me->run_len = 0;
	cur = t;
	fut_post(&t->go);
	if (me->state != DONE) fut_wait(&me->go);
}
static void resched(void) { inrt = 1; Th *t = choose(); switch_to(t); inrt = 0; new_budget(); }
static void maybe_switch(bool sync)
{
	if (!active || inrt) return;
	if (++steps > max_steps) sim_stuck("step limit");
	if (pol == 2) {
		for (int i = 0; i < pct_n; i++) if (pct_cp[i] && steps > pct_cp[i]) { pct_cp[i] = 0; cur->prio = pct_low--; }
		if (++cur->run_len > (spinny ? 8 : sync ? 400 : 3000)) { cur->prio = pct_low--; cur->run_len = 0; }
		resched();
		return;
	}
	if (sync && (int)srnd(100) >= psync) return;
	resched();
}
static void slow_access(void)
{
	if (inrt) { budget = 100; return; }
	if (pol == 2) { steps += spinny ? 100 : 500; new_budget(); maybe_switch(false); return; }
	if (pol == 0) { steps += spinny ? 1 << 12 : 1 << 18; new_budget(); cur->run_len++; if (steps > max_steps) sim_stuck("step limit"); resched(); return; }
	steps += pmean;
	maybe_switch(false);
	new_budget();
}
static int atomic_depth;
extern "C" void sim_atomic_begin(void) { atomic_depth++; inrt++; }
extern "C" void sim_atomic_end(void) { atomic_depth--; inrt--; }
extern "C" void sim_point(void) { maybe_switch(true); }
extern "C" void sim_turns(int mean) { pol = 1; pmean = mean; new_budget(); }
extern "C" int sim_live_threads(void) { int n = 0; for (int i = 0; i < nth; i++) n += ths[i]->state != DONE; return n; }
extern "C" int64_t sim_thread_acc(int id) { return id >= 0 && id < nth ? ths[id]->acc : 0; }
extern "C" int sim_tid(void) { return self ? self->id : -1; }
extern "C" int64_t sim_now_us(void) { return now_us; }
extern "C" void sim_advance_us(int64_t us) { now_us += us; }
extern "C" void sim_step_clock_us(int64_t us) { wall_off += us; }

// block the current thread; returns true when ready, false on timeout
static bool block(const char *what, void *obj, int (*ready)(void *), void *ctx, int64_t deadline)
{
	if (!active) return true;
	if (atomic_depth) crash("blocking inside an atomic section", obj, __builtin_return_address(0));
	Th *me = cur;
	if (ready && ready(ctx)) return true;
	me->state = BLOCKED; me->ready = ready; me->rctx = ctx; me->deadline = deadline; me->what = what; me->wobj = obj;
	for (;;) {
		inrt = 1; Th *t = choose(); switch_to(t); inrt = 0; new_budget();
		// resumed
		bool ok = ready && ready(ctx);
		if (ok || (deadline >= 0 && deadline <= now_us)) { me->deadline = -1; me->ready = 0; return ok; }
		me->state = BLOCKED;
	}
}
struct PredCtx { int (*p)(void *); void *a; };
extern "C" int sim_wait(int (*pred)(void *), void *arg, int64_t vms)
{
	return block("sim_wait", arg, pred, arg, vms < 0 ? -1 : now_us + vms * 1000);
}
extern "C" void sim_quiesce(int64_t vms)
{
	Th *me = cur;
	me->state = BLOCKED; me->ready = 0; me->rctx = 0; me->deadline = -1; me->qtime = now_us + vms * 1000; me->what = "quiesce";
	inrt = 1; Th *t = choose(); switch_to(t); inrt = 0; new_budget();
}

// ---------------------------------------------------------------- memory
static char *const ARENA = (char *)0x600000000000ull;
static const size_t ARENA_SZ = 4ull << 30;
static unsigned char *shadow;
static size_t brk_;
static uint64_t memgen;
static long live_blocks, live_bytes;
struct Hdr { uint64_t size; uint32_t magic; uint32_t gen; void *pc; uint64_t pad; };
static_assert(sizeof(Hdr) == 32, "hdr");
static const uint32_t M_LIVE = 0x11223344, M_FREE = 0x55667788;
static const size_t RZ = 32;
static void arena_init(void)
{
	void *p = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != ARENA) { fprintf(stderr, "arena\n"); _exit(9); }
	shadow = (unsigned char *)mmap(0, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	brk_ = 4096;
}
static inline bool in_arena(const void *p) { return (uintptr_t)p - (uintptr_t)ARENA < ARENA_SZ; }
static size_t fail_big; static int fail_big_n;
extern "C" void sim_fail_malloc_big(size_t m, int n) { fail_big = m; fail_big_n = n; }
extern "C" void sim_fail_creates(int n) { fail_creates = n; }
static void *amalloc(size_t n, size_t align, void *pc)
{
	if (fail_big_n > 0 && n >= fail_big) { fail_big_n--; return 0; }
	if (align < 16) align = 16;
	size_t o = brk_ + sizeof(Hdr);
	o = (o + align - 1) / align * align;
	size_t end = o + (n + 15) / 16 * 16 + RZ;
	if (end > ARENA_SZ) { fprintf(stderr, "arena exhausted\n"); _exit(9); }
	brk_ = end;
	Hdr *h = (Hdr *)(ARENA + o) - 1;
	h->size = n; h->magic = M_LIVE; h->gen = (uint32_t)memgen; h->pc = pc;
	size_t s = o / 8, full = n / 8;
	__real_memset(shadow + s, 8, full);
	if (n % 8) shadow[s + full] = n % 8;
	live_blocks++; live_bytes += n;
	__real_memset(ARENA + o, 0xA5, n > 8192 ? 4096 : n);
	return ARENA + o;
}
static void afree(void *p, void *pc)
{
	Hdr *h = (Hdr *)p - 1;
	if (((uintptr_t)p & 7) || h->magic != M_LIVE) crash(h->magic == M_FREE ? "double free" : "bad free", p, pc);
	h->magic = M_FREE;
	size_t o = (char *)p - ARENA;
	__real_memset(shadow + o / 8, 0x80, (h->size + 7) / 8);
	__real_memset(p, 0xDD, h->size > 8192 ? 4096 : h->size);
	live_blocks--; live_bytes -= h->size;
}
static void bad_access(const void *a, size_t n, void *pc)
{
	unsigned char s = shadow[((uintptr_t)a - (uintptr_t)ARENA) / 8];
	crash(s == 0x80 ? "use after free" : "heap access out of bounds", a, pc);
}
static inline void check(const void *a, size_t n, void *pc)
{
	uintptr_t x = (uintptr_t)a - (uintptr_t)ARENA;
	if (x >= ARENA_SZ || n == 0) return;
	uintptr_t f = x / 8, l = (x + n - 1) / 8;
	for (uintptr_t i = f; i < l; i++) if (__builtin_expect(shadow[i] != 8, 0)) { bad_access((char *)ARENA + i * 8, n, pc); }
	unsigned char s = shadow[l];
	if (__builtin_expect(s != 8, 0)) { if (s == 0x80 || ((x + n - 1) & 7) >= s) bad_access((char *)ARENA + l * 8, n, pc); }
}
extern "C" int sim_is_valid(const void *p, size_t n)
{
	uintptr_t x = (uintptr_t)p - (uintptr_t)ARENA;
	if (x >= ARENA_SZ) return 0;
	for (size_t i = 0; i < n; i++) { unsigned char s = shadow[(x + i) / 8]; if (s == 0x80 || ((x + i) & 7) >= s) return 0; }
	return 1;
}
extern "C" long sim_off(const void *p) { uintptr_t x = (uintptr_t)p - (uintptr_t)ARENA; return x < ARENA_SZ ? (long)x : -1; }
extern "C" size_t sim_block_size(const void *p) { return ((const Hdr *)p - 1)->size; }
extern "C" long sim_live_blocks(void) { return live_blocks; }
extern "C" long sim_live_bytes(void) { return live_bytes; }
extern "C" void sim_mem_mark(void) { memgen++; }
template <class F> static void each_live(F f)
{
	// walk by shadow: headers precede every block; scan 16-byte aligned magic words
	for (size_t o = 4096; o + sizeof(Hdr) <= brk_; o += 16) {
		Hdr *h = (Hdr *)(ARENA + o);
		if ((h->magic == M_LIVE || h->magic == M_FREE) && h->pad != 1) {
			size_t b = o + sizeof(Hdr);
			if (h->magic == M_LIVE && h->size && shadow[b / 8] == 0) continue;
			if (h->magic == M_LIVE) f(h);
			o = b + (h->size + 15) / 16 * 16 + RZ - 16;
		}
	}
}
extern "C" long sim_live_since_mark(void) { long n = 0; each_live([&](Hdr *h) { if (h->gen == (uint32_t)memgen) n++; }); return n; }
extern "C" long sim_live_total(void) { long n = 0; each_live([&](Hdr *) { n++; }); return n; }
extern "C" void sim_dump_live(void)
{
	each_live([&](Hdr *h) { if (h->gen == (uint32_t)memgen) { fprintf(stderr, "live %p size %llu gen %u pc ", (void *)(h + 1), (unsigned long long)h->size, h->gen); fflush(stderr); backtrace_symbols_fd(&h->pc, 1, 2); } });
}
extern "C" int sim_open_fds(void) { int n = 0; for (int i = 3; i < 4096; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }

#define PC __builtin_return_address(0)
extern "C" {
void *__wrap_malloc(size_t n) { return amalloc(n, 16, PC); }
void *__wrap_calloc(size_t a, size_t b) { void *p = amalloc(a * b, 16, PC); if (p) __real_memset(p, 0, a * b); return p; }
void __wrap_free(void *p) { if (!p) return; if (in_arena(p)) afree(p, PC); else __real_free(p); }
void *__wrap_realloc(void *p, size_t n)
{
	if (!p) return amalloc(n, 16, PC);
	if (!in_arena(p)) return __real_realloc(p, n);
	check(p, 0, PC);
	Hdr *h = (Hdr *)p - 1;
	if (h->magic != M_LIVE) crash("realloc of freed", p, PC);
	void *q = amalloc(n, 16, PC);
	if (!q) return 0;
	__real_memcpy(q, p, n < h->size ? n : h->size);
	afree(p, PC);
	return q;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)amalloc(n, 16, PC); __real_memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)amalloc(n + 1, 16, PC); __real_memcpy(p, s, n); p[n] = 0; return p; }
void *__wrap_memalign(size_t a, size_t n) { return amalloc(n, a, PC); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return amalloc(n, a, PC); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { *p = amalloc(n, a, PC); return *p ? 0 : ENOMEM; }
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (active) { check(d, n, PC); check(s, n, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (active) { check(d, n, PC); check(s, n, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (active) check(d, n, PC); return __real_memset(d, c, n); }

// ---------------------------------------------------------------- tsan callbacks
static inline void acc(const void *a, size_t n, void *pc)
{
	if (!active) return;
	check(a, n, pc);
	cur->acc++;
	if (__builtin_expect(--budget <= 0, 0)) slow_access();
}
#define RW(N) \
	void __tsan_read##N(void *a) { acc(a, N, PC); } void __tsan_write##N(void *a) { acc(a, N, PC); } \
	void __tsan_unaligned_read##N(void *a) { acc(a, N, PC); } void __tsan_unaligned_write##N(void *a) { acc(a, N, PC); } \
	void __tsan_volatile_read##N(void *a) { acc(a, N, PC); } void __tsan_volatile_write##N(void *a) { acc(a, N, PC); } \
	void __tsan_unaligned_volatile_read##N(void *a) { acc(a, N, PC); } void __tsan_unaligned_volatile_write##N(void *a) { acc(a, N, PC); } \
	void __tsan_read_write##N(void *a) { acc(a, N, PC); } void __tsan_unaligned_read_write##N(void *a) { acc(a, N, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *) { acc(a, 8, PC); }
void __tsan_vptr_read(void **a) { acc(a, 8, PC); }
void __tsan_read_range(void *a, unsigned long n) { acc(a, n, PC); }
void __tsan_write_range(void *a, unsigned long n) { acc(a, n, PC); }
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
static inline void atm(const volatile void *a, size_t n, void *pc) { if (!active) return; check((const void *)a, n, pc); cur->acc++; budget -= 3; if (budget <= 0) slow_access(); }
#define ATOMIC(B, T) \
	T __tsan_atomic##B##_load(const volatile T *a, int) { atm(a, sizeof(T), PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##B##_store(volatile T *a, T v, int) { atm(a, sizeof(T), PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { atm(a, sizeof(T), PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { atm(a, sizeof(T), PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { atm(a, sizeof(T), PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { atm(a, sizeof(T), PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { atm(a, sizeof(T), PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { atm(a, sizeof(T), PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { atm(a, sizeof(T), PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
	bool __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { atm(a, sizeof(T), PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	bool __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { atm(a, sizeof(T), PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { atm(a, sizeof(T), PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)

// ---------------------------------------------------------------- pthread
static Th *th_by_pt(pthread_t t) { for (int i = nth - 1; i >= 0; i--) if (th_pt[i] == t) return ths[i]; return 0; }
extern "C" { void (*sim_thread_exit_hook)(int); }
static void *tramp(void *p)
{
	Th *t = (Th *)p;
	self = t;
	th_pt[t->id] = pthread_self();
	fut_wait(&t->go);
	inrt = 0; new_budget();
	maybe_switch(true);
	void *r = t->fn(t->arg);
	if (sim_thread_exit_hook) sim_thread_exit_hook(t->id);
	// end
	inrt = 1;
	t->state = DONE;
	Th *n = choose();
	cur = n;
	if (n->state == BLOCKED) n->state = RUN;
	n->qtime = -1;
	fut_post(&n->go);
	return r;
}
static Th *new_th(void)
{
	if (nth >= 256) { fprintf(stderr, "too many threads\n"); _exit(9); }
	Th *t = (Th *)__real_calloc(1, sizeof(Th));
	t->id = nth; t->state = RUN; t->deadline = -1; t->qtime = -1; t->prio = 1 + srnd(1000000);
	ths[nth++] = t;
	return t;
}
int __wrap_pthread_create(pthread_t *id, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
	maybe_switch(true);
	if (fail_creates > 0) { fail_creates--; sim_create_failures++; return EAGAIN; }
	if (sim.fail_create && (int)srnd(1000) < sim.fail_create) { sim_create_failures++; return EAGAIN; }
	Th *t = new_th();
	t->fn = fn; t->arg = arg; t->usr2_blocked = cur->usr2_blocked;
	pthread_attr_t at; pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 512 * 1024);
	pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
	pthread_t pt;
	int r = __real_pthread_create(&pt, &at, tramp, t);
	if (r) { fprintf(stderr, "real pthread_create failed %d\n", r); _exit(9); }
	*id = pt;
	th_pt[t->id] = pt;
	maybe_switch(true);
	return 0;
}
struct SMutex { int owner; int magic; int waiters; };
static int mtx_free(void *p) { return ((SMutex *)p)->owner == 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { check(m, sizeof *m, PC); __real_memset(m, 0, sizeof *m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	if (!active) return 0;
	check(m, sizeof *m, PC);
	if (((SMutex *)m)->owner) crash("destroy of a locked mutex", m, PC);
	return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!active) return 0;
	check(m, sizeof *m, PC);
	maybe_switch(true);
	SMutex *s = (SMutex *)m;
	while (s->owner) { block("mutex", m, mtx_free, m, -1); check(m, sizeof *m, PC); }
	s->owner = cur->id + 1;
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	if (!active) return 0;
	check(m, sizeof *m, PC);
	maybe_switch(true);
	SMutex *s = (SMutex *)m;
	if (s->owner) return EBUSY;
	s->owner = cur->id + 1;
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (!active) return 0;
	check(m, sizeof *m, PC);
	SMutex *s = (SMutex *)m;
	if (s->owner != cur->id + 1) crash("mutex unlocked by a thread that does not hold it", m, PC);
	s->owner = 0;
	maybe_switch(true);
	return 0;
}
struct CW { void *c; bool sig, spur; };
static std::vector<CW *> *cws;
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { check(c, sizeof *c, PC); __real_memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
	if (!active) return 0;
	check(c, sizeof *c, PC);
	for (auto w : *cws) if (w->c == c && !w->sig) crash("condition destroyed while waited on", c, PC);
	return 0;
}
static int cw_ready(void *p) { return ((CW *)p)->sig || ((CW *)p)->spur; }
int __wrap_pthread_cond_timedwait_us(pthread_cond_t *c, pthread_mutex_t *m, int64_t dl)
{
	check(c, sizeof *c, PC); check(m, sizeof *m, PC);
	SMutex *s = (SMutex *)m;
	if (s->owner != cur->id + 1) crash("cond wait without the mutex", m, PC);
	CW w = {c, false, false};
	w.spur = sim.spurious && (int)srnd(1000) < sim.spurious;
	cws->push_back(&w);
	s->owner = 0;
	bool ok = true;
	if (w.spur) maybe_switch(true); else ok = block("cond", c, cw_ready, &w, dl);
	for (size_t i = 0; i < cws->size(); i++) if ((*cws)[i] == &w) { cws->erase(cws->begin() + i); break; }
	while (s->owner) block("mutex", m, mtx_free, m, -1);
	s->owner = cur->id + 1;
	return ok ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!active) return 0; return __wrap_pthread_cond_timedwait_us(c, m, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	int64_t dl = ts->tv_sec * 1000000ll + ts->tv_nsec / 1000 - WALL0 - wall_off;
	return __wrap_pthread_cond_timedwait_us(c, m, dl < now_us ? now_us : dl);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
	if (!active) return 0;
	check(c, sizeof *c, PC);
	std::vector<CW *> k;
	for (auto w : *cws) if (w->c == c && !w->sig) k.push_back(w);
	if (!k.empty()) k[srnd(k.size())]->sig = true;
	maybe_switch(true);
	return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
	if (!active) return 0;
	check(c, sizeof *c, PC);
	for (auto w : *cws) if (w->c == c) w->sig = true;
	maybe_switch(true);
	return 0;
}
int __wrap_pthread_kill(pthread_t t, int sig)
{
	maybe_switch(true);
	Th *x = th_by_pt(t);
	if (!x || x->state == DONE) return ESRCH;
	if (sig == SIGUSR2) { if (x->usr2_blocked) x->usr2_pending = true; /* else the handler ignores it */ }
	maybe_switch(true);
	return 0;
}
int __wrap_pthread_sigmask(int how, const sigset_t *set, sigset_t *old)
{
	if (!active) return 0;
	if (set && sigismember(set, SIGUSR2)) {
		if (how == SIG_BLOCK) cur->usr2_blocked = true;
		else if (how == SIG_UNBLOCK) { cur->usr2_blocked = false; cur->usr2_pending = false; }
	}
	if (set && how == SIG_SETMASK) { cur->usr2_blocked = sigismember(set, SIGUSR2); if (!cur->usr2_blocked) cur->usr2_pending = false; }
	maybe_switch(true);
	return 0;
}
static int sig_ready(void *p) { return ((Th *)p)->usr2_pending; }
int __wrap_sigwait(const sigset_t *, int *sig)
{
	if (!active) return 0;
	maybe_switch(true);
	cur->what = "sigwait";
	block("sigwait", cur, sig_ready, cur, -1);
	cur->usr2_pending = false;
	if (sig) *sig = SIGUSR2;
	return 0;
}
// ---------------------------------------------------------------- time
static int64_t wall_us(void) { return WALL0 + now_us + wall_off; }
int __wrap_gettimeofday(struct timeval *tv, void *) { int64_t w = wall_us(); tv->tv_sec = w / 1000000; tv->tv_usec = w % 1000000; return 0; }
time_t __wrap_time(time_t *t) { time_t w = wall_us() / 1000000; if (t) *t = w; return w; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { int64_t w = c == CLOCK_REALTIME ? wall_us() : now_us + 1000000000ll; ts->tv_sec = w / 1000000; ts->tv_nsec = (w % 1000000) * 1000; return 0; }
int __wrap_usleep(useconds_t us) { if (!active) return 0; block("usleep", 0, 0, 0, now_us + us); return 0; }
unsigned __wrap_sleep(unsigned s) { if (!active) return 0; block("sleep", 0, 0, 0, now_us + s * 1000000ll); return 0; }
int __wrap_nanosleep(const struct timespec *ts, struct timespec *) { if (!active) return 0; block("nanosleep", 0, 0, 0, now_us + ts->tv_sec * 1000000ll + ts->tv_nsec / 1000); return 0; }
int __wrap_sched_yield(void) { maybe_switch(true); return 0; }

// ---------------------------------------------------------------- fds
static unsigned char fdclosed[65536];
static int poison = -1;
static int fd_ready(void *p)
{
	int *a = (int *)p;
	struct pollfd pf = {a[0], (short)a[1], 0};
	return poll(&pf, 1, 0) > 0;
}
static void wait_fd(int fd, short ev, int64_t dl)
{
	int a[2] = {fd, ev};
	block("fd", (void *)(long)fd, fd_ready, a, dl);
}
static bool is_blocking(int fd) { int fl = fcntl(fd, F_GETFL); return fl != -1 && !(fl & O_NONBLOCK); }
static bool is_sock(int fd) { int t; socklen_t l = sizeof t; return getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) == 0; }
static void rearm(int fd)
{
	for (auto &k : *epreg) if (k.first.fd == fd) rearms->push_back(Rearm{now_us + (int64_t)srnd(3) * 1000, k.first.ep, fd});
}
extern "C" { int sim_file_short; }
static bool inject(int fd, int rate) { return rate && sim_io_faults && (int)srnd(1000) < rate && fcntl(fd, F_GETFL) != -1 && !is_blocking(fd) && is_sock(fd); }
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int n, int tmo)
{
	if (!active) return __real_epoll_wait(ep, ev, n, tmo);
	aio_maybe();
	maybe_switch(true);
	if (tmo != 0) {
		bool known = false; for (int e : *epfds) known |= e == ep;
		if (!known) epfds->push_back(ep);
		wait_fd(ep, POLLIN, tmo < 0 ? -1 : now_us + tmo * 1000ll);
	}
	int r = __real_epoll_wait(ep, ev, n, 0);
	// deliver simultaneous events in any order
	if (r > 1) for (int i = r - 1; i > 0; i--) { int j = srnd(i + 1); epoll_event t = ev[i]; ev[i] = ev[j]; ev[j] = t; }
	return r;
}
// connections whose completion is noticed only later: the kernel's queue does not hear of them before
struct Held { int ep; bool asked; epoll_event ev; };
static std::map<int, Held> held; static int heldport[16], stuckport[16], nheld, nstuck;
int sim_connect_sync;
__thread int sim_fail_fd;
extern "C" void sim_hold_port(int p) { heldport[nheld++] = p; }
extern "C" void sim_stuck_port(int p) { stuckport[nstuck++] = p; }
extern "C" void sim_release_fd(int fd)
{
	inrt++;
	auto it = held.find(fd);
	if (it != held.end()) { Held h = it->second; held.erase(it); net_dirty = 1; if (h.asked) __real_epoll_ctl(h.ep, EPOLL_CTL_ADD, fd, &h.ev); }
	inrt--;
}
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *e)
{
	if (active && sim_fail_fd == 2 && op == EPOLL_CTL_ADD) { sim_fail_fd = 0; errno = ENOSPC; return -1; }
	auto it = held.find(fd);
	if (it != held.end()) {
		it->second.ep = ep; it->second.asked = op != EPOLL_CTL_DEL; if (e) it->second.ev = *e;
		if (op == EPOLL_CTL_DEL) epreg->erase(EpKey{ep, fd}); else (*epreg)[EpKey{ep, fd}] = *e;
		return 0;
	}
	int r = __real_epoll_ctl(ep, op, fd, e);
	if (r == 0) { if (op == EPOLL_CTL_DEL) epreg->erase(EpKey{ep, fd}); else (*epreg)[EpKey{ep, fd}] = *e; }
	return r;
}
static ssize_t trunc_iov(const struct iovec *iov, int n, struct iovec *out, int *on)
{
	size_t tot = 0; for (int i = 0; i < n; i++) tot += iov[i].iov_len;
	if (tot <= 1) return -1;
	size_t lim = 1 + srnd(srnd(2) ? tot - 1 : (tot - 1 > 8 ? 8 : tot - 1)); int k = 0;
	for (int i = 0; i < n && lim && k < 64; i++) { out[k] = iov[i]; if (out[k].iov_len > lim) out[k].iov_len = lim; lim -= out[k].iov_len; k++; }
	*on = k;
	return 0;
}
static void chk_iov(const struct iovec *iov, int n, void *pc) { if (!active) return; check(iov, n * sizeof *iov, pc); for (int i = 0; i < n; i++) check(iov[i].iov_base, iov[i].iov_len, pc); }
static ssize_t io_v(int fd, const struct iovec *iov, int n, bool w, void *pc)
{
	if (!active) return w ? __real_writev(fd, iov, n) : __real_readv(fd, iov, n);
	chk_iov(iov, n, pc);
	maybe_switch(true);
	struct iovec t[64]; int tn = 0;
	if (is_blocking(fd) && (is_sock(fd))) { wait_fd(fd, w ? POLLOUT : POLLIN, -1); }
	if (inject(fd, sim.eagain)) { rearm(fd); errno = EAGAIN; return -1; }
	bool shrt = inject(fd, sim.short_io) && trunc_iov(iov, n, t, &tn) == 0;
	ssize_t r = w ? __real_writev(fd, shrt ? t : iov, shrt ? tn : n) : __real_readv(fd, shrt ? t : iov, shrt ? tn : n);
	if (shrt && r > 0) { int e = errno; rearm(fd); errno = e; }
	if (r > 0 || w) net_dirty = 1;
	return r;
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) { return io_v(fd, v, n, false, PC); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { return io_v(fd, v, n, true, PC); }
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (!active) return __real_read(fd, b, n);
	check(b, n, PC);
	maybe_switch(true);
	if (is_blocking(fd)) { struct pollfd pf = {fd, POLLIN, 0}; if (poll(&pf, 1, 0) == 0) wait_fd(fd, POLLIN, -1); }
	if (is_sock(fd)) { struct iovec v = {b, n}; return io_v(fd, &v, 1, false, PC); }
	if (sim_file_short && n > 1 && srnd(3) == 0) n = 1 + srnd(n);
	return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (!active) return __real_write(fd, b, n);
	check(b, n, PC);
	if (is_sock(fd)) { struct iovec v = {(void *)b, n}; return io_v(fd, &v, 1, true, PC); }
	maybe_switch(true);
	ssize_t r = __real_write(fd, b, n);
	maybe_switch(true);
	return r;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { if (active && fl == 0) { struct iovec v = {b, n}; return io_v(fd, &v, 1, false, PC); } net_dirty = 1; return __real_recv(fd, b, n, fl); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { if (active && fl == 0) { struct iovec v = {(void *)b, n}; return io_v(fd, &v, 1, true, PC); } net_dirty = 1; return __real_send(fd, b, n, fl); }
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int fl)
{
	if (active) { chk_iov(m->msg_iov, m->msg_iovlen, PC); maybe_switch(true); if (inject(fd, sim.eagain)) { rearm(fd); errno = EAGAIN; return -1; } net_dirty = 1; }
	return __real_recvmsg(fd, m, fl);
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl) { if (active) { chk_iov(m->msg_iov, m->msg_iovlen, PC); maybe_switch(true); net_dirty = 1; } return __real_sendmsg(fd, m, fl); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l)
{
	if (active) { check(b, n, PC); maybe_switch(true); if (inject(fd, sim.eagain)) { rearm(fd); errno = EAGAIN; return -1; } net_dirty = 1; }
	return __real_recvfrom(fd, b, n, fl, a, l);
}
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { if (active) { check(b, n, PC); maybe_switch(true); net_dirty = 1; } return __real_sendto(fd, b, n, fl, a, l); }
REAL(long, BIO_ctrl, BIO *, int, long, void *)
REAL(ossl_ssize_t, SSL_sendfile, SSL *, int, off_t, size_t, int)
REAL(void, SSL_free, SSL *)
ssize_t __wrap_sendfile(int o, int i, off_t *off, size_t n)
{
	if (!active) return __real_sendfile(o, i, off, n);
	maybe_switch(true);
	net_dirty = 1;
	if (inject(o, sim.eagain)) { rearm(o); errno = EAGAIN; return -1; }
	if (n > 1 && inject(o, sim.short_io)) { rearm(o); n = 1 + srnd(n - 1); }
	return __real_sendfile(o, i, off, n);
}
// Kernel TLS for sending, where the driver says so: the library asks for it with BIO_ctrl; SSL_sendfile
// then sends what the file holds there, as the kernel would.
int (*sim_ktls)(int fd);
struct KtlsPend { std::string b; };
static std::map<void *, KtlsPend> ktls_pend;	// a record that is not yet out
static int has_ktls(BIO *b) { int fd = -1; if (b) __real_BIO_ctrl(b, BIO_C_GET_FD, 0, &fd); return fd >= 0 && sim_ktls(fd); }
long __wrap_BIO_ctrl(BIO *b, int cmd, long l, void *p)
{
	if (!active || !sim_ktls || cmd != 73) return __real_BIO_ctrl(b, cmd, l, p);	// BIO_CTRL_GET_KTLS_SEND
	return has_ktls(b);
}
ossl_ssize_t __wrap_SSL_sendfile(SSL *s, int fd, off_t off, size_t n, int flags)
{
	if (!active || !sim_ktls || !has_ktls(SSL_get_wbio(s))) return __real_SSL_sendfile(s, fd, off, n, flags);
	maybe_switch(true);
	static __thread char buf[16384];
	size_t ask = std::min(n, sizeof buf);
	inrt++;
	auto it = ktls_pend.find(s);
	bool again = it != ktls_pend.end();
	inrt--;
	if (again) { if (ask > it->second.b.size()) ask = it->second.b.size(); }
	else if (ask > 1 && inject(SSL_get_fd(s), sim.short_io)) ask = 1 + srnd(ask - 1);
	ssize_t got = pread(fd, buf, ask, off);
	if (got <= 0) return got;
	int r = SSL_write(s, buf, got);
	if (r <= 0 && SSL_is_server(s) && ERR_GET_REASON(ERR_peek_last_error()) == ERR_R_SHOULD_NOT_HAVE_BEEN_CALLED) {	// the client's early data are not over: the kernel has the keys already
		size_t w = 0;
		ERR_clear_error();
		r = SSL_write_early_data(s, buf, got, &w) == 1 ? (int)w : -1;
	}
	inrt++;
	ktls_pend.erase(s);
	if (r <= 0 && SSL_get_error(s, r) == SSL_ERROR_WANT_WRITE) ktls_pend[s].b = std::string(buf, got);
	inrt--;
	return r > 0 ? r : -1;
}
void __wrap_SSL_free(SSL *s) { inrt++; ktls_pend.erase(s); inrt--; __real_SSL_free(s); }
static void fresh_fd(int fd) { if (fd >= 0 && fd < 65536) fdclosed[fd] = 0; }
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { if (active) { maybe_switch(true); net_dirty = 1; } int r = __real_accept(fd, a, l); fresh_fd(r); return r; }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { if (active) { maybe_switch(true); if (inject(fd, sim.eagain / 2)) { rearm(fd); errno = EAGAIN; return -1; } if (inject(fd, sim.accept_abort)) { errno = ECONNABORTED; return -1; } net_dirty = 1; } int r = __real_accept4(fd, a, l, f); fresh_fd(r); return r; }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l)
{
	if (active) { maybe_switch(true); net_dirty = 1; }
	int r = __real_connect(fd, a, l), err = errno;
	if (active && sim_connect_sync && r < 0 && err == EINPROGRESS) {
		int port = a->sa_family == AF_INET ? ntohs(((struct sockaddr_in *)a)->sin_port) : a->sa_family == AF_INET6 ? ntohs(((struct sockaddr_in6 *)a)->sin6_port) : 0;
		bool stuck = false;
		for (int i = 0; i < nstuck; i++) stuck |= stuckport[i] == port;
		// decided now, unless the peer does not answer at all
		if (!stuck) { struct pollfd pf = {fd, POLLOUT, 0}; poll(&pf, 1, 2000); }
		inrt++;
		for (int i = 0; i < nheld; i++) if (heldport[i] == port) held[fd] = Held{0, false, {}};
		inrt--;
	}
	errno = err;
	return r;
}
int __wrap_shutdown(int fd, int how) { if (active) { maybe_switch(true); net_dirty = 1; if (fd >= 0 && fd < 65536 && fdclosed[fd]) { sim_bad_close++; fprintf(stderr, "shutdown of closed fd %d\n", fd); } } int r = __real_shutdown(fd, how); int e = errno; if (active) sim_release_fd(fd); errno = e; return r; }
int __wrap_socket(int a, int b, int c) { if (active && sim_fail_fd == 1) { sim_fail_fd = 0; errno = EMFILE; return -1; } int r = __real_socket(a, b, c); fresh_fd(r); return r; }
int __wrap_close(int fd)
{
	if (!active || fd < 3 || fd >= 65536) return __real_close(fd);
	maybe_switch(true);
	net_dirty = 1;
	inrt++; held.erase(fd); inrt--;
	for (auto it = epreg->begin(); it != epreg->end();) if (it->first.fd == fd || it->first.ep == fd) it = epreg->erase(it); else ++it;
	if (fdclosed[fd] || fcntl(fd, F_GETFD) == -1) { sim_bad_close++; fprintf(stderr, "close of fd %d twice\n", fd); errno = EBADF; return -1; }
	// keep the number occupied so that a second close or a late use is seen
	fdclosed[fd] = 1;
	dup2(poison, fd);
	return 0;
}
int sim_live_fds(void) { int n = 0; for (int i = 3; i < 4096; i++) if (!fdclosed[i] && fcntl(i, F_GETFD) != -1) n++; return n; }
// asynchronous file I/O: requests are carried out at a chosen moment between submission and the next quiet state, in any order
struct AioReq { int ctx; struct iocb *user, cb; };
struct AioCtx { std::deque<struct io_event> ring; };
static std::vector<AioReq> *aioq; static AioCtx *actx[256]; static int nactx;
int (*sim_iosubmit_hook)(struct iocb *);		// <0: the submission fails
int (*sim_ioexec_hook)(struct iocb *);			// before the transfer; may shorten it; <0: it fails
void (*sim_iodone_hook)(struct iocb *, long);	// after the transfer
static void aio_run(int k)
{
	AioReq r = (*aioq)[k]; aioq->erase(aioq->begin() + k); aio_inflight--;
	if (!actx[r.ctx]) return;
	struct iocb req = r.cb; long res = 0;
	int f = sim_ioexec_hook ? sim_ioexec_hook(&r.cb) : 0;
	if (f < 0) res = f;
	else {
		check((void *)(uintptr_t)r.cb.aio_buf, r.cb.aio_nbytes, PC);
		if (r.cb.aio_lio_opcode == IOCB_CMD_PREAD) res = pread(r.cb.aio_fildes, (void *)(uintptr_t)r.cb.aio_buf, r.cb.aio_nbytes, r.cb.aio_offset);
		else if (r.cb.aio_lio_opcode == IOCB_CMD_PWRITE) res = pwrite(r.cb.aio_fildes, (void *)(uintptr_t)r.cb.aio_buf, r.cb.aio_nbytes, r.cb.aio_offset);
		else { errno = EINVAL; res = -1; }
		if (res < 0) res = -errno;
	}
	if (sim_iodone_hook) sim_iodone_hook(&req, res);
	struct io_event e; memset(&e, 0, sizeof e); e.data = r.cb.aio_data; e.res = res; e.obj = (uint64_t)(uintptr_t)r.user;
	actx[r.ctx]->ring.push_back(e);
	if (r.cb.aio_flags & IOCB_FLAG_RESFD) { uint64_t one = 1; if (__real_write(r.cb.aio_resfd, &one, 8) != 8) {} }
}
static bool aio_some(void) { if (!aioq || aioq->empty()) return false; aio_run(srnd(aioq->size())); return true; }
static void aio_maybe(void) { if (aioq && !aioq->empty() && srnd(4) == 0) aio_some(); }
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f)
{
	if (active && n == SYS_io_setup) {
		if (nactx >= 256) { errno = EAGAIN; return -1; }
		if (!aioq) aioq = new std::vector<AioReq>;
		actx[nactx] = new AioCtx; *(aio_context_t *)b = 0x1000 + nactx++; return 0;
	}
	if (active && (n == SYS_io_submit || n == SYS_io_getevents || n == SYS_io_destroy)) {
		maybe_switch(true);
		int k = a - 0x1000;
		if (k < 0 || k >= nactx || !actx[k]) { errno = EINVAL; return -1; }
		if (n == SYS_io_destroy) { delete actx[k]; actx[k] = 0; return 0; }
		if (n == SYS_io_submit) {
			struct iocb **l = (struct iocb **)c;
			for (long i = 0; i < b; i++) {
				check(l[i], sizeof(struct iocb), PC);
				check((void *)(uintptr_t)l[i]->aio_buf, l[i]->aio_nbytes, PC);
				if (sim_iosubmit_hook) { int r = sim_iosubmit_hook(l[i]); if (r < 0) { if (i) return i; errno = -r; return -1; } }
				AioReq r; r.ctx = k; r.user = l[i]; r.cb = *l[i]; aioq->push_back(r); aio_inflight++;
				if (srnd(2)) aio_run(aioq->size() - 1);
			}
			return b;
		}
		struct io_event *o = (struct io_event *)d; long got = 0, most = c;
		if (most > 1 && srnd(2)) most = 1 + srnd(most);
		while (got < most && !actx[k]->ring.empty()) { o[got++] = actx[k]->ring.front(); actx[k]->ring.pop_front(); }
		return got;
	}
	if (active) maybe_switch(true);
	return __real_syscall(n, a, b, c, d, e, f);
}
sim_resolver sim_getaddrinfo; sim_addrfree sim_freeaddrinfo;
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
void __real_freeaddrinfo(struct addrinfo *);
int __wrap_getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res)
{
	if (active) maybe_switch(true);
	if (active && sim_getaddrinfo && !(h && (h->ai_flags & AI_NUMERICHOST))) return sim_getaddrinfo(node, h, res);
	inrt++; int r = __real_getaddrinfo(node, svc, h, res); inrt--;
	return r;
}
void __wrap_freeaddrinfo(struct addrinfo *r) { if (active && sim_freeaddrinfo) { sim_freeaddrinfo(r); return; } __real_freeaddrinfo(r); }
}
// ---------------------------------------------------------------- main
static sim_scenario find(const char *n) { for (sim_reg *r = regs; r; r = r->next) if (!strcmp(r->name, n)) return r->fn; return 0; }
static void child(sim_scenario fn, uint64_t seed)
{
	sim.seed = seed;
	rs_sched = seed * 0x9E3779B97F4A7C15ull + 12345; rs_drv = seed * 0xD1B54A32D192ED03ull + 777;
	sm64(rs_sched); sm64(rs_drv);
	cws = new std::vector<CW *>; epfds = new std::vector<int>; rearms = new std::vector<Rearm>; epreg = new std::map<EpKey, epoll_event>;
	arena_init();
	poison = open("/dev/null", O_PATH | O_CLOEXEC);
	struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max > 65536 ? 65536 : rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl);
	signal(SIGPIPE, SIG_IGN);
	int p = sim.policy;
	if (p < 0) { int r = srnd(10); p = r < 2 ? 0 : r < 7 ? 1 : 2; }
	pol = p;
	static const int means[] = {3, 8, 25, 80, 300, 2000};
	pmean = means[srnd(6)];
	static const int ps[] = {10, 50, 80, 100};
	psync = ps[srnd(4)];
	pct_n = 1 + srnd(4);
	for (int i = 0; i < pct_n; i++) pct_cp[i] = 1 + srnd(srnd(2) ? 20000 : 2000);
	if (sim.max_steps) max_steps = sim.max_steps;
	Th *t = new_th();
	t->fn = 0; self = t; cur = t;
	th_pt[0] = pthread_self();
	new_budget();
	now_us = srnd(1000000);
	active = 1;
	fn();
	sim_finish();
}
struct Slot { pid_t pid; uint64_t seed; int errfd; struct timespec t0; };
int main(int argc, char **argv)
{
	params = new std::map<std::string, std::string>;
	if (argc < 2) { for (sim_reg *r = regs; r; r = r->next) printf("%s\n", r->name); return 2; }
	sim_scenario fn = find(argv[1]);
	if (!fn) { fprintf(stderr, "no scenario %s\n", argv[1]); return 2; }
	const char *out = "-"; uint64_t seed0 = 1; int n = 1, jobs = NSLOT; int tmo = 30; int verbose = 0;
	sim.policy = -1;
	for (int i = 2; i < argc; i++) {
		char *eq = strchr(argv[i], '=');
		if (!eq) continue;
		std::string k(argv[i], eq - argv[i]); std::string v(eq + 1);
		if (k.compare(0, 4, "sim.") == 0) k = k.substr(4);
		if (k == "out") out = eq + 1; else if (k == "seed") seed0 = strtoull(v.c_str(), 0, 10); else if (k == "n") n = atoi(v.c_str());
		else if (k == "jobs") jobs = atoi(v.c_str()); else if (k == "tmo") tmo = atoi(v.c_str()); else if (k == "verbose") verbose = atoi(v.c_str());
		else if (k == "policy") sim.policy = atoi(v.c_str()); else if (k == "spurious") sim.spurious = atoi(v.c_str());
		else if (k == "fail_create") sim.fail_create = atoi(v.c_str()); else if (k == "short_io") sim.short_io = atoi(v.c_str());
		else if (k == "eagain") sim.eagain = atoi(v.c_str()); else if (k == "accept_abort") sim.accept_abort = atoi(v.c_str()); else if (k == "max_steps") sim.max_steps = atoll(v.c_str());
		else (*params)[k] = v;
	}
	if (jobs > NSLOT) jobs = NSLOT;
	FILE *fo = strcmp(out, "-") ? fopen(out, "w") : stdout;
	std::string errn = std::string(out) + ".err";
	FILE *fe = strcmp(out, "-") ? fopen(errn.c_str(), "w") : stderr;
	if (!fo || !fe) { perror(out); return 2; }
	Shared *slots[NSLOT]; Slot sl[NSLOT];
	cpu_set_t allowed; CPU_ZERO(&allowed); sched_getaffinity(0, sizeof allowed, &allowed);
	std::vector<int> cpus; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &allowed)) cpus.push_back(i);
	if (jobs > (int)cpus.size()) jobs = cpus.size();
	for (int i = 0; i < jobs; i++) { slots[i] = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); sl[i].pid = 0; }
	int started = 0, donec = 0, bad = 0;
	while (donec < n) {
		for (int i = 0; i < jobs && started < n; i++) if (!sl[i].pid) {
			slots[i]->len = 0; slots[i]->cfglen = 0; slots[i]->overflow = 0; slots[i]->finished = 0;
			sl[i].seed = seed0 + started; sl[i].errfd = memfd_create("err", 0);
			fflush(fo); fflush(fe);
			__real_clock_gettime(CLOCK_MONOTONIC, &sl[i].t0);
			pid_t p = fork();
			if (p == 0) {
				sh = slots[i];
				cpu_set_t c; CPU_ZERO(&c); CPU_SET(cpus[i % cpus.size()], &c); sched_setaffinity(0, sizeof c, &c);
				if (!verbose) { dup2(sl[i].errfd, 2); dup2(sl[i].errfd, 1); }
				alarm(tmo);
				child(fn, sl[i].seed);
				_exit(0);
			}
			sl[i].pid = p; started++;
		}
		int st; pid_t p = waitpid(-1, &st, 0);
		if (p < 0) break;
		for (int i = 0; i < jobs; i++) if (sl[i].pid == p) {
			sh = slots[i];
			const char *stat = "ok";
			if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) stat = "timeout";
			else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) stat = "killed";
			else if (WIFSIGNALED(st)) { stat = "crash"; sim_ev("Crash", WTERMSIG(st), 0, 0, 0); }
			else if (WEXITSTATUS(st) == 9) stat = "error";
			else if (!slots[i]->finished) { stat = "crash"; sim_ev("Crash", 100 + WEXITSTATUS(st), 0, 0, 0); }
			if (slots[i]->overflow) stat = "overflow";
			fprintf(fo, "{\"id\":%llu,\"st\":\"%s\",\"cfg\":%.*s,\"ev\":[", (unsigned long long)sl[i].seed, stat, slots[i]->cfglen ? (int)slots[i]->cfglen : 2, slots[i]->cfglen ? slots[i]->cfg : "{}");
			fwrite(slots[i]->buf, 1, slots[i]->len, fo);
			fprintf(fo, "]}\n");
			bool interesting = strcmp(stat, "ok") || (slots[i]->len > 40 && memmem(slots[i]->buf + slots[i]->len - 60 * (slots[i]->len > 60), 60, "\"Crash\"", 7)) || (slots[i]->len > 40 && memmem(slots[i]->buf + (slots[i]->len > 60 ? slots[i]->len - 60 : 0), slots[i]->len > 60 ? 60 : slots[i]->len, "\"Stuck\"", 7));
			off_t el = lseek(sl[i].errfd, 0, SEEK_END);
			if (el > 0 && (interesting || n == 1)) {
				char eb[6001]; off_t from = el > 6000 ? el - 6000 : 0; ssize_t k = pread(sl[i].errfd, eb, 6000, from); if (k < 0) k = 0; eb[k] = 0;
				fprintf(fe, "=== seed %llu %s\n%s\n", (unsigned long long)sl[i].seed, stat, eb);
			}
			if (strcmp(stat, "ok") && strcmp(stat, "crash")) bad++;
			__real_close(sl[i].errfd); sl[i].pid = 0; donec++;
		}
	}
	fflush(fo);
	return bad ? 4 : 0;
}
// OpenSSL's transfers go through the same socket layer: its calls of read and write find these
extern "C" {
extern char __executable_start, etext;
long __real_syscall(long n, ...);
static bool from_here(void *pc) { return (char *)pc >= &__executable_start && (char *)pc < &etext; }
__attribute__((visibility("default"))) ssize_t read(int fd, void *b, size_t n)
{
	if (from_here(PC) || !active) return __real_syscall(SYS_read, fd, b, n);
	return __wrap_read(fd, b, n);
}
__attribute__((visibility("default"))) ssize_t write(int fd, const void *b, size_t n)
{
	if (from_here(PC) || !active) return __real_syscall(SYS_write, fd, b, n);
	return __wrap_write(fd, b, n);
}
}
