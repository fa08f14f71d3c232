// C01 life of fibers, C02 waits and wakeups.
#include "common.h"
#include "kfiber_internal.h"
#include "kselectable.h"
#include <alloca.h>

// ------------------------------------------------------------------ C01
#define MAXF 400
static int nsel, nextf, nextj, maxf, pending, standalone;
static long arg_of(int id) { return id * 1000l + 7; }
static int cur_sid() { kselector *s = kgl_get_tls_selector(); return s ? s->sid : -2; }
static int body(void *arg, int len);
static int new_f() { return ATOMIC_INC(nextf); }
static int new_j() { return ATOMIC_INC(nextj); }
enum { H_LOCAL, H_TS, H_SYNC };
struct H { kfiber *f; int id, kind; };
static int nocb[MAXF + 64]; // created for an outside thread: only that one can join
static void jret(int id, int j, int a, int v) { sim_ev("jret", id, j, a, v); }
static kev_result jcb(KOPAQUE data, void *arg, int got)
{
	int id = (int)((long)arg >> 20), j = (int)((long)arg & 0xfffff);
	jret(id, j, 0, got);
	__sync_sub_and_fetch(&pending, 1);
	return kev_ok;
}
static void jinv(int id, int j, int form) { sim_ev("jinv", id, j, form, 0); }
static void join_cb_now(H *h) // from a main context
{
	int j = new_j();
	jinv(h->id, j, 3);
	kfiber_join2(h->f, NULL, jcb, (void *)(((long)h->id << 20) | j));
}
static kev_result join_in_main(KOPAQUE, void *arg, int) { H *h = (H *)arg; join_cb_now(h); free(h); return kev_ok; }
static void join_here(H *h, bool fiber)
{
	int j = new_j(), v = -12345;
	if (sim_rnd(2)) {
		jinv(h->id, j, 1);
		kfiber_join(h->f, &v);
		jret(h->id, j, 0, v);
	} else {
		for (;;) {
			j = new_j(); v = -12345;
			jinv(h->id, j, 2);
			int rc = kfiber_try_join(h->f, &v);
			jret(h->id, j, rc != 0, v);
			if (rc == 0) break;
			int ms = 1 + sim_rnd(10);
			if (fiber) kfiber_msleep(ms); else usleep(ms * 1000);
		}
	}
	__sync_sub_and_fetch(&pending, 1);
}
static kselector *pick_sel() { return standalone ? kgl_get_tls_selector() : get_selector_by_index(sim_rnd(nsel)); }
// creates a fiber in one of the possible ways; returns its handle or NULL
static H *spawn(int how, bool handle, kselector *sel)
{
	if (nextf >= maxf) return NULL;
	int id = new_f(), len = sim_rnd(1000), rc;
	kfiber *f = NULL;
	static const int sizes[] = {0, 0, 4096, 8192, 65536, 100000};
	int stk = sizes[sim_rnd(6)];
	bool fail = sim_rnd(8) == 0;
	ATOMIC_INC(pending);
	if (fail) sim_fail_malloc_big(20000, 1);
	if (how == 0) { // own selector
		sim_ev("create", id, standalone ? -1 : cur_sid(), arg_of(id), len);
		rc = kfiber_create(body, (void *)arg_of(id), len, stk, handle ? &f : NULL);
	} else if (how == 1) {
		sim_ev("create", id, standalone ? -1 : sel->sid, arg_of(id), len);
		rc = kfiber_create2(sel, body, (void *)arg_of(id), len, stk, handle ? &f : NULL);
	} else if (how == 2) { // created paused, then started
		sim_ev("create", id, standalone ? -1 : cur_sid(), arg_of(id), len);
		f = kfiber_new(body, (void *)arg_of(id), stk);
		rc = f ? 0 : -1;
		if (f) { if (sim_rnd(2)) sim_point(); rc = kfiber_start(f, len); }
		handle = true;
	} else {
		nocb[id] = handle;
		sim_ev("create", id, -1, arg_of(id), len);
		rc = kfiber_create_sync(body, (void *)arg_of(id), len, stk, handle ? &f : NULL);
	}
	if (fail) sim_fail_malloc_big(0, 0);
	sim_ev("created", id, 0, rc, 0);
	if (rc != 0) { __sync_sub_and_fetch(&pending, 1); return NULL; }
	if (!handle) return NULL;
	ATOMIC_INC(pending); // the join
	H *h = (H *)malloc(sizeof(H));
	h->f = f; h->id = id; h->kind = how == 1 ? H_TS : how == 3 ? H_SYNC : H_LOCAL;
	return h;
}
static int joiner(void *arg, int) { H *h = (H *)arg; join_here(h, true); free(h); return 0; }
// hands a handle to somebody who joins it; called on a selector
static void dispose(H *h)
{
	kselector *s = h->kind == H_LOCAL ? kgl_get_tls_selector() : pick_sel();
	int r = sim_rnd(4);
	if (r == 0) kgl_selector_module.next(s, NULL, join_in_main, h, 0);
	else if (r == 1 && kfiber_create2(s, joiner, h, 0, 0, NULL) == 0) return;
	else if (kfiber_is_main()) join_in_main(NULL, h, 0);
	else { join_here(h, true); free(h); }
}
static int work(int id, int depth)
{
	H *hs[4]; int nh = 0;
	int v = sim_rnd(100000) - 50000;
	int n = sim_rnd(4);
	for (int k = 0; k < n; k++) {
		int r = sim_rnd(6);
		if (r == 0) kfiber_msleep(sim_rnd(4));
		else if (r < 4 && depth < 3) {
			H *h = spawn(sim_rnd(3), sim_rnd(3) != 0, pick_sel());
			if (h) { if (nh < 4 && sim_rnd(2)) hs[nh++] = h; else dispose(h); }
		} else sim_point();
	}
	for (int i = 0; i < nh; i++) dispose(hs[i]);
	return v;
}
static int body(void *arg, int len)
{
	int id = (int)(((long)arg - 7) / 1000);
	sim_ev("start", id, cur_sid(), (long)arg, len);
	if (!nocb[id] && sim_rnd(4) == 0) { // called back at its own end, perhaps more than once
		for (int n = 1 + sim_rnd(2); n > 0; n--) {
			int j = new_j(); ATOMIC_INC(pending);
			jinv(id, j, 4);
			kfiber_exit_callback(NULL, jcb, (void *)(((long)id << 20) | j));
		}
		if (sim_rnd(2)) {
			ATOMIC_INC(pending);
			H *h = (H *)malloc(sizeof(H)); h->f = kfiber_ref_self(false); h->id = id; h->kind = H_LOCAL;
			kgl_selector_module.next(kgl_get_tls_selector(), NULL, join_in_main, h, 0);
		}
	}
	int v = work(id, (int)(id / (maxf / 3 + 1)) + 1);
	sim_ev("end", id, 0, 0, v);
	__sync_sub_and_fetch(&pending, 1);
	return v;
}
static kev_result main_ctx(KOPAQUE, void *, int) // a callback that creates fibers
{
	for (int k = 1 + sim_rnd(2); k > 0; k--) { H *h = spawn(sim_rnd(3), sim_rnd(2), pick_sel()); if (h) dispose(h); }
	__sync_sub_and_fetch(&pending, 1);
	return kev_ok;
}
static void *outsider(void *)
{
	for (int k = 1 + sim_rnd(4); k > 0; k--) {
		int r = sim_rnd(3);
		if (r == 0) { H *h = spawn(3, sim_rnd(3) != 0, NULL); if (h) { join_here(h, false); free(h); } }
		else if (r == 1) { H *h = spawn(1, true, pick_sel()); if (h) kgl_selector_module.next(pick_sel(), NULL, join_in_main, h, 0); }
		else { ATOMIC_INC(pending); kgl_selector_module.next(pick_sel(), NULL, main_ctx, NULL, 0); }
		if (sim_rnd(2)) usleep(1000 * sim_rnd(3));
	}
	__sync_sub_and_fetch(&pending, 1);
	return NULL;
}
static int pred_pending(void *) { return pending == 0; }
SCENARIO(life)
{
	nsel = 1 << sim_rnd(3); maxf = 1 + sim_rnd(14);
	sim_cfgjson("{\"nsel\":%d,\"maxf\":%d}", nsel, maxf);
	boot(nsel);
	sim_quiesce(150);
	int base = kfiber_get_count();
	sim_mem_mark();
	int nt = 1 + sim_rnd(3);
	for (int i = 0; i < nt; i++) { ATOMIC_INC(pending); pthread_t t; pthread_create(&t, NULL, outsider, NULL); pthread_detach(t); }
	int ok = sim_wait(pred_pending, 0, 20000);
	sim_quiesce(50);
	if (ok) sim_ev("live", 0, 0, kfiber_get_count() - base, 0);
	sim_ev("End", 0, 0, sim_live_since_mark(), 0);
	if (sim_iparam("dump", 0)) sim_dump_live();
}
// programs whose main function is a fiber, several times in one thread
static int main_body(void *arg, int len)
{
	int v = body(arg, len);
	while (pending > 0) kfiber_msleep(1);
	return v;
}
SCENARIO(mains)
{
	standalone = 1; maxf = 1 + sim_rnd(8);
	sim_cfgjson("{\"maxf\":%d}", maxf);
	int n = 1 + sim_rnd(3);
	kasync_init();
	int base = kfiber_get_count(), fds = sim_live_fds();
	for (int k = 0; k < n; k++) {
		if (k == 1) sim_mem_mark();	// the first one may keep what every thread keeps
		int id = new_f(), len = sim_rnd(1000), j = new_j(); nocb[id] = 1;
		if (k) maxf += 1 + sim_rnd(4);
		ATOMIC_INC(pending);
		sim_ev("create", id, -1, arg_of(id), len); sim_ev("created", id, 0, 0, 0);
		jinv(id, j, 1);
		int rc = kasync_main(main_body, (void *)arg_of(id), len);
		jret(id, j, 0, rc);
	}
	sim_ev("live", 0, 0, kfiber_get_count() - base, 0);
	sim_ev("End", 0, 0, (n > 1 ? sim_live_since_mark() : 0) + sim_live_fds() - fds, 0);
}

// ------------------------------------------------------------------ C02
extern "C" long regs_check(void (*fn)(void *), void *arg, long pattern);
__asm__(".text\n.globl regs_check\n.type regs_check,@function\nregs_check:\n"
	"push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\npush %rdx\n"
	"mov %rdi,%rax\nmov %rsi,%rdi\n"
	"lea 1(%rdx),%rbx\nlea 2(%rdx),%rbp\nlea 3(%rdx),%r12\nlea 4(%rdx),%r13\nlea 5(%rdx),%r14\nlea 6(%rdx),%r15\n"
	"call *%rax\n"
	"pop %rdx\nxor %eax,%eax\n"
	"lea 1(%rdx),%rcx\nsub %rbx,%rcx\nor %rcx,%rax\n"
	"lea 2(%rdx),%rcx\nsub %rbp,%rcx\nor %rcx,%rax\n"
	"lea 3(%rdx),%rcx\nsub %r12,%rcx\nor %rcx,%rax\n"
	"lea 4(%rdx),%rcx\nsub %r13,%rcx\nor %rcx,%rax\n"
	"lea 5(%rdx),%rcx\nsub %r14,%rcx\nor %rcx,%rax\n"
	"lea 6(%rdx),%rcx\nsub %r15,%rcx\nor %rcx,%rax\n"
	"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n");
struct W { kfiber *f; long obj; int ret; bool result; };
static NOSAN void do_wait(void *a)
{
	W *w = (W *)a;
	if (w->result) w->ret = kfiber_wait_result(w->f, kev_fiber_ok, (void *)w->obj);
	else w->ret = __kfiber_wait(w->f, (void *)w->obj);
}
static NOSAN void setfp(int r, unsigned *mx, unsigned short *cw)
{
	*mx = 0x1f80 | ((r & 3) << 13) | ((r & 4) ? 0x8000 : 0); *cw = 0x033f | ((r & 3) << 10);
	__asm__ volatile("ldmxcsr %0\nfldcw %1" ::"m"(*mx), "m"(*cw));
}
static NOSAN int getfp(unsigned mx, unsigned short cw)
{
	unsigned m; unsigned short c;
	__asm__ volatile("stmxcsr %0\nfnstcw %1" : "=m"(m), "=m"(c));
	return (m & 0xffc0) == (mx & 0xffc0) && (c & 0x0f3f) == (cw & 0x0f3f);
}
struct Req { kfiber *f; long obj, fid; int val; int to; };
static Req reqs[4096]; static int nreq, nserved[8];
static int nf, nops, nthr, nwf, done_cnt; static long nobj = 4096;
static int pred_done(void *) { return done_cnt >= nf; }
static NOSAN int wait_checked(W *w, size_t sz, long seed)
{
	volatile unsigned char *st = (volatile unsigned char *)alloca(sz);
	for (size_t i = 0; i < sz; i += 13) st[i] = (unsigned char)(i * 7 + seed);
	unsigned mx; unsigned short cw;
	setfp((int)seed, &mx, &cw);
	long d = regs_check(do_wait, w, seed * 1000003);
	int ok = d == 0 && getfp(mx, cw);
	unsigned m0 = 0x1f80; unsigned short c0 = 0x037f;
	__asm__ volatile("ldmxcsr %0\nfldcw %1" ::"m"(m0), "m"(c0));
	for (size_t i = 0; i < sz; i += 13) if (st[i] != (unsigned char)(i * 7 + seed)) ok = 0;
	return ok;
}
static void serve(int who) // wakes everybody who asked this waker
{
	for (int i = 0; i < nreq; i++) {
		if (reqs[i].to != who) continue;
		Req r = reqs[i];
		reqs[i].to = -1;
		sim_ev("wake", r.fid, r.obj, r.val, 0);
		kfiber_wakeup_ts(r.f, (void *)r.obj, r.val);
	}
}
static int wk_body(void *, int id)
{
	kfiber *self = kfiber_self2();
	for (int k = 0; k < nops; k++) {
		int val = sim_rnd(1 << 20) - (1 << 19), how = sim_rnd(5);
		W w; w.f = self; w.obj = ATOMIC_INC(nobj); w.ret = 0; w.result = false;
		if (sim_rnd(3) == 0) kfiber_msleep(sim_rnd(3));
		if (how == 0) {
			sim_ev("wake", id, w.obj, val, 0);
			kfiber_wakeup(self, (void *)w.obj, val);
			w.result = true;
		} else if (how == 1) {
			sim_ev("wake", id, w.obj, val, 0);
			kgl_selector_module.next(kgl_get_tls_selector(), (KOPAQUE)w.obj, kfiber_result_callback, self, val);
		} else if (how == 2) {
			val = 0;
			sim_ev("wake", id, w.obj, val, 0);
			kselector_add_timer(kgl_get_tls_selector(), kfiber_result_callback, self, sim_rnd(5), (KOPAQUE)w.obj);
		} else {
			sim_atomic_begin();
			Req *r = &reqs[nreq]; r->f = self; r->obj = w.obj; r->fid = id; r->val = val; r->to = sim_rnd(nthr + nwf); nreq++;
			sim_atomic_end();
		}
		sim_ev("wait", id, w.obj, 0, 0);
		int ok = wait_checked(&w, 16 + sim_rnd(4) * sim_rnd(10000), 1 + sim_rnd(1 << 20));
		sim_ev("woke", id, w.obj, w.ret, ok);
	}
	ATOMIC_INC(done_cnt);
	return 0;
}
static void *wk_thread(void *a) { while (done_cnt < nf) { serve((int)(long)a); usleep(300 + sim_rnd(1000)); } return NULL; }
static int wk_fiber(void *, int id) { while (done_cnt < nf) { serve(id); kfiber_msleep(sim_rnd(3)); } return 0; }
SCENARIO(wake)
{
	nsel = 1 << sim_rnd(3); nf = 1 + sim_rnd(6); nops = 1 + sim_rnd(8); nthr = 1 + sim_rnd(2); nwf = sim_rnd(3);
	sim_cfgjson("{\"nsel\":%d,\"nf\":%d}", nsel, nf);
	boot(nsel);
	for (int i = 0; i < nf; i++) kfiber_create2(get_selector_by_index(sim_rnd(nsel)), wk_body, NULL, i + 1, sim_rnd(2) * 65536, NULL);
	for (int i = 0; i < nwf; i++) kfiber_create2(get_selector_by_index(sim_rnd(nsel)), wk_fiber, NULL, nthr + i, 0, NULL);
	for (int i = 0; i < nthr; i++) { pthread_t t; pthread_create(&t, NULL, wk_thread, (void *)(long)i); pthread_detach(t); }
	int ok = sim_wait(pred_done, 0, 30000);
	sim_quiesce(0);
	sim_ev("End", 0, 0, 0, ok);
}
