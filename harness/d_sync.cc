// C05 fiber reader-writer lock, C06 fiber conditions, C07 thread events, C08 spinning locks,
// C09 channel, C03 posted callbacks.
#include "common.h"
#include "kfiber_internal.h"
static int nf, nops, nsel, done_cnt;
static int pred_done(void *) { return done_cnt >= nf; }
static void *thr_start(void *(*f)(void *), long a) { pthread_t t; pthread_create(&t, NULL, f, (void *)a); pthread_detach(t); return 0; }
static void fib(kselector *s, kfiber_start_func f, int id) { kfiber_create2(s, f, NULL, id, 0, NULL); }

// ------------------------------------------------------------------ rwlock
static kfiber_rwlock *RW;
static int rw_body(void *, int id)
{
	for (int k = 0; k < nops; k++) {
		int w = sim_rnd(3) == 0;
		int lo = w ? 2 : 1, uo = w ? 4 : 3;
		sim_ev("inv", id, lo, 0, 0);
		if (w) kfiber_rwlock_wlock(RW); else kfiber_rwlock_rlock(RW);
		sim_ev("ret", id, lo, 0, 0);
		for (int j = sim_rnd(3); j > 0; j--) { if (sim_rnd(2) == 0) kfiber_msleep(sim_rnd(3)); else sim_point(); }
		sim_ev("inv", id, uo, 0, 0);
		if (w) kfiber_rwlock_wunlock(RW); else kfiber_rwlock_runlock(RW);
		sim_ev("ret", id, uo, 0, 0);
		if (sim_rnd(3) == 0) kfiber_msleep(sim_rnd(4));
	}
	ATOMIC_INC(done_cnt);
	return 0;
}
SCENARIO(rwlock)
{
	nsel = 1 << sim_rnd(3); nf = 2 + sim_rnd(5); nops = 1 + sim_rnd(4);
	int fsel[32]; char sl[128], *e = sl;
	for (int i = 1; i <= nf; i++) e += sprintf(e, "%s%d", i > 1 ? "," : "", fsel[i] = sim_rnd(nsel));
	sim_cfgjson("{\"nf\":%d,\"sel\":[%s]}", nf, sl);
	boot(nsel);
	RW = kfiber_rwlock_init();
	for (int i = 1; i <= nf; i++) fib(get_selector_by_index(fsel[i]), rw_body, i);
	sim_wait(pred_done, 0, 3000);
	sim_quiesce(0);
	sim_ev("End", 0, 0, 0, done_cnt >= nf);
}

// ------------------------------------------------------------------ fiber conditions
static kfiber_cond *FC;
static int kind, autor, nxt_id, max_id;
static int new_id() { return ATOMIC_INC(nxt_id); }
static kev_result cond_cb(KOPAQUE, void *arg, int got) { sim_ev("cb", (long)arg, 4, 0, got); return kev_ok; }
static void do_notice(int id)
{
	int v = 1 + sim_rnd(1000);
	sim_ev("inv", id, 3, v, 0); FC->f->notice(FC, v); sim_ev("ret", id, 3, v, 0);
}
static void do_wait(int id) { int got = -7; sim_ev("inv", id, 1, 0, 0); FC->f->wait(FC, &got); sim_ev("ret", id, 1, 0, got); }
static void do_try(int id) { int got = -7; sim_ev("inv", id, 2, 0, 0); int r = FC->f->try_wait(FC, &got); sim_ev("ret", id, 2, r == 0, got); }
static int cond_body(void *, int id)
{
	for (int k = 0; k < nops; k++) {
		int r = sim_rnd(10);
		if (kind == 2) do_notice(id);
		else if (r < 4) do_notice(id);
		else if (r < 7) do_wait(id);
		else if (r < 8) do_try(id);
		else { int c = new_id(); sim_ev("inv", c, 4, 0, 0); FC->f->wait_callback(FC, NULL, cond_cb, (void *)(long)c); }
		if (sim_rnd(3) == 0) kfiber_msleep(sim_rnd(3));
	}
	ATOMIC_INC(done_cnt);
	return 0;
}
static void *cond_thread(void *a)
{
	int id = (int)(long)a;
	for (int k = 0; k < nops; k++) {
		int r = sim_rnd(10);
		if (kind == 1 || r < 4) do_notice(id);
		else if (r < 8) do_wait(id);
		else do_try(id);
		if (sim_rnd(3) == 0) usleep(1000 * sim_rnd(3));
	}
	ATOMIC_INC(done_cnt);
	return 0;
}
SCENARIO(cond)
{
	kind = sim_iparam("kind", 1); // 0 single selector, 1 thread safe, 2 shared with plain threads
	autor = sim_rnd(2);
	nsel = kind == 0 ? 1 : 1 << sim_rnd(3); nf = 2 + sim_rnd(4); nops = 1 + sim_rnd(4);
	int nthr = kind == 0 ? 0 : kind == 1 ? sim_rnd(3) : 1 + sim_rnd(3);
	int nfib = nf; nf += nthr; nxt_id = nf;
	sim_cfgjson("{\"auto\":%d,\"merge\":0,\"anyval\":%d,\"n\":%d,\"kind\":%d,\"nsel\":%d}", autor, kind == 2, nf + nfib * nops, kind, nsel);
	boot(nsel);
	FC = kind == 0 ? kfiber_cond_init(autor) : kind == 1 ? kfiber_cond_init_ts(autor) : kfiber_cond_init_sync(autor);
	for (int i = 0; i < nfib; i++) fib(get_selector_by_index(sim_rnd(nsel)), cond_body, i + 1);
	for (int i = nfib; i < nf; i++) thr_start(cond_thread, i + 1);
	sim_wait(pred_done, 0, 500);
	sim_quiesce(50);
	sim_ev("End", 0, 0, 0, 0);
}

// ------------------------------------------------------------------ thread events
static kcond *KC;
static void *kc_thread(void *a)
{
	int id = (int)(long)a;
	for (int k = 0; k < nops; k++) {
		int r = sim_rnd(20);
		if (r < 8) { sim_ev("inv", id, 3, 0, 0); kcond_notice(KC); sim_ev("ret", id, 3, 0, 0); }
		else if (r < 15) { sim_ev("inv", id, 1, 0, 0); kcond_wait(KC); sim_ev("ret", id, 1, 0, 0); }
		else if (r < 18) { sim_ev("inv", id, 2, 0, 0); bool ok = kcond_try_wait(KC, 0); sim_ev("ret", id, 2, ok, 0); }
		else { sim_ev("inv", id, 5, 0, 0); kcond_reset(KC); sim_ev("ret", id, 5, 0, 0); }
		if (sim_rnd(3) == 0) usleep(1000 * sim_rnd(3));
	}
	ATOMIC_INC(done_cnt);
	return 0;
}
SCENARIO(kcond)
{
	autor = sim_rnd(2); nf = 2 + sim_rnd(4); nops = 1 + sim_rnd(5);
	if (sim_rnd(2)) sim.spurious = 100;
	sim_cfgjson("{\"auto\":%d,\"merge\":1,\"anyval\":0,\"n\":%d}", autor, nf);
	KC = kcond_init(autor);
	for (int i = 0; i < nf; i++) thr_start(kc_thread, i + 1);
	sim_wait(pred_done, 0, 500);
	sim_quiesce(50);
	sim_ev("End", 0, 0, 0, 0);
}

// ------------------------------------------------------------------ spinning locks
static krw_mutex S1; static kwr_mutex S2; static int wrp, s_hot;
static int s_tid[32], s_state[32]; static int64_t s_base[32]; // state: 1 waiting writer, 2 reading, 3 leaving writer
static long s_mask()
{
	bool rd = false, est = false; long m = 0;
	for (int i = 1; i <= nf; i++) {
		if (s_state[i] == 2) rd = true;
		if (s_state[i] == 3) return 0;
		if (s_state[i] == 1) { m |= 1l << i; if (sim_thread_acc(s_tid[i]) - s_base[i] > 200) est = true; }
	}
	return rd && est ? m : 0;
}
static void s_rebase() { for (int i = 1; i <= nf; i++) if (s_state[i] == 1) s_base[i] = sim_thread_acc(s_tid[i]); }
static void s_read(int id)
{
	bool hi = wrp && sim_rnd(3) == 0;
	sim_atomic_begin(); sim_ev("inv", id, 1, wrp && !hi ? s_mask() : 0, hi); sim_atomic_end();
	if (wrp) kwr_mutex_rlock(&S2, hi); else krw_mutex_rlock(&S1);
	sim_atomic_begin(); s_state[id] = 2; sim_ev("ret", id, 1, 0, 0); sim_atomic_end();
	for (int j = s_hot ? sim_rnd(3) : sim_rnd(4) * sim_rnd(60); j > 0; j--) sim_point();
	sim_atomic_begin(); s_state[id] = 0; sim_ev("inv", id, 3, 0, 0); sim_atomic_end();
	if (wrp) kwr_mutex_runlock(&S2); else krw_mutex_runlock(&S1);
	sim_ev("ret", id, 3, 0, 0);
}
static void s_write(int id)
{
	sim_atomic_begin(); s_base[id] = sim_thread_acc(s_tid[id]); s_state[id] = 1; sim_ev("inv", id, 2, 0, 0); sim_atomic_end();
	if (wrp) kwr_mutex_wlock(&S2); else krw_mutex_wlock(&S1);
	sim_atomic_begin(); s_state[id] = 3; sim_ev("ret", id, 2, 0, 0); sim_atomic_end();
	for (int j = sim_rnd(s_hot ? 10 : 4); j > 0; j--) sim_point();
	sim_ev("inv", id, 4, 0, 0);
	if (wrp) kwr_mutex_wunlock(&S2); else krw_mutex_wunlock(&S1);
	sim_atomic_begin(); s_state[id] = 0; s_rebase(); sim_ev("ret", id, 4, 0, 0); sim_atomic_end();
}
static void *spin_thread(void *a)
{
	int id = (int)(long)a;
	s_tid[id] = sim_tid();
	for (int k = 0; k < nops; k++) { if (sim_rnd(s_hot ? 2 : 3) == 0) s_write(id); else s_read(id); }
	ATOMIC_INC(done_cnt);
	return 0;
}
SCENARIO(spin)
{
	wrp = sim_iparam("wrp", 0); nf = 2 + sim_rnd(4); nops = 1 + sim_rnd(4);
	s_hot = sim_rnd(2); if (s_hot) { nf = 3 + sim_rnd(2); nops = 3 + sim_rnd(5); }
	sim_spinny = 1;
	sim_cfgjson("{\"n\":%d}", nf + 1);
	krw_mutex_init(&S1); kwr_mutex_init(&S2);
	for (int i = 0; i < nf; i++) thr_start(spin_thread, i + 1);
	int ok = sim_wait(pred_done, 0, 1000);
	if (ok) { s_tid[nf + 1] = sim_tid(); s_read(nf + 1); s_write(nf + 1); s_read(nf + 1); }
	sim_ev("End", 0, 0, 1, ok);
}

// ------------------------------------------------------------------ channel
static kfiber_chan *CH; static int ch_data; static bool ch_closer;
static void ch_ref(const char *e) { bool v = sim_is_valid(CH, sizeof(*CH)); sim_ev("ref", 0, 0, v ? kfiber_chan_get_ref(CH) : 0, v); }
static int chan_body(void *, int id)
{
	int role = sim_rnd(3); // 0 mixed, 1 sender, 2 receiver
	for (int k = 0; k < nops; k++) {
		int r = role == 1 ? 0 : role == 2 ? 1 : sim_rnd(2);
		if (ch_closer && sim_rnd(12) == 0) { sim_ev("inv", id, 5, 0, 0); kfiber_chan_close(CH); sim_ev("ret", id, 5, 0, 0); }
		else if (r == 0) {
			long d = ATOMIC_INC(ch_data);
			sim_ev("inv", id, 1, d, 0); int rc = kfiber_chan_send(CH, (KOPAQUE)d); sim_ev("ret", id, 1, 0, rc);
		} else {
			int man = sim_rnd(3) == 0;
			KOPAQUE d = NULL; kfiber_waiter *s = NULL;
			sim_ev("inv", id, man ? 3 : 2, 0, 0);
			int rc = kfiber_chan_recv(CH, &d, man ? &s : NULL);
			sim_ev("ret", id, man ? 3 : 2, rc == 0 ? (long)d : 0, rc);
			if (s) {
				if (sim_rnd(2)) kfiber_msleep(sim_rnd(3));
				int v = sim_rnd(100);
				sim_ev("tell", id, 4, v, (long)d); kfiber_chan_wakeup(CH, s, v);
			}
		}
		if (sim_rnd(3) == 0) kfiber_msleep(sim_rnd(3));
	}
	ATOMIC_INC(done_cnt);

	sim_ev("dropref", 0, 0, 0, 0); kfiber_chan_release(CH);
	ch_ref("ref");
	return 0;
}
static int chan_close_body(void *, int id)
{
	kfiber_msleep(200 + sim_rnd(3));
	sim_ev("inv", id, 5, 0, 0); kfiber_chan_close(CH); sim_ev("ret", id, 5, 0, 0);
	sim_ev("dropref", 0, 0, 0, 0); kfiber_chan_release(CH);
	ch_ref("ref");
	ATOMIC_INC(done_cnt);
	return 0;
}
static int chan_main(void *, int id)
{
	CH = kfiber_chan_create();
	ch_ref("ref");
	for (int i = 0; i < nf; i++) { sim_ev("addref", 0, 0, 0, 0); kfiber_chan_add_ref(CH); ch_ref("ref"); }
	for (int i = 0; i < nf - 1; i++) fib(NULL, chan_body, i + 1);
	int closer = sim_rnd(4) != 0;
	if (closer) fib(NULL, chan_close_body, nf);
	else { sim_ev("dropref", 0, 0, 0, 0); kfiber_chan_release(CH); }
	kfiber_msleep(100 + 200 * sim_rnd(2));
	sim_ev("dropref", 0, 0, 0, 0); kfiber_chan_release(CH);
	ch_ref("ref");
	return 0;
}
SCENARIO(chan)
{
	nf = 3 + sim_rnd(4); nops = 1 + sim_rnd(4); ch_closer = sim_rnd(3) == 0;
	sim_cfgjson("{\"n\":%d}", nf);
	boot(1);
	fib(get_selector_by_index(0), chan_main, 0);
	sim_quiesce(1500);
	ch_ref("ref");
	sim_ev("End", 0, 0, 0, 0);
}

// ------------------------------------------------------------------ posted callbacks
static int npost; static int64_t p_time[4096];
struct Post { int sel, tag, got; };
static Post P[4096];
static void do_post(int depth);
static kev_result post_cb(KOPAQUE data, void *arg, int got)
{
	int id = (int)(long)arg;
	kselector *s = kgl_get_tls_selector();
	int late = sim_now_us() - p_time[id] > 400000 ? 1000000 : 0;
	sim_ev("run", id, s ? s->sid : -1, (long)data, got + late);
	ATOMIC_INC(done_cnt);
	if (sim_rnd(5) == 0 && npost < 3000) do_post(1);
	return kev_ok;
}
static int tot;
static void do_post(int)
{
	int id = ATOMIC_INC(npost), s = sim_rnd(nsel), got = sim_rnd(100000) - 50000; long tag = sim_rnd(1 << 20);
	p_time[id] = sim_now_us(); ATOMIC_INC(tot);
	sim_ev("post", id, s, tag, got);
	kgl_selector_module.next(get_selector_by_index(s), (KOPAQUE)tag, post_cb, (void *)(long)id, got);
}
static int post_body(void *, int)
{
	for (int k = 0; k < nops; k++) { do_post(0); if (sim_rnd(4) == 0) kfiber_msleep(sim_rnd(3)); }
	return 0;
}
static void *post_thread(void *)
{
	for (int k = 0; k < nops; k++) { do_post(0); if (sim_rnd(4) == 0) usleep(sim_rnd(3) * 1000); }
	return 0;
}
SCENARIO(post)
{
	nsel = 1 << sim_rnd(3); nf = 1 + sim_rnd(4);
	nops = sim_rnd(6) ? 1 + sim_rnd(6) : 20 + sim_rnd(120);
	sim_cfgjson("{\"nsel\":%d}", nsel);
	boot(nsel);
	if (sim_rnd(3)) sim_quiesce(sim_rnd(2000)); // loops asleep
	for (int i = 0; i < nf; i++) { if (sim_rnd(2)) fib(get_selector_by_index(sim_rnd(nsel)), post_body, i); else thr_start(post_thread, i); }
	sim_quiesce(3000);
	sim_ev("End", 0, 0, 0, 0);
}
