// C11 asynchronous worker, C12 thread pool.
#include "common.h"
static int pending;
static int pred_pending(void *) { return pending == 0; }
// ------------------------------------------------------------------ C11
static kasync_worker *wk; static int njob, maxjob, blocking, over;
struct Job { int id, depth; };
static kev_result job_cb(void *data, int msec); static int holdjobs; static int pred_free(void *) { return !holdjobs; }
static void submit(int kind, int depth)
{
	int id = ATOMIC_INC(njob);
	if (id > maxjob) return;
	Job *j = new Job; j->id = id; j->depth = depth;
	ATOMIC_INC(pending);
	int64_t f0 = sim_create_failures;
	sim_ev("sub", id, kind, 0, 0);
	bool ok = true;
	if (kind == 2) kasync_worker_start(wk, j, job_cb);
	else ok = kasync_worker_try_start(wk, j, job_cb, kind == 1);
	sim_ev("res", id, 0, !ok, sim_create_failures != f0);
	if (!ok) { delete j; __sync_sub_and_fetch(&pending, 1); }
}
static kev_result job_cb(void *data, int msec)
{
	Job *j = (Job *)data;
	sim_ev("run", j->id, 0, 0, 0);
	if (sim_rnd(3) == 0) usleep(sim_rnd(3000));
	if (holdjobs) sim_wait(pred_free, 0, -1);
	if (j->depth < 2 && sim_rnd(4) == 0) submit(sim_rnd(2), j->depth + 1);
	sim_ev("fin", j->id, 0, 0, 0);
	delete j;
	__sync_sub_and_fetch(&pending, 1);
	return kev_ok;
}
static int go; static int pred_go(void *) { return go; }
static void *client(void *)
{
	sim_wait(pred_go, 0, -1);
	for (int n = 1 + sim_rnd(4); n > 0; n--) {
		submit(sim_rnd(3) == 2 ? 2 : sim_rnd(3) == 2, 0);
		if (sim_rnd(3) == 0) usleep(sim_rnd(4000));
	}
	kasync_worker_release(wk);
	__sync_sub_and_fetch(&pending, 1);
	return NULL;
}
SCENARIO(worker)
{
	int maxw = 1 + sim_rnd(3), maxq = sim_rnd(3) ? sim_rnd(4) : 0;
	maxjob = 2 + sim_rnd(9);
	sim_cfgjson("{\"maxw\":%d,\"maxq\":%d}", maxw, maxq);
	kasync_init();
	sim_mem_mark();
	wk = kasync_worker_init(maxw, maxq);
	if (sim_rnd(4) == 0) { kasync_worker_set(wk, maxw, maxq); }
	int nc = 1 + sim_rnd(3);
	pthread_t t[4];
	for (int i = 0; i < nc; i++) { ATOMIC_INC(pending); kasync_worker_refs(wk); }
	for (int i = 0; i < nc; i++) { pthread_create(&t[i], NULL, client, NULL); pthread_detach(t[i]); }
	holdjobs = sim_rnd(2);
	if (sim_rnd(3) == 0) sim_fail_creates(1 + sim_rnd(4));
	int64_t f0 = sim_create_failures;
	go = 1;
	for (int k = sim_rnd(3); k > 0; k--) {
		if (sim_rnd(2)) usleep(sim_rnd(3000));
		sim_quiesce(0);
		sim_ev("quiet", 0, 0, kasync_worker_empty(wk), sim_create_failures == f0);
		if (sim_rnd(2)) holdjobs = 0;
	}
	holdjobs = 0;
	if (sim_rnd(3) == 0) for (int k = 1 + sim_rnd(3); k > 0; k--) { usleep(sim_rnd(3000)); sim_fail_creates(sim_rnd(3)); }
	kasync_worker_release(wk);
	sim_wait(pred_pending, 0, 20000);
	sim_fail_creates(0);
	sim_quiesce(0);
	kthread_close_all_free();
	sim_quiesce(0);
	sim_ev("End", 0, 0, sim_live_since_mark(), sim_is_valid(wk, 1));
	if (sim_iparam("dump", 0)) sim_dump_live();
}
// ------------------------------------------------------------------ C12
static int nsel, base_threads, ncall, maxcall, gate;
static long arg_of(int id) { return id * 1234567l + 11; }
static int id_of(long a) { return (int)((a - 11) / 1234567); }
static int pred_gate(void *) { return gate; }
static char hold[512]; static bool calm;
static int now_ms() { return (int)(sim_now_us() / 1000); }
static void gone(int tid) { sim_ev("exit", 0, tid, now_ms(), 0); }
static void close_all() { sim_ev("close", 1, 0, 0, calm); kthread_close_all_free(); sim_ev("close", 0, 0, 0, calm); }
static void flush(int min) { if (calm) sim_ev("flush", 0, min, now_ms(), 0); kthread_flush(min); }
static KTHREAD_FUNCTION pool_job(void *arg)
{
	int id = id_of((long)arg);
	sim_ev("run", id, sim_tid(), 0, (long)arg == arg_of(id));
	if (hold[id & 511]) sim_wait(pred_gate, 0, -1);
	else if (sim_rnd(3) == 0) usleep(sim_rnd(5000));
	sim_ev("fin", id, sim_tid(), now_ms(), 0);
	__sync_sub_and_fetch(&pending, 1);
	KTHREAD_RETURN;
}
static kev_result start_job(void *arg, int) { pool_job(arg); return kev_ok; }
static void launch()
{
	int id = ATOMIC_INC(ncall);
	if (id > maxcall) return;
	hold[id & 511] = sim_rnd(5) == 0;
	ATOMIC_INC(pending);
	int64_t f0 = sim_create_failures;
	int form = sim_rnd(3);
	sim_ev("start", id, sim_tid(), form == 2, calm);
	bool ok = form == 0 ? kthread_pool_start(pool_job, (void *)arg_of(id)) : form == 1 ? kasync_worker_thread_start((void *)arg_of(id), start_job)
		: kthread_start(pool_job, (void *)arg_of(id));
	sim_ev("started", id, 0, !ok, sim_create_failures != f0);
	if (!ok) __sync_sub_and_fetch(&pending, 1);
}
static void *launcher(void *)
{
	for (int n = 1 + sim_rnd(5); n > 0; n--) {
		launch();
		int r = sim_rnd(8);
		if (r == 0) usleep(sim_rnd(5000));
		else if (r == 1) flush(sim_rnd(3));
		else if (r == 2) sleep(1 + sim_rnd(100));
		else if (r == 3) close_all();
	}
	__sync_sub_and_fetch(&pending, 1);
	return NULL;
}
static int called(void *arg, int len)
{
	int id = id_of((long)arg);
	sim_ev("run", id, sim_tid(), 0, (long)arg == arg_of(id) && len == id * 3);
	if (sim_rnd(3) == 0) usleep(sim_rnd(5000));
	int v = sim_rnd(1 << 20) - (1 << 19);
	sim_ev("cval", id, 0, 0, v);
	sim_ev("fin", id, sim_tid(), now_ms(), 0);
	return v;
}
static int caller(void *, int n)
{
	for (; n > 0; n--) {
		int id = ATOMIC_INC(ncall);
		if (id > maxcall) break;
		int v = -77, sid = kgl_get_tls_selector()->sid;
		int64_t f0 = sim_create_failures;
		bool noret = sim_rnd(5) == 0;
		sim_ev("call", id, sid, 0, sim_tid());
		int rc = kfiber_thread_call(called, (void *)arg_of(id), id * 3, noret ? NULL : &v);
		sim_ev("ret", id, kgl_get_tls_selector()->sid, rc == 0 ? (noret ? 2 : 0) : 1, rc == 0 ? v : sim_create_failures != f0);
		if (sim_rnd(3) == 0) kfiber_msleep(sim_rnd(5));
	}
	__sync_sub_and_fetch(&pending, 1);
	return 0;
}
static void count(void)
{
	int w = -1, f = -1;
	sim_quiesce(0);
	kthread_get_count(&w, &f);
	if (sim_iparam("dump", 0)) sim_dump_threads();
	sim_ev("count", now_ms(), sim_live_threads() - base_threads, w - nsel, f);
}
static int pred_idle(void *) { return 0; }
SCENARIO(pool)
{
	sim_max_vtime = 5000000000ll;
	nsel = 1 << sim_rnd(2); maxcall = 2 + sim_rnd(14);
	bool timer = sim_rnd(2);
	sim_cfgjson("{\"nsel\":%d,\"timer\":%d}", nsel, timer);
	boot(nsel, timer, false);	// it counts threads
	sim_thread_exit_hook = gone;
	sim_quiesce(0);
	base_threads = sim_live_threads();
	long mem = sim_live_total();
	int rounds = 1 + sim_rnd(3);
	for (int r = 0; r < rounds; r++) {
		gate = 0; maxcall += r ? 1 + sim_rnd(6) : 0;
		for (int i = sim_rnd(3); i > 0; i--) { ATOMIC_INC(pending); pthread_t t; pthread_create(&t, NULL, launcher, NULL); pthread_detach(t); }
		for (int i = sim_rnd(3); i > 0; i--) { ATOMIC_INC(pending); kfiber_create2(get_selector_by_index(sim_rnd(nsel)), caller, NULL, 1 + sim_rnd(4), 0, NULL); }
		if (sim_rnd(4) == 0) { usleep(sim_rnd(3000)); sim_fail_creates(1 + sim_rnd(2)); }
		for (int k = sim_rnd(3); k > 0; k--) { sleep(sim_rnd(150)); if (sim_rnd(2)) flush(sim_rnd(3)); }
		sim_wait(pred_idle, 0, 2000); // everything but the held jobs has finished, launchers may still sleep
		gate = 1;
		sim_wait(pred_pending, 0, 2000000);
		sim_fail_creates(0);
		count();
		calm = true;
		if (sim_rnd(2)) { sleep(sim_rnd(150)); flush(sim_rnd(3)); count(); }
		if (sim_rnd(2)) { // hold some, look at the counts
			gate = 0;
			int n = 1 + sim_rnd(4);
			maxcall += n;
			for (int i = 0; i < n; i++) { launch(); }
			count();
			if (sim_rnd(2)) { sleep(sim_rnd(150)); flush(sim_rnd(3)); count(); }
			gate = 1;
			sim_wait(pred_pending, 0, 20000);
			count();
		}
		if (sim_rnd(3) == 0) { close_all(); count(); }
		calm = false;
	}
	if (timer && sim_rnd(2)) { sleep(130); count(); }
	calm = true; close_all(); count();
	sim_ev("End", 0, 0, sim_live_total() - mem, 0);
	if (sim_iparam("dump", 0)) sim_dump_live();
}
