// C04: fiber mutex.  Fibers on several selectors run random programs of lock / bounded try-lock /
// callback lock / unlock / limit changes.
#include "common.h"
static kfiber_mutex *M;
static int nf, nops, nsel, use_limit, use_cb;
static int done_cnt;
static int pred_done(void *) { return done_cnt >= nf; }
static int body(void *arg, int id)
{
	for (int k = 0; k < nops; k++) {
		int r = sim_rnd(10);
		bool held = false;
		if (r < 6 || r == 9) {
			sim_ev("inv", id, 1, 0, 0); kfiber_mutex_lock(M); sim_ev("ret", id, 1, 0, 0); held = true;
		} else if (r < 9) {
			int mx = 1 + sim_rnd(nf);
			sim_ev("inv", id, 2, mx, 0); int rc = kfiber_mutex_try_lock(M, mx); sim_ev("ret", id, 2, mx, rc == 0 ? 1 : 0); held = rc == 0;
		}
		if (use_limit && sim_rnd(5) == 0) {
			int l = 1 + sim_rnd(3);
			sim_ev("inv", id, 4, l, 0); kfiber_mutex_set_limit(M, l); sim_ev("ret", id, 4, l, 0);
		}
		if (held) {
			for (int j = sim_rnd(3); j > 0; j--) { if (sim_rnd(3) == 0) kfiber_msleep(sim_rnd(3)); else sim_point(); }
			sim_ev("inv", id, 3, 0, 0); kfiber_mutex_unlock(M); sim_ev("ret", id, 3, 0, 0);
		}
		if (sim_rnd(4) == 0) kfiber_msleep(sim_rnd(4));
	}
	ATOMIC_INC(done_cnt);
	return 0;
}
// callback clients: they live in the main context of their selector
static int fsel[32], nc, cops[32];
static void cb_step(int id);
static kev_result cb_begin(KOPAQUE, void *arg, int) { cb_step((int)(long)arg); return kev_ok; }
static kev_result cb_unlock(KOPAQUE, void *arg, int)
{
	int id = (int)(long)arg;
	sim_ev("inv", id, 3, 0, 0); kfiber_mutex_unlock(M); sim_ev("ret", id, 3, 0, 0);
	if (--cops[id] > 0) cb_step(id); else ATOMIC_INC(done_cnt);
	return kev_ok;
}
static kev_result cb_locked(KOPAQUE, void *arg, int)
{
	int id = (int)(long)arg;
	sim_ev("ret", id, 5, 0, 0);
	if (sim_rnd(2)) return cb_unlock(NULL, arg, 0);
	kselector_add_timer(get_selector_by_index(fsel[id]), cb_unlock, arg, sim_rnd(3), NULL);
	return kev_ok;
}
static void cb_step(int id)
{
	sim_ev("inv", id, 5, 0, 0);
	kfiber_mutex_lock2(M, NULL, cb_locked, (void *)(long)id);
}
SCENARIO(mutex)
{
	nsel = 1 << sim_rnd(3); nf = 2 + sim_rnd(4); nops = 2 + sim_rnd(4); use_limit = sim_rnd(3) == 0;
	int lim = sim_rnd(3) ? 1 : 1 + sim_rnd(2);
	nc = sim_rnd(3) ? 0 : 1 + sim_rnd(2); nf += nc;
	char sl[128], *e = sl;
	for (int i = 1; i <= nf; i++) e += sprintf(e, "%s%d", i > 1 ? "," : "", fsel[i] = sim_rnd(nsel));
	sim_cfgjson("{\"lim\":%d,\"nf\":%d,\"sel\":[%s]}", lim, nf, sl);
	boot(nsel);
	M = kfiber_mutex_init2(lim);
	for (int i = 1; i <= nf - nc; i++) kfiber_create2(get_selector_by_index(fsel[i]), body, NULL, i, 0, NULL);
	for (int i = nf - nc + 1; i <= nf; i++) { cops[i] = nops; kgl_selector_module.next(get_selector_by_index(fsel[i]), NULL, cb_begin, (void *)(long)i, 0); }
	sim_wait(pred_done, 0, 3000);
	sim_quiesce(0);
	sim_ev("End", 0, kfiber_mutex_get_worker(M), kfiber_mutex_get_count(M), done_cnt >= nf);
}
