// C22: the selector manager.
#include "common.h"
static kselector *ident[80]; static int nident;
static int id_of(kselector *s) { for (int i = 0; i < nident; i++) if (ident[i] == s) return i; ident[nident] = s; return nident++; }
static int cur_i() { kselector *s = kgl_get_tls_selector(); return s == NULL ? -2 : s->sid; }
static int nextk, outstanding;
static kev_result tinit(KOPAQUE data, void *arg, int got)
{
	if (got == 0) { sim_atomic_begin(); sim_raw("{\"e\":\"tinit\",\"i\":%d}", data == NULL && arg == (void *)&nextk ? cur_i() : -9); sim_atomic_end(); }
	return kev_ok;
}
static kev_result ran(KOPAQUE data, void *arg, int got)
{
	sim_atomic_begin(); sim_raw("{\"e\":\"ran\",\"k\":%ld,\"i\":%d}", (long)arg, cur_i()); sim_atomic_end();
	__sync_sub_and_fetch(&outstanding, 1);
	return kev_ok;
}
static int index_of(kselector *s)
{
	for (int i = 0; i < get_selector_count(); i++) if (get_selector_by_index(i) == s) return i;
	return -7;
}
static void log_loops()
{
	for (int i = 0; i < get_selector_count(); i++) {
		kselector *s = get_selector_by_index(i);
		sim_raw("{\"e\":\"loop\",\"i\":%d,\"id\":%d,\"sid\":%d}", i, id_of(s), s->sid);
		sim_raw("{\"e\":\"limit\",\"i\":%d,\"c\":%d,\"rw\":%d}", i, (int)s->timeout[KGL_LIST_CONNECT], (int)s->timeout[KGL_LIST_RW]);
	}
}
static void log_pick(const char *e) { kselector *s = get_perfect_selector(); sim_raw("{\"e\":\"%s\",\"i\":%d}", e, index_of(s)); }
struct item { kselectable st; int on; };
static struct item items[64][200];
struct regop { int i, k, list, done; bool add; };
static int regdone(void *p) { return ((struct regop *)p)->done; }
static kev_result do_reg(KOPAQUE data, void *arg, int got)
{
	struct regop *o = (struct regop *)arg;
	kselector *s = kgl_get_tls_selector();
	int k = o->k;
	if (o->add) {
		for (int j = 0; j < 200 && k > 0; j++) {
			struct item *it = &items[o->i][j];
			if (it->on) { if (sim_rnd(40) == 0) kselector_add_list(s, &it->st, o->list); continue; } // registered already: moves
			it->st.base.selector = s; it->on = 1; k--;
			kselector_add_list(s, &it->st, o->list);
		}
	} else {
		for (int j = 0; j < 200; j++) {
			struct item *it = &items[o->i][j];
			if (!it->on) { if (sim_rnd(40) == 0 && it->st.base.selector) kselector_remove_list(s, &it->st); continue; } // not registered: nothing
			if (k-- <= 0) break;
			kselector_remove_list(s, &it->st); it->on = 0;
		}
	}
	o->done = 1;
	return kev_ok;
}
static int have[64];
static void reg(int i, int k, bool add)
{
	struct regop o = { i, k, sim_rnd(2) ? KGL_LIST_RW : KGL_LIST_CONNECT, 0, add };
	kgl_selector_module.next(get_selector_by_index(i), NULL, do_reg, &o, 0);
	sim_wait(regdone, &o, -1);
	sim_quiesce(0);
	have[i] += add ? k : -k;
	sim_raw("{\"e\":\"%s\",\"i\":%d,\"k\":%d,\"c\":%d}", add ? "reg" : "unreg", i, k, (int)get_selector_by_index(i)->count);
}
static int none(void *) { return outstanding == 0; }
static void post(int how)
{
	long k = ++nextk;
	ATOMIC_INC(outstanding);
	int i = sim_rnd(get_selector_count());
	if (how >= 2) sim_quiesce(0);	// a notice being taken counts as an item for a moment
	switch (how) {
	case 0: sim_raw("{\"e\":\"post\",\"k\":%ld,\"i\":%d}", k, i); kgl_selector_module.next(get_selector_by_index(i), NULL, ran, (void *)k, 0); break;
	case 1: sim_raw("{\"e\":\"post\",\"k\":%ld,\"i\":%d}", k, i); kselector_add_timer_ts(get_selector_by_index(i), ran, (void *)k, sim_rnd(300), NULL); break;
	case 2: sim_raw("{\"e\":\"postany\",\"k\":%ld}", k); selector_manager_on_ready(ran, (void *)k); break;
	default: sim_raw("{\"e\":\"postany\",\"k\":%ld}", k); selector_manager_add_timer(ran, (void *)k, sim_rnd(300), NULL); break;
	}
}
static int growreq;
static void grow(bool own)
{
	int m = sim_rnd(6) == 0 ? 9 + sim_rnd(120) : sim_rnd(9);
	if (growreq) m = growreq;
	bool ok = selector_manager_grow(m);
	sim_raw("{\"e\":\"grow\",\"req\":%d,\"own\":%d,\"ok\":%d,\"n\":%d}", m, own ? 1 : 0, ok ? 1 : 0, get_selector_count());
}
static int cbdone;
static int cbd(void *) { return cbdone; }
static kev_result grow_cb(KOPAQUE data, void *arg, int got) { sim_atomic_begin(); grow(true); sim_atomic_end(); cbdone = 1; return kev_ok; }
static int grow_fiber(void *, int) { sim_atomic_begin(); grow(true); sim_atomic_end(); cbdone = 1; return 0; }
static kev_result vp(KOPAQUE data, void *arg, int got)
{
	for (int k = 0; k < 3; k++) {
		kselector *s = get_perfect_selector();
		sim_atomic_begin(); sim_raw("{\"e\":\"vpick\",\"i\":%d}", index_of(s)); sim_atomic_end();
	}
	__sync_sub_and_fetch(&outstanding, 1);
	return kev_ok;
}
SCENARIO(selmgr)
{
	int req = sim_rnd(5) == 0 ? 17 + sim_rnd(100) : sim_rnd(3) == 0 ? 1 : sim_rnd(10) - 1;
	bool up = req < 16;
	sim_cfgjson("{\"req\":%d}", req);
	kasync_init();
	int early = sim_rnd(3), hooks = sim_rnd(2);
	if (hooks) selector_manager_thread_init(tinit, &nextk);
	for (int k = 0; up && k < early; k++) {
		ATOMIC_INC(outstanding); ++nextk;
		sim_raw("{\"e\":\"early\",\"k\":%d}", nextk);
		if (sim_rnd(2)) selector_manager_on_ready(ran, (void *)(long)nextk);
		else selector_manager_add_timer(ran, (void *)(long)nextk, sim_rnd(200), NULL);
	}
	selector_manager_init(req, sim_rnd(2));
	sim_raw("{\"e\":\"init\",\"req\":%d,\"n\":%d}", req, get_selector_count());
	log_loops();
	if (selector_manager_thread_init(tinit, NULL) == 0) sim_raw("{\"e\":\"lateinit\"}");
	if (sim_rnd(2)) {
		int c = sim_rnd(90) - 10, rw = sim_rnd(90) - 5;
		sim_raw("{\"e\":\"limits\",\"c\":%d,\"rw\":%d}", c, rw);
		selector_manager_set_timeout(c, rw);
		log_loops();
	}
	if (!up) {
		for (int k = 0; k < 70; k++) log_pick("pick");
		grow(false);
		sim_raw("{\"e\":\"End\",\"up\":0}");
		return;
	}
	if (sim_rnd(2)) for (int k = 0; k < 6; k++) log_pick("pick");
	selector_manager_start(NULL, true);
	sim_wait(none, NULL, 10000);
	sim_quiesce(0);
	sim_raw("{\"e\":\"vpick\",\"i\":0}");	// work registered early may have made choices meanwhile
	int ops = 3 + sim_rnd(10);
	for (int o = 0; o < ops; o++) {
		int n = get_selector_count();
		switch (sim_rnd(7)) {
		case 0: { int p = 1 + sim_rnd(2 * n + 2); sim_quiesce(0); while (p--) log_pick("pick"); break; }
		case 1: {
			int i = sim_rnd(n);
			static const int ks[] = { 1, 62, 63, 64, 65, 128 };
			int k = ks[sim_rnd(6)];
			if (have[i] + k <= 190) reg(i, k, true); else reg(i, have[i], false);
			for (int p = 1 + sim_rnd(2 * n); p--;) log_pick("pick");
			break; }
		case 2: { int i = sim_rnd(n); if (have[i]) reg(i, sim_rnd(2) ? have[i] : 1 + sim_rnd(have[i]), false); break; }
		case 3: for (int p = 1 + sim_rnd(3); p--;) post(sim_rnd(4)); if (sim_rnd(2)) { sim_wait(none, NULL, 10000); sim_quiesce(0); } break;
		case 4:
			sim_quiesce(0);
			for (int p = sim_rnd(3); p--;) post(1);	// timers and work pending across the growth
			cbdone = 0;
			switch (sim_rnd(3)) {
			case 0: sim_quiesce(0); grow(false); break;
			case 1: kgl_selector_module.next(get_selector_by_index(0), NULL, grow_cb, NULL, 0); sim_wait(cbd, NULL, -1); break;
			case 2: kfiber_create2(get_selector_by_index(0), grow_fiber, NULL, 0, 0, NULL); sim_wait(cbd, NULL, -1); break;
			}
			sim_quiesce(0);
			log_loops();
			break;
		case 5: {
			int m = 1 + sim_rnd(3);
			sim_quiesce(0);
			while (m--) { ATOMIC_INC(outstanding); kgl_selector_module.next(get_selector_by_index(sim_rnd(n)), NULL, vp, NULL, 0); }
			sim_wait(none, NULL, 10000); sim_quiesce(0);
			sim_raw("{\"e\":\"vpick\",\"i\":0}");
			break; }
		case 6: {
			int c = sim_rnd(90) - 10, rw = sim_rnd(90) - 5;
			sim_raw("{\"e\":\"limits\",\"c\":%d,\"rw\":%d}", c, rw);
			selector_manager_set_timeout(c, rw);
			log_loops();
			break; }
		}
	}
	for (int i = 0; i < get_selector_count(); i++) { post(0); if (have[i]) reg(i, have[i], false); }
	for (int i = 0; i < get_selector_count(); i++) { long k = ++nextk; ATOMIC_INC(outstanding); sim_raw("{\"e\":\"post\",\"k\":%ld,\"i\":%d}", k, i); kgl_selector_module.next(get_selector_by_index(i), NULL, ran, (void *)k, 0); }
	sim_wait(none, NULL, 10000);
	sim_quiesce(0);
	for (int i = 0; i < get_selector_count(); i++) reg(i, 0, true);
	log_loops();
	sim_raw("{\"e\":\"End\",\"up\":%d}", hooks);
}
