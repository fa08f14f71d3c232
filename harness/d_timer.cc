// C10: timers.
#include "common.h"
#include <vector>
static int nsel, nextt, maxt, pending, step, standalone;
static int64_t base_clk, base_now;
static long clk() { return (long)(kgl_current_msec - base_clk); }
static long mono() { return (long)((sim_now_us() - base_now) / 1000); }
static int cur_sid() { kselector *s = kgl_get_tls_selector(); return s ? (s->sid < 0 ? 0 : s->sid) : -2; }
#define DATA(id) ((KOPAQUE)((long)(id) * 77 + 5))
static void ev(const char *e, int f, int o, int a, long b) { sim_raw("{\"e\":\"%s\",\"f\":%d,\"o\":%d,\"a\":%d,\"b\":%ld,\"c\":%ld,\"m\":%ld}", e, f, o, a, b, clk(), mono()); }
static kselector *pick_sel() { return standalone ? kgl_get_tls_selector() : get_selector_by_index(sim_rnd(nsel)); }
static int dues[8];
static int delay()
{
	switch (sim_rnd(6)) {
	case 0: return 0;
	case 1: return sim_rnd(30);
	case 2: case 3: return dues[sim_rnd(8)];
	case 4: return sim_rnd(300);
	default: return sim_rnd(2000);
	}
}
static int fars;
#define FAR 1000000000
// some timers lie weeks ahead: they must neither fire now nor disturb the others
static int far_delay() { return sim_rnd(2) ? 0x7fffffff - sim_rnd(3) : 0x7fffffff - sim_rnd(2000000000 / 2); }
static bool far_one() { return fars && sim_rnd(3) == 0; }
static long shown(int ms) { return ms > FAR ? FAR : ms; }
static void back(int64_t us) { sim_atomic_begin(); ev("step", 0, 0, 0, us / 1000); sim_step_clock_us(-us); sim_atomic_end(); }
static void set_some(int n);
// a callback that keeps its loop busy for a while
static int busy_left;
static void busy(int one_in)
{
	if (!busy_left || sim_rnd(one_in)) return;
	int ms = 5 + sim_rnd(40);
	if (__sync_sub_and_fetch(&busy_left, ms) < 0) { busy_left = 0; return; }
	usleep(1000 * ms);
}
static kev_result fired(KOPAQUE data, void *arg, int got)
{
	int id = (int)(long)arg;
	sim_atomic_begin();
	ev("fire", id, cur_sid(), 0, data == DATA(id) && got == 0);
	sim_atomic_end();
	if (sim_rnd(3) == 0) set_some(1 + sim_rnd(3));
	busy(4);
	__sync_sub_and_fetch(&pending, 1);
	return kev_ok;
}
static int new_t() { int id = ATOMIC_INC(nextt); if (id > maxt) return 0; ATOMIC_INC(pending); return id; }
static void set_local(int ms)
{
	int id = new_t(); if (!id) return;
	kselector *s = kgl_get_tls_selector();
	if (far_one()) { ms = far_delay(); __sync_sub_and_fetch(&pending, 1); }
	sim_atomic_begin(); ev("set", id, cur_sid(), 1, shown(ms)); sim_atomic_end();
	if (sim_rnd(4) == 0 && !standalone) kselector_add_timer_ts(s, fired, (void *)(long)id, ms, DATA(id));
	else kselector_add_timer(s, fired, (void *)(long)id, ms, DATA(id));
	sim_atomic_begin(); ev("done", id, 0, 0, shown(ms)); sim_atomic_end();
}
static void set_ts(kselector *s, int ms) // s NULL: any
{
	int id = new_t(); if (!id) return;
	if (far_one()) { ms = far_delay(); __sync_sub_and_fetch(&pending, 1); }
	sim_atomic_begin(); ev("set", id, s ? s->sid : -1, 0, shown(ms)); sim_atomic_end();
	if (s) kselector_add_timer_ts(s, fired, (void *)(long)id, ms, DATA(id));
	else selector_manager_add_timer(fired, (void *)(long)id, ms, DATA(id));
}
static void set_some(int n)
{
	for (; n > 0; n--) {
		int r = standalone ? 0 : sim_rnd(5);
		if (r < 3) set_local(delay());
		else if (r == 3) { kselector *s = pick_sel(); if (s == kgl_get_tls_selector()) set_local(delay()); else set_ts(s, delay()); }
		else set_ts(NULL, delay());
	}
}
static int sleeper(void *, int n)
{
	for (; n > 0; n--) {
		int ms = delay(), id = new_t();
		if (!id) break;
		sim_atomic_begin(); ev("set", id, cur_sid(), 1, ms); if (cur_sid() == 0) ev("done", id, 0, 0, ms); sim_atomic_end();
		kfiber_msleep(ms);
		sim_atomic_begin(); ev("fire", id, cur_sid(), 0, 1); sim_atomic_end();
		__sync_sub_and_fetch(&pending, 1);
		if (sim_rnd(3) == 0) set_some(1 + sim_rnd(6));
	}
	__sync_sub_and_fetch(&pending, 1);
	return 0;
}
static int on_tick(void *, int) { sim_atomic_begin(); if (pending > 0) ev("tick", 0, cur_sid(), 0, 0); sim_atomic_end(); return 0; }
static kev_result main_ctx(KOPAQUE, void *, int n)
{
	set_some(n);
	bool on = !standalone && sim_rnd(3) == 0;
	busy(4);
	if (on) { ATOMIC_INC(pending); kgl_selector_module.next(kgl_get_tls_selector(), NULL, main_ctx, NULL, 1 + sim_rnd(3)); }
	__sync_sub_and_fetch(&pending, 1);
	return kev_ok;
}
// one timer becomes overdue (another loop moves the clock on), then maybe one is set weeks ahead
static kev_result lagging(KOPAQUE, void *, int n)
{
	set_local(1 + sim_rnd(8));
	if (busy_left > 0) { int ms = 20 + sim_rnd(120); if (__sync_sub_and_fetch(&busy_left, ms) >= 0) usleep(1000 * ms); }
	set_some(1 + sim_rnd(n + 1));
	__sync_sub_and_fetch(&pending, 1);
	return kev_ok;
}
static kev_result reg_tick(KOPAQUE, void *, int) { kselector_register_tick(kselector_new_tick(on_tick, NULL)); __sync_sub_and_fetch(&pending, 1); return kev_ok; }
static void *outsider(void *)
{
	for (int k = 1 + sim_rnd(5); k > 0; k--) {
		int r = sim_rnd(4);
		if (r == 0) set_ts(pick_sel(), delay());
		else if (r == 1) set_ts(NULL, delay());
		else { ATOMIC_INC(pending); kgl_selector_module.next(pick_sel(), NULL, r == 2 && fars ? lagging : main_ctx, NULL, 1 + sim_rnd(sim_rnd(3) ? 4 : 20)); }
		if (sim_rnd(2)) usleep(1000 * sim_rnd(200));
		if (step && sim_rnd(2)) back(sim_rnd(2) ? sim_rnd(5000000) : sim_rnd(1500000));
	}
	__sync_sub_and_fetch(&pending, 1);
	return NULL;
}
static void begin()
{
	maxt = sim_rnd(4) ? 1 + sim_rnd(30) : 60 + sim_rnd(60); step = sim_iparam("step", 0); fars = sim_rnd(3) == 0; busy_left = sim_rnd(3) ? 240 : 0;
	if (fars && sim_rnd(2)) { maxt = 2 + sim_rnd(5); busy_left = 240; }
	sim_cfgjson("{\"nsel\":%d,\"step\":%d}", nsel, step);
	for (int i = 0; i < 8; i++) dues[i] = 1 + sim_rnd(400);
	kasync_init();
	base_clk = kgl_current_msec; base_now = sim_now_us();
}
static int pred_pending(void *) { return pending == 0; }
SCENARIO(timers)
{
	nsel = 1 << sim_rnd(3);
	begin();
	if (sim_rnd(3) == 0 && !step) for (int n = sim_rnd(3); n > 0; n--) set_ts(NULL, delay());
	boot(nsel, sim_rnd(4) == 0);
	for (int i = 0; i < nsel; i++) { ATOMIC_INC(pending); kgl_selector_module.next(get_selector_by_index(i), NULL, reg_tick, NULL, 0); }
	for (int i = 1 + sim_rnd(2); i > 0; i--) { ATOMIC_INC(pending); pthread_t t; pthread_create(&t, NULL, outsider, NULL); pthread_detach(t); }
	for (int i = sim_rnd(4); i > 0; i--) { ATOMIC_INC(pending); kfiber_create2(pick_sel(), sleeper, NULL, 1 + sim_rnd(4), 0, NULL); }
	sim_wait(pred_pending, 0, 30000);
	sim_quiesce(0);
	sim_ev("End", 0, 0, 0, 0);
}
static int main_body(void *, int)
{
	ATOMIC_INC(pending); reg_tick(NULL, NULL, 0);
	for (int i = sim_rnd(4); i > 0; i--) { ATOMIC_INC(pending); kfiber_create(sleeper, NULL, 1 + sim_rnd(4), 0, NULL); }
	set_some(1 + sim_rnd(20));
	ATOMIC_INC(pending); sleeper(NULL, 3);
	while (pending > 0) { kfiber_msleep(50); if (step && sim_rnd(4) == 0) back(sim_rnd(3000000)); }
	return 0;
}
SCENARIO(timermain)
{
	nsel = 1; standalone = 1;
	begin();
	kasync_main(main_body, NULL, 0);
	sim_ev("End", 0, 0, 0, 0);
}
// C30: ticks
struct TickP { int id, s, left; kselector_tick *h; };
static int ntick, tick_ms;
static int tick_busy() { if (sim_rnd(8)) return 0; int64_t a = sim_now_us(); usleep(1000 * (1 + sim_rnd(30))); return (int)((sim_now_us() - a) / 1000) + 1; }
static void spent(int b) { if (b) sim_raw("{\"e\":\"busy\",\"s\":%d,\"b\":%d}", cur_sid(), b); }
static void drop_tick(struct TickP *p)
{
	sim_raw("{\"e\":\"clo\",\"s\":%d,\"k\":%d,\"t\":%ld}", cur_sid(), p->id, mono());
	if (!kselector_close_tick(p->h)) abort();
	free(p);
	__sync_sub_and_fetch(&pending, 1);
}
static std::vector<struct TickP *> ticks_of[8];
static int tick_cb(void *arg, int n)
{
	struct TickP *p = (struct TickP *)arg;
	int r = sim_rnd(3) ? sim_rnd(tick_ms) : sim_rnd(2) ? 0 : sim_rnd(2) ? -1 : 100 + sim_rnd(500);
	if (p->s != cur_sid()) abort();
	sim_raw("{\"e\":\"tk\",\"s\":%d,\"k\":%d,\"r\":%d,\"t\":%ld}", p->s, p->id, r, mono());
	spent(tick_busy());
	if (--p->left == 0) {
		std::vector<struct TickP *> &v = ticks_of[p->s];
		for (size_t i = 0; i < v.size(); i++) if (v[i] == p) { v.erase(v.begin() + i); break; }
		drop_tick(p);
	}
	return r;
}
static void add_tick()
{
	if (ntick > 14) return;
	struct TickP *p = (struct TickP *)calloc(1, sizeof *p);
	p->id = ATOMIC_INC(ntick) + 1; p->s = cur_sid(); p->left = 3 + sim_rnd(25); p->h = kselector_new_tick(tick_cb, p);
	ATOMIC_INC(pending);
	ticks_of[p->s].push_back(p);
	sim_raw("{\"e\":\"reg\",\"s\":%d,\"k\":%d,\"t\":%ld}", p->s, p->id, mono());
	if (!kselector_register_tick(p->h)) abort();
}
static kev_result tick_ctx(KOPAQUE, void *, int n)
{
	spent(tick_busy());
	if (!n) n = 1;
	for (; n > 0; n--) {
		std::vector<struct TickP *> &v = ticks_of[cur_sid()];
		if (v.empty() || sim_rnd(2)) add_tick();
		else { int i = sim_rnd(v.size()); struct TickP *p = v[i]; v.erase(v.begin() + i); drop_tick(p); }
	}
	__sync_sub_and_fetch(&pending, 1);
	return kev_ok;
}
// sockets of a loop: several events in one turn
static int tick_fd[6], ntfd;
struct TfdP { kconnection *cn; kgl_iovec v, bufs; char b[4]; };
static kev_result tfd_cb(KOPAQUE, void *arg, int got)
{
	struct TfdP *p = (struct TfdP *)arg;
	if (got > 0) { spent(tick_busy()); p->v.iov_base = p->b; p->v.iov_len = 1 + sim_rnd(3); p->bufs.iov_base = (char *)&p->v; p->bufs.iov_len = 1; return selectable_read(&p->cn->st, tfd_cb, &p->bufs, p); }
	kconnection_destroy(p->cn);
	free(p);
	__sync_sub_and_fetch(&pending, 1);
	return kev_destroy;
}
static kev_result tfd_start(KOPAQUE, void *arg, int fd)
{
	struct TfdP *p = (struct TfdP *)calloc(1, sizeof *p);
	p->cn = kconnection_new(NULL); p->cn->st.fd = fd; p->cn->st.data = (KOPAQUE)p;
	selectable_bind(&p->cn->st, kgl_get_tls_selector());
	return tfd_cb((KOPAQUE)p, p, 1);
}
SCENARIO(ticks)
{
	nsel = 1 << sim_rnd(2); tick_ms = sim_rnd(2) ? 20 : 150;
	sim_cfgjson("{\"nsel\":%d}", nsel);
	kasync_init();
	base_now = sim_now_us();
	boot(nsel, sim_rnd(4) == 0);
	sim_quiesce(200);
	long before = sim_live_total();
	ntfd = sim_rnd(2) ? 0 : 2 + sim_rnd(5);
	for (int i = 0; i < ntfd; i++) {
		int fd[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, fd)) abort();
		ATOMIC_INC(pending); tick_fd[i] = fd[0];
		kgl_selector_module.next(get_selector_by_index(i % nsel), NULL, tfd_start, NULL, fd[1]);
	}
	for (int i = 1 + sim_rnd(6); i > 0; i--) {
		if (ntfd) { sim_atomic_begin(); for (int j = 0; j < ntfd; j++) if (sim_rnd(3) && write(tick_fd[j], "abc", 1 + sim_rnd(3)) < 0) abort(); sim_atomic_end(); }
		int n = 1 + sim_rnd(3);
		ATOMIC_INC(pending);
		if (sim_rnd(2)) kgl_selector_module.next(pick_sel(), NULL, tick_ctx, NULL, n);
		else kselector_add_timer_ts(pick_sel(), tick_ctx, NULL, sim_rnd(300), NULL);
		if (sim_rnd(2)) usleep(1000 * sim_rnd(500));
	}
	if (ntfd) { sim_atomic_begin(); for (int j = 0; j < ntfd; j++) close(tick_fd[j]); sim_atomic_end(); }
	sim_wait(pred_pending, 0, 30000);
	sim_quiesce(300);
	sim_raw("{\"e\":\"End\",\"live\":%ld}", sim_live_total() - before);
}
