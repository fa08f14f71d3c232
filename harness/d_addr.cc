// C13: host lookups.
#include "common.h"
#include <netdb.h>
static int nsel, nextl, nextq, nexta, pending, slow, maxl, failpm, inflight, allfail, nhost;
static int64_t t0;
static long now() { return (long)((sim_now_us() - t0) / 1000); }
static int cur_sid() { kselector *s = kgl_get_tls_selector(); return s ? s->sid : -2; }
static const char *names[] = {"alpha.test", "beta.test", "gamma.test", "delta.test", "epsilon.test"};
struct AI { addrinfo ai; sockaddr_in sa; sockaddr_in6 sa6; int id, live; };
static AI *table[4096];
static int resolver(const char *node, const addrinfo *hints, addrinfo **res)
{
	int k = -1;
	for (int i = 0; i < 5; i++) if (!strcasecmp(node, names[i])) k = i;
	int key = k * 2 + ((hints->ai_flags & AI_CANONNAME) && hints->ai_family == PF_INET ? 1 : 0), qid = ATOMIC_INC(nextq);
	ATOMIC_INC(inflight);
	sim_ev("qb", qid, key, now(), 0);
	int r = sim_rnd(6);
	if (r == 1) usleep(1000 * sim_rnd(2000));
	else if (r >= 2) usleep(1000 * (sim_rnd(20) ? sim_rnd(100) : slow ? sim_rnd(100000) : sim_rnd(20000)));
	bool fail = sim_rnd(1000) < (allfail ? 950 : failpm);
	int id = 0;
	if (!fail) {
		id = ATOMIC_INC(nexta);
		AI *a = (AI *)calloc(1, sizeof(AI));
		a->id = id; a->live = 1;
		a->ai.ai_family = AF_INET; a->ai.ai_addr = (sockaddr *)&a->sa; a->ai.ai_addrlen = sizeof(a->sa);
		a->sa.sin_family = AF_INET; a->sa.sin_addr.s_addr = htonl(0x0a000000 + id);
		table[id] = a;
		*res = &a->ai;
	}
	sim_atomic_begin();
	sim_ev("qe", qid, id, now(), 0);
	__sync_sub_and_fetch(&inflight, 1);
	sim_atomic_end();
	return fail ? EAI_NONAME : 0;
}
extern "C" void __real_freeaddrinfo(struct addrinfo *);
static void addrfree(addrinfo *r)
{
	for (int i = 1; i <= nexta; i++)
		if (table[i] && &table[i]->ai == r) { sim_ev("free", i, 0, 0, 0); if (table[i]->live) { table[i]->live = 0; free(table[i]); } return; }
	__real_freeaddrinfo(r);
}
static int id_of(kgl_addr *a)
{
	if (!a) return 0;
	sockaddr_i s; memset(&s, 0, sizeof s);
	if (!a->addr || !kgl_addr_build(a->addr, 4242, &s) || ntohs(s.v4.sin_port) != 4242) return -1;
	return (int)(ntohl(s.v4.sin_addr.s_addr) - 0x0a000000);
}
static int open_lookups; static int64_t calm_f; // a thread failure counts for every lookup open at the same time
static int64_t open_lookup() { if (open_lookups++ == 0) calm_f = sim_create_failures; return calm_f; }
struct L { int id; kgl_addr *addr; kselector *s; int64_t f0; bool cb; int caller; };
static void hold(L *l) // uses the answer for a while, then lets go
{
	int id = id_of(l->addr);
	if (sim_rnd(2) && !kfiber_is_main()) kfiber_msleep(sim_rnd(2) ? sim_rnd(50) : sim_rnd(40000));
	if (id_of(l->addr) != id) sim_ev("bad", l->id, id, 0, 0);
	sim_ev("rel", l->id, 0, 0, 0);
	kgl_addr_release(l->addr);
}
static int holder(void *arg, int) { L *l = (L *)arg; hold(l); delete l; __sync_sub_and_fetch(&pending, 1); return 0; }
static kev_result answered(void *arg, kgl_addr *addr)
{
	L *l = (L *)arg;
	int c = cur_sid();
	sim_atomic_begin();
	sim_ev("ans", l->id, c, id_of(addr), sim_create_failures != l->f0); open_lookups--;
	sim_atomic_end();
	if (addr) {
		if (sim_rnd(2)) { kgl_addr_refs(addr); l->addr = addr; if (kfiber_create2(l->s, holder, l, 0, 0, NULL) == 0) return kev_ok; kgl_addr_release(addr); }
		sim_ev("rel", l->id, 0, 0, 0);
	}
	delete l;
	__sync_sub_and_fetch(&pending, 1);
	return kev_ok;
}
static int pick_key() { return sim_rnd(nhost) * 2 + (sim_rnd(4) == 0); }
static void name_of(int key, char *buf) { strcpy(buf, names[key / 2]); if (sim_rnd(3) == 0) buf[0] = buf[0] - 32; }
static void lookup_cb(kselector *s, int key)
{
	if (nextl >= maxl) return;
	L *l = new L; l->id = ATOMIC_INC(nextl); l->addr = NULL; l->s = s; sim_atomic_begin(); l->f0 = open_lookup(); sim_atomic_end();
	char h[64]; name_of(key, h);
	ATOMIC_INC(pending);
	sim_atomic_begin();
	sim_ev("inv", l->id, key, s->sid, now());
	sim_atomic_end();
	kgl_find_addr(h, key & 1 ? kgl_addr_cname : kgl_addr_ip, answered, l, s);
}
static void peek(int key)
{
	if (nextl >= maxl) return;
	int id = ATOMIC_INC(nextl);
	char h[64]; name_of(key, h);
	sim_atomic_begin();
	sim_ev("inv", id, key, -2, now());
	sim_atomic_end();
	kgl_addr *a = kgl_find_cache_addr(h, key & 1 ? kgl_addr_cname : kgl_addr_ip);
	sim_ev("peek", id, 0, id_of(a), 0);
	if (a) { sim_ev("rel", id, 0, 0, 0); kgl_addr_release(a); }
}
static void nap() { if (sim_rnd(3)) kfiber_msleep(sim_rnd(4) ? sim_rnd(3) * sim_rnd(100) : 29000 + sim_rnd(4000)); }
static int numeric_ok()
{
	kgl_addr *a = NULL; char b[64]; int v = 1 + sim_rnd(250);
	sprintf(b, "192.0.2.%d", v);
	if (kfiber_net_getaddr(b, &a) != 0 || !a) return 0;
	int ok = a->addr && a->addr->ai_family == AF_INET && ((sockaddr_in *)a->addr->ai_addr)->sin_addr.s_addr == htonl(0xc0000200 + v);
	kgl_addr_release(a);
	return ok;
}
static int client(void *, int n)
{
	for (; n > 0; n--) {
		int r = sim_rnd(8), key = pick_key();
		if (r < 4) {
			if (nextl >= maxl) break;
			key &= ~1;
			L l; l.id = ATOMIC_INC(nextl); l.addr = NULL; sim_atomic_begin(); l.f0 = open_lookup(); sim_atomic_end();
			char h[64]; name_of(key, h);
			sim_atomic_begin();
			sim_ev("inv", l.id, key, cur_sid(), now());
			sim_atomic_end();
			int rc = kfiber_net_getaddr(h, &l.addr);
			int c = cur_sid(), id = rc == 0 && !l.addr ? -1 : id_of(l.addr);
			sim_atomic_begin();
			sim_ev("ans", l.id, c, id, sim_create_failures != l.f0); open_lookups--;
			sim_atomic_end();
			if (l.addr) hold(&l);
		} else if (r < 6) lookup_cb(kgl_get_tls_selector(), key);
		else if (r == 6) peek(key);
		else if (!numeric_ok()) sim_ev("bad", 0, 0, 0, 0);
		nap();
	}
	__sync_sub_and_fetch(&pending, 1);
	return 0;
}
static void *outsider(void *)
{
	for (int n = 1 + sim_rnd(5); n > 0; n--) {
		int r = sim_rnd(6);
		if (r < 2) lookup_cb(get_selector_by_index(sim_rnd(nsel)), pick_key());
		else if (r == 2) peek(pick_key());
		else if (r == 3) { sim_quiesce(0); if (slow || inflight == 0) { sim_ev("flush", 0, 0, 0, 0); kgl_flush_addr_cache(time(NULL) + 1000000); } }
		else if (r == 4) kgl_flush_addr_cache(time(NULL));
		else sim_fail_creates(sim_rnd(3) == 0);
		usleep(1000 * (sim_rnd(3) ? sim_rnd(300) : sim_rnd(35000)));
	}
	sim_fail_creates(0);
	__sync_sub_and_fetch(&pending, 1);
	return NULL;
}
static int pred_pending(void *) { return pending == 0; }
SCENARIO(addr)
{
	slow = sim_iparam("slow", 0); nsel = 1 << sim_rnd(3); maxl = 3 + sim_rnd(40); failpm = sim_rnd(3) * 150; nhost = 1 + sim_rnd(4); 
	if (!slow) nhost = 1 + sim_rnd(2);
	bool errmode = sim_rnd(5) == 0;
	if (errmode) { nhost = 1; }
	sim_max_vtime = 20000000000ll;
	sim_cfgjson("{\"nsel\":%d,\"slow\":%d}", nsel, slow);
	sim_getaddrinfo = resolver; sim_freeaddrinfo = addrfree;
	t0 = sim_now_us();
	boot(nsel);
	for (int i = 1 + sim_rnd(4); i > 0; i--) { ATOMIC_INC(pending); kfiber_create2(get_selector_by_index(sim_rnd(nsel)), client, NULL, 1 + sim_rnd(6), 0, NULL); }
	for (int i = sim_rnd(3); i > 0; i--) { ATOMIC_INC(pending); pthread_t t; pthread_create(&t, NULL, outsider, NULL); pthread_detach(t); }
	sim_wait(pred_pending, 0, 1000000);
	if (errmode) { // a resolver that keeps failing
		maxl = 1000; allfail = 1;
		for (int i = 6 + sim_rnd(12); i > 0; i--) {
			if (sim_rnd(8) == 0) allfail = !allfail;
			lookup_cb(get_selector_by_index(sim_rnd(nsel)), 0);
			sim_wait(pred_pending, 0, 200000);
			sim_quiesce(31000 + sim_rnd(3000));
		}
	}
	sim_wait(pred_pending, 0, 1000000);
	sim_quiesce(200000);
	kgl_flush_addr_cache(time(NULL) + 1000000);
	sim_ev("End", 0, 0, 0, kgl_get_addr_cache_count());
}
