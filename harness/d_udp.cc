// C24: datagram sockets.
#include "common.h"
#include "net.h"
#include "kudp.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
#define NS 5
#define MAXD 3000
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._";
struct S { int id, lib, fd, any, port, left, cb, over, started; kconnection *cn; kselector *sel; sockaddr_i a; char b[MAXD + 64]; kgl_iovec v[6], buf; int nv, room; };
static struct S ss[NS]; static int n_s, v6, waiting, closing;
static int fits(void *) { return waiting == 0; }
static void ipname(const sockaddr_i *a, char *o, int n) { if (a->v4.sin_family == AF_INET6) inet_ntop(AF_INET6, &a->v6.sin6_addr, o, n); else inet_ntop(AF_INET, &a->v4.sin_addr, o, n); }
static const char *tstr(const char *p, long n, char *out) { for (long i = 0; i < n; i++) out[i] = p[i] && strchr(AL, p[i]) ? p[i] : '?'; out[n] = 0; return out; }
// the address to reach socket i under: sockets bound to any address have several
static void target(struct S *t, sockaddr_i *a)
{
	*a = t->a;
	if (t->any) { if (v6) a->v6.sin6_addr = in6addr_loopback; else a->v4.sin_addr.s_addr = htonl(0x7f000001 + sim_rnd(3) + (sim_rnd(3) << 8)); }
}
static int pick() { switch (sim_rnd(6)) { case 0: return 0; case 1: return 1; case 2: return 1 + sim_rnd(sim_rnd(4) ? 300 : MAXD); default: return 1 + sim_rnd(30); } }
static void do_send(struct S *s)
{
	struct S *t = &ss[sim_rnd(n_s)]; sockaddr_i a; char d[MAXD + 1], ip[64]; int n = pick();
	if (t->over) return;
	target(t, &a); ipname(&a, ip, sizeof ip);
	for (int i = 0; i < n; i++) d[i] = AL[sim_rnd(64)];
	d[n] = 0;
	sim_atomic_begin();
	int r;
	if (!s->lib) r = sendto(s->fd, d, n, 0, (struct sockaddr *)&a, v6 ? sizeof a.v6 : sizeof a.v4) == n;
	else if (sim_rnd(2)) r = kudp_send_to(s->cn, &a, d, n);
	else r = kudp_send(s->cn, (struct sockaddr *)&a, v6 ? sizeof a.v6 : sizeof a.v4, d, n) == n;
	sim_raw("{\"e\":\"send\",\"s\":%d,\"to\":%d,\"dst\":\"%s\",\"d\":\"%s\",\"ok\":%d}", s->id, t->id, ip, d, r);
	sim_atomic_end();
}
static void mk_buf(struct S *s)
{
	s->room = sim_rnd(3) ? MAXD : sim_rnd(4) ? 1 + sim_rnd(30) : 1 + sim_rnd(400);
	memset(s->b, '#', sizeof s->b);
	s->nv = 0; int off = 0, want = 1 + sim_rnd(5);
	while (s->nv < want) { int l = s->nv == want - 1 ? s->room - off : sim_rnd(s->room - off + 1); s->v[s->nv].iov_base = s->b + off; s->v[s->nv++].iov_len = l; off += l; }
	s->buf.iov_base = (char *)s->v; s->buf.iov_len = s->nv;
	if (s->left == 1000 && sim_rnd(2)) { sockaddr_i a; memset(&a, 0, sizeof a); a.v4.sin_family = v6 ? AF_INET6 : AF_INET; sim_raw("{\"e\":\"early\",\"s\":%d,\"r\":%d}", s->id, kudp_get_recvaddr(s->cn, (struct sockaddr *)&a) == 0); }
	sim_raw("{\"e\":\"recv\",\"s\":%d,\"n\":%d}", s->id, s->room);
}
static void log_got(struct S *s, int got)
{
	static char t[NS][MAXD + 64]; char ip[64] = "", sip[64]; int src = -1, own = got <= s->room;
	int n = got < 0 ? 0 : got > s->room ? s->room : got;
	for (int i = n; i < (int)sizeof s->b; i++) if (s->b[i] != '#') own = 0;
	sockaddr_i *p = &s->cn->addr;
	ipname(p, sip, sizeof sip);
	for (int i = 0; i < n_s; i++) if (ss[i].a.v4.sin_family == p->v4.sin_family && ss[i].port == (v6 ? ntohs(p->v6.sin6_port) : ntohs(p->v4.sin_port))) {
		char e[64]; ipname(&ss[i].a, e, sizeof e);
		if (ss[i].any ? v6 ? !strcmp(sip, "::1") : !strncmp(sip, "127.", 4) : !strcmp(e, sip)) src = i;
	}
	if (got >= 0 && sim_rnd(2)) {	// no address of the other family, and none where nobody asked for it
		sockaddr_i a; memset(&a, 0, sizeof a); a.v4.sin_family = v6 ? AF_INET : AF_INET6;
		if (kudp_get_recvaddr(s->cn, (struct sockaddr *)&a) == 0) own = 0;
		a.v4.sin_family = v6 ? AF_INET6 : AF_INET;
		if (!s->any && kudp_get_recvaddr(s->cn, (struct sockaddr *)&a) == 0) own = 0;
	}
	if (s->cn->udp && got >= 0) {
		sockaddr_i a; memset(&a, 0, sizeof a); a.v4.sin_family = v6 ? AF_INET6 : AF_INET;
		if (kudp_get_recvaddr(s->cn, (struct sockaddr *)&a) == 0) ipname(&a, ip, sizeof ip);
	}
	sim_raw("{\"e\":\"got\",\"s\":%d,\"r\":%d,\"d\":\"%s\",\"src\":%d,\"dst\":\"%s\",\"own\":%d}", s->id, got < 0 ? -1 : got, tstr(s->b, n, t[s->id]), src, ip, own);
}
static kev_result rcb(KOPAQUE data, void *arg, int got);
static void finish(struct S *s, bool fiber)
{
	s->over = 1;
	sim_raw("{\"e\":\"close\",\"s\":%d}", s->id);
	if (fiber) kfiber_net_close(s->cn); else kconnection_destroy(s->cn);
	__sync_sub_and_fetch(&waiting, 1);
}
static void rstep(struct S *s)
{
	if (s->left-- <= 0) { finish(s, false); return; }
	mk_buf(s);
	selectable_read(&s->cn->st, rcb, &s->buf, s);
}
static kev_result rcb(KOPAQUE data, void *arg, int got)
{
	struct S *s = (struct S *)arg;
	log_got(s, data == (KOPAQUE)s ? got : -1);
	if (got < 0 || closing) { finish(s, false); return kev_ok; }
	if (sim_rnd(5) == 0) do_send(s);
	rstep(s);
	return kev_ok;
}
static int rfiber(void *arg, int)
{
	struct S *s = (struct S *)arg;
	while (s->left-- > 0) {
		mk_buf(s);
		int got = s->nv == 1 && sim_rnd(2) ? kfiber_net_read(s->cn, s->b, s->room) : kfiber_net_readv(s->cn, s->v, s->nv);
		log_got(s, got);
		if (got < 0 || closing) break;
		if (sim_rnd(4) == 0) kfiber_msleep(1 + sim_rnd(20));
		if (sim_rnd(5) == 0) do_send(s);
	}
	finish(s, true);
	return 0;
}
static kev_result start_cb(KOPAQUE, void *arg, int)
{
	struct S *s = (struct S *)arg;
	if (s->cb) rstep(s); else kfiber_create(rfiber, s, 0, 0, NULL);
	return kev_ok;
}
static kev_result shut_cb(KOPAQUE, void *arg, int)
{
	struct S *s = (struct S *)arg;
	if (s->over) return kev_ok;
	sim_raw("{\"e\":\"shut\",\"s\":%d}", s->id);
	selectable_shutdown(&s->cn->st);
	return kev_ok;
}
static int have_v6() { int f = socket(AF_INET6, SOCK_DGRAM | SOCK_CLOEXEC, 0); if (f < 0) return 0; struct sockaddr_in6 a; memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; int r = !bind(f, (struct sockaddr *)&a, sizeof a); close(f); return r; }
SCENARIO(udp)
{
	int nsel = 1 + sim_rnd(2), nlib = 1 + sim_rnd(3), h6 = have_v6();
	v6 = h6 && sim_rnd(3) == 0; n_s = nlib + 1 + sim_rnd(2);
	boot(nsel);
	net_begin();
	sim_io_faults = sim_rnd(2); sim_net_grace_ms = 50;
	for (int i = 0; i < n_s; i++) {
		struct S *s = &ss[i]; sockaddr_i a; memset(&a, 0, sizeof a);
		s->id = i; s->lib = i < nlib; s->any = s->lib && sim_rnd(2);
		if (v6) { a.v6.sin6_family = AF_INET6; a.v6.sin6_addr = s->any ? in6addr_any : in6addr_loopback; }
		else { a.v4.sin_family = AF_INET; a.v4.sin_addr.s_addr = htonl(s->any ? 0 : 0x7f000001 + (sim_rnd(200) << 8)); }
		if (s->lib) {
			s->sel = get_selector_by_index(sim_rnd(nsel));
			if (sim_rnd(6) == 0) {	// no descriptor left
				sim_fail_fd = 1;
				kconnection *no = kudp_new2(sim_rnd(2) ? KSOCKET_ONLY_IPV6 | KSOCKET_IP_PKTINFO : 0, s->sel);
				sim_fail_fd = 0;
				sim_raw("{\"e\":\"nofd\",\"c\":%d}", no != NULL);
			}
			s->cn = kudp_new2((v6 ? KSOCKET_ONLY_IPV6 : 0) | (s->any ? KSOCKET_IP_PKTINFO : 0), s->sel);
			if (!s->cn || !kudp_bind(s->cn, &a)) abort();
			s->cn->st.data = (KOPAQUE)s; s->fd = s->cn->st.fd; s->cb = sim_rnd(2); s->left = sim_rnd(6) == 0 ? 1 + sim_rnd(4) : 1000;
		} else {
			s->fd = socket(v6 ? AF_INET6 : AF_INET, SOCK_DGRAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
			if (bind(s->fd, (struct sockaddr *)&a, v6 ? sizeof a.v6 : sizeof a.v4)) abort();
		}
		socklen_t l = sizeof a; getsockname(s->fd, (struct sockaddr *)&a, &l);
		s->a = a; s->port = v6 ? ntohs(a.v6.sin6_port) : ntohs(a.v4.sin_port);
	}
	sim_cfgjson("{\"v6\":%d,\"n\":%d,\"any\":[%d,%d,%d,%d,%d]}", v6, n_s, ss[0].any, ss[1].any, ss[2].any, ss[3].any, ss[4].any);
	waiting = nlib;
	int early = sim_rnd(3) ? 0 : sim_rnd(6);
	for (int k = 0; k < early; k++) do_send(&ss[nlib + sim_rnd(n_s - nlib)]);
	for (int i = 0; i < nlib; i++) kgl_selector_module.next(ss[i].sel, NULL, start_cb, &ss[i], 0);
	int rounds = 1 + sim_rnd(4);
	while (rounds--) {
		for (int k = sim_rnd(7); k > 0; k--) { do_send(&ss[nlib + sim_rnd(n_s - nlib)]); if (sim_rnd(2)) sim_wait(fits, NULL, sim_rnd(3)); }
		if (sim_rnd(2)) { sim_quiesce(100); sim_raw("{\"e\":\"settled\"}"); }
	}
	closing = 1;
	for (int i = 0; i < nlib; i++) kgl_selector_module.next(ss[i].sel, NULL, shut_cb, &ss[i], 0);
	sim_wait(fits, NULL, -1);
	for (int i = nlib; i < n_s; i++) close(ss[i].fd);
	net_end(nsel, n_s, true);
}
