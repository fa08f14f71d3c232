// C26: connecting.
#include "common.h"
#include "net.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <poll.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#define NA 6
// what is at the other end
enum { OPEN, REFUSED, STUCK, HOPEN, HREFUSED, UOPEN, UNONE, NOADDR };
static const char *kname[] = { "open", "refused", "stuck", "hopen", "hrefused", "uopen", "unone", "noaddr" };
struct At {
	int id, kind, cb, bind, rounds, abort_ms, release_ms, tries;
	kconnection *cn; kselector *sel; sockaddr_i to, from; int trying, hfd;
	char msg[16], back[16]; kgl_iovec wv, rv, wb, rb;
};
static struct At ats[NA]; static int nat, alive;
static int nobody(void *) { return alive == 0; }
static int lport[8], lfd[8], ufd = -1; static char upath[108];
static void ev(const char *e, struct At *a) { sim_raw("{\"e\":\"%s\",\"i\":%d,\"t\":%d}", e, a->id, now_ms()); }
static void v4(sockaddr_i *a, uint32_t ip, int port) { memset(a, 0, sizeof *a); a->v4.sin_family = AF_INET; a->v4.sin_addr.s_addr = htonl(ip); a->v4.sin_port = htons(port); }
static void setup_addr(struct At *a)
{
	a->cn = NULL;
	if (a->kind == UOPEN || a->kind == UNONE) {
		struct sockaddr_un un; char p[120];
		snprintf(p, sizeof p, "%s%s", upath, a->kind == UOPEN ? "" : "x");
		ksocket_unix_addr(p, &un);
		a->cn = kconnection_new((sockaddr_i *)&un);
	} else {
		v4(&a->to, 0x7f000001, lport[a->kind == NOADDR ? OPEN : a->kind]);
		a->cn = sim_rnd(2) ? kconnection_new(&a->to) : kconnection_new3((struct sockaddr *)&a->to, sizeof a->to.v4);
	}
	v4(&a->from, a->kind == NOADDR ? 0xcb007101 : 0x7f000001 + ((1 + sim_rnd(200)) << 8), 0);
	a->cn->st.data = (KOPAQUE)a;
	a->cn->st.base.tmo = a->rounds;
	a->trying = 1; a->hfd = -1;
}
// both ends of the connection are the ones that were asked for
static bool ends_ok(struct At *a)
{
	if (a->kind == UOPEN) return true;
	sockaddr_i p, l; socklen_t n = sizeof p;
	if (getpeername(a->cn->st.fd, (struct sockaddr *)&p, &n) || n != sizeof p.v4) return false;
	if (p.v4.sin_addr.s_addr != a->to.v4.sin_addr.s_addr || p.v4.sin_port != a->to.v4.sin_port) return false;
	if (a->cn->addr.v4.sin_addr.s_addr != p.v4.sin_addr.s_addr || a->cn->addr.v4.sin_port != p.v4.sin_port || a->cn->addr.v4.sin_family != AF_INET) return false;
	if (!a->bind) return true;
	n = sizeof l;
	if (getsockname(a->cn->st.fd, (struct sockaddr *)&l, &n)) return false;
	return l.v4.sin_addr.s_addr == a->from.v4.sin_addr.s_addr;
}
static void log_done(struct At *a, int got, bool own) { a->trying = 0; sim_raw("{\"e\":\"done\",\"i\":%d,\"ok\":%d,\"own\":%d,\"t\":%d}", a->id, got >= 0, own && (got < 0 || ends_ok(a)), now_ms()); }
static int xfers;
static void mkmsg(struct At *a) { if (__sync_add_and_fetch(&xfers, 1)) sim_net_grace_ms = 300; for (int i = 0; i < 16; i++) a->msg[i] = 'a' + sim_rnd(26); memset(a->back, 0, 16); }
static void log_try(struct At *a, bool may_fail = true)
{
	int fails = may_fail && sim_rnd(12) == 0 ? 1 + sim_rnd(2) : 0;	// no descriptor, no place in the epoll
	sim_raw("{\"e\":\"try\",\"i\":%d,\"kind\":\"%s\",\"r\":%d,\"t\":%d}", a->id, fails ? "none" : kname[a->kind], a->rounds, now_ms());
	sim_fail_fd = fails;
}
static void log_xfer(struct At *a, bool ok) { if (__sync_sub_and_fetch(&xfers, 1) == 0) sim_net_grace_ms = 0; sim_raw("{\"e\":\"xfer\",\"i\":%d,\"ok\":%d,\"t\":%d}", a->id, ok && !memcmp(a->msg, a->back, 16), now_ms()); }
static int attempt(void *arg, int)
{
	struct At *a = (struct At *)arg;
	while (a->tries-- > 0) {
		setup_addr(a);
		if (sim_rnd(3) == 0) kfiber_msleep(sim_rnd(400));
		bool blk;
		log_try(a, !(blk = (a->kind == OPEN || a->kind == REFUSED || a->kind == NOADDR) && sim_rnd(5) == 0));
		int got;
		if (blk) {	// the blocking call; its socket can be used by the loops
			a->cn->st.fd = ksocket_connect(&a->to, a->bind ? &a->from : NULL, sim_rnd(3));
			got = ksocket_opened(a->cn->st.fd) ? 0 : -1;
			if (got == 0) {
				if (fcntl(a->cn->st.fd, F_GETFL) & O_NONBLOCK || !(fcntl(a->cn->st.fd, F_GETFD) & FD_CLOEXEC)) got = -7;
				ksocket_no_block(a->cn->st.fd); selectable_bind(&a->cn->st, a->sel);
			}
		} else {
			got = kfiber_net_connect(a->cn, a->bind ? &a->from : NULL, 0);
			sim_fail_fd = 0;
		}
		log_done(a, got, true);
		if (got >= 0) {
			mkmsg(a);
			int n = 16;
			bool ok = kfiber_net_write_full(a->cn, a->msg, &n);
			n = 16;
			ok = ok && kfiber_net_read_full(a->cn, a->back, &n);
			log_xfer(a, ok);
		}
		kfiber_net_close(a->cn); a->cn = NULL;
		ev("closed", a);
	}
	__sync_sub_and_fetch(&alive, 1);
	return 0;
}
// ---- callbacks
static kev_result again_cb(KOPAQUE, void *arg, int);
static kev_result over(struct At *a)
{
	kconnection *c = a->cn; a->cn = NULL;
	kconnection_destroy(c);
	ev("closed", a);
	if (a->tries > 0) kgl_selector_module.next(a->sel, NULL, again_cb, a, 0);
	else __sync_sub_and_fetch(&alive, 1);
	return kev_destroy;
}
static int nrd;
static kev_result read_cb(KOPAQUE data, void *arg, int got)
{
	struct At *a = (struct At *)arg;
	if (got > 0 && got < (int)a->rv.iov_len) {
		a->rv.iov_base = (char *)a->rv.iov_base + got; a->rv.iov_len -= got;
		return selectable_read(&a->cn->st, read_cb, &a->rb, a);
	}
	log_xfer(a, got > 0);
	return over(a);
}
static kev_result write_cb(KOPAQUE data, void *arg, int got)
{
	struct At *a = (struct At *)arg;
	if (got <= 0) { log_xfer(a, false); return over(a); }
	if (got < (int)a->wv.iov_len) {
		a->wv.iov_base = (char *)a->wv.iov_base + got; a->wv.iov_len -= got;
		return selectable_write(&a->cn->st, write_cb, &a->wb, a);
	}
	return selectable_read(&a->cn->st, read_cb, &a->rb, a);
}
static kev_result conn_cb(KOPAQUE data, void *arg, int got)
{
	struct At *a = (struct At *)arg;
	log_done(a, got, data == (KOPAQUE)a);
	if (got < 0) return over(a);
	mkmsg(a);
	a->wv.iov_base = a->msg; a->wv.iov_len = 16; a->wb.iov_base = (char *)&a->wv; a->wb.iov_len = 1;
	a->rv.iov_base = a->back; a->rv.iov_len = 16; a->rb.iov_base = (char *)&a->rv; a->rb.iov_len = 1;
	return selectable_write(&a->cn->st, write_cb, &a->wb, a);
}
static kev_result again_cb(KOPAQUE, void *arg, int)
{
	struct At *a = (struct At *)arg;
	if (a->tries-- <= 0) { __sync_sub_and_fetch(&alive, 1); return kev_ok; }
	setup_addr(a);
	log_try(a);
	if (!kconnection_half_connect(a->cn, a->bind ? &a->from : NULL, 0)) { sim_fail_fd = 0; log_done(a, -1, true); return over(a); }
	selectable_bind(&a->cn->st, a->sel);
	return kconnection_connect(a->cn, conn_cb, a);
}
// ---- disturbances, on the attempt's own selector
static int disturb(void *arg, int)
{
	struct At *a = (struct At *)arg;
	for (;;) {
		kfiber_msleep(1 + sim_rnd(1500));
		if (a->tries <= 0 && !a->trying) break;
		if (!a->trying || a->cn == NULL || !ksocket_opened(a->cn->st.fd)) continue;
		if ((a->kind == HOPEN || a->kind == HREFUSED) && sim_rnd(4)) {
			ev("release", a);
			sim_release_fd(a->cn->st.fd);
		} else if (a->abort_ms) {
			ev("abort", a);
			if (sim_rnd(2)) kfiber_net_shutdown(a->cn); else selectable_shutdown(&a->cn->st);
		} else if (sim_rnd(3) == 0) break;
	}
	__sync_sub_and_fetch(&alive, 1);
	return 0;
}
static int mk_listen(int backlog, int *port)
{
	sockaddr_i a; v4(&a, 0, 0);
	int l = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
	if (bind(l, (struct sockaddr *)&a, sizeof a.v4) || (backlog >= 0 && listen(l, backlog))) abort();
	socklen_t n = sizeof a; getsockname(l, (struct sockaddr *)&a, &n);
	*port = ntohs(a.v4.sin_port);
	return l;
}
// the other ends: whatever comes is sent back
static int cl[64], ncl;
static void serve()
{
	int ls[3] = { lfd[OPEN], lfd[HOPEN], ufd };
	for (int k = 0; k < 3; k++) for (;;) {
		if (ls[k] < 0) break;
		struct pollfd pf = { ls[k], POLLIN, 0 };
		if (poll(&pf, 1, 0) <= 0) break;
		int c = accept(ls[k], NULL, NULL);
		if (c < 0) break;
		fcntl(c, F_SETFL, O_NONBLOCK);
		if (ncl < 64) cl[ncl++] = c; else abort();
	}
	for (int i = 0; i < ncl; i++) {
		char b[64]; int n;
		struct pollfd pf = { cl[i], POLLIN, 0 };
		if (poll(&pf, 1, 0) <= 0) continue;
		while ((n = recv(cl[i], b, sizeof b, MSG_DONTWAIT)) > 0) send(cl[i], b, n, MSG_NOSIGNAL);
		if (n == 0 || errno != EAGAIN) { close(cl[i]); cl[i] = cl[--ncl]; i--; }
	}
}
SCENARIO(connect)
{
	int nsel = 1 + sim_rnd(2), lim = 1 + sim_rnd(3);
	nat = 1 + sim_rnd(NA - 1);
	int rounds[NA];
	for (int i = 0; i < NA; i++) rounds[i] = sim_rnd(4) ? 0 : 1 + sim_rnd(2);
	sim_cfgjson("{\"lim\":%d,\"n\":%d}", lim * 1000, nat);
	boot(nsel);
	selector_manager_set_timeout(lim, 3 + sim_rnd(20));
	sim_io_faults = sim_rnd(3) != 0;
	sim_connect_sync = 1;
	snprintf(upath, sizeof upath, "/tmp/kasync-sim-%d", (int)getpid());
	for (int i = 0; i < 8; i++) lfd[i] = -1;
	bool need[8] = { true };
	for (int i = 0; i < nat; i++) {
		struct At *a = &ats[i];
		a->id = i; a->kind = sim_rnd(5) ? sim_rnd(5) : 5 + sim_rnd(3); need[a->kind] = true;
		a->cb = sim_rnd(3) == 0; a->bind = sim_rnd(3) == 0 || a->kind == NOADDR; a->rounds = rounds[i]; a->abort_ms = sim_rnd(4) == 0;
		a->tries = 1 + sim_rnd(3); a->sel = get_selector_by_index(sim_rnd(nsel));
	}
	int fill[4], nf = 0;
	lfd[OPEN] = mk_listen(64, &lport[OPEN]);
	if (need[HOPEN]) { lfd[HOPEN] = mk_listen(64, &lport[HOPEN]); sim_hold_port(lport[HOPEN]); }
	if (need[REFUSED]) lfd[REFUSED] = mk_listen(-1, &lport[REFUSED]);	// the port is taken, nobody listens
	if (need[HREFUSED]) { lfd[HREFUSED] = mk_listen(-1, &lport[HREFUSED]); sim_hold_port(lport[HREFUSED]); }
	if (need[STUCK]) {	// nobody takes its connections
		lfd[STUCK] = mk_listen(0, &lport[STUCK]); sim_stuck_port(lport[STUCK]);
		for (nf = 0; nf < 3; nf++) {
			sockaddr_i a; v4(&a, 0x7f000001, lport[STUCK]);
			fill[nf] = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
			connect(fill[nf], (struct sockaddr *)&a, sizeof a.v4);
			struct pollfd pf = { fill[nf], POLLOUT, 0 };
			if (poll(&pf, 1, 30) == 0) { nf++; break; }
		}
	}
	if (need[UOPEN] || need[UNONE]) {
		struct sockaddr_un un; memset(&un, 0, sizeof un); un.sun_family = AF_UNIX; strcpy(un.sun_path, upath); unlink(upath);
		ufd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
		if (bind(ufd, (struct sockaddr *)&un, sizeof un) || listen(ufd, 64)) abort();
	}
	net_begin();
	for (int i = 0; i < nat; i++) {
		struct At *a = &ats[i];
		ATOMIC_INC(alive);
		if (a->cb) kgl_selector_module.next(a->sel, NULL, again_cb, a, 0);
		else kfiber_create2(a->sel, attempt, a, 0, 0, NULL);
		if (a->abort_ms || ((a->kind == HOPEN || a->kind == HREFUSED) && sim_rnd(4))) { ATOMIC_INC(alive); kfiber_create2(a->sel, disturb, a, 0, 0, NULL); }
	}
	while (!sim_wait(nobody, NULL, 3)) serve();
	for (int i = 0; i < ncl; i++) close(cl[i]);
	if (ufd >= 0) unlink(upath);
	net_end(nsel, nat, true);
}
