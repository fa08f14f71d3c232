// C16: servers.
#include "common.h"
#include "net.h"
#include "kgl_ssl.h"
#include "tls.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <poll.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#define NC 8
struct Cl { int fd, ok; char id; SSL *ssl; };
static struct Cl cls[NC]; static int ncl;
static kserver *server; static int mode, unixs, handlers, accepters, nl; static char upath[108];
static int hold;	// handlers wait until the server was closed
static int is_free, closed_now, tls; static SSL_CTX *cli_ctx; static int ctx_live;
static int by_addr(kconnection *c)
{
	if (c->addr.v4.sin_family != AF_INET) return -1;
	sockaddr_i p; socklen_t n = sizeof p;
	if (getpeername(c->st.fd, (struct sockaddr *)&p, &n)) { if (errno != ENOTCONN) return -1; p.v4 = c->addr.v4; }	// the client is gone already
	if (p.v4.sin_addr.s_addr != c->addr.v4.sin_addr.s_addr || p.v4.sin_port != c->addr.v4.sin_port) return -1;
	int i = (ntohl(p.v4.sin_addr.s_addr) >> 8 & 255) - 1;
	return i >= 0 && i < ncl ? i : -1;
}
static int listener_no(kselector *s) { for (int i = 0; i < get_selector_count(); i++) if (get_selector_by_index(i) == s) return i; return -1; }
static int no_one(void *) { return handlers == 0 && accepters == 0; }
static int not_held(void *) { return !hold; }
static int serve_fiber(void *arg, int)
{
	kconnection *c = (kconnection *)arg;
	char b[4]; int n = 0, id = -1;
	bool here = c->st.base.selector == kgl_get_tls_selector() && c->server == server;
	if (!unixs) {
		int one = 1; setsockopt(c->st.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
		sim_atomic_begin(); sim_raw("{\"e\":\"acc\",\"i\":%d,\"here\":%d}", id = by_addr(c), here); sim_atomic_end();
		n = tls && kfiber_ssl_handshake(c) != 0 ? 0 : kfiber_net_read(c, b, 1);
	} else {
		n = kfiber_net_read(c, b, 1);
		if (n == 1) { sim_atomic_begin(); sim_raw("{\"e\":\"acc\",\"i\":%d,\"here\":%d}", id = b[0] - 'a', here && c->addr.v4.sin_family == AF_UNIX); sim_atomic_end(); }
	}
	while (hold && sim_rnd(8)) kfiber_msleep(1 + sim_rnd(20));
	if (n == 1) { b[1] = b[0] == 'a' + id; if (kfiber_net_write(c, b, 2) == 1) kfiber_net_write(c, b + 1, 1); }
	if (sim_rnd(3) == 0) kfiber_msleep(sim_rnd(50));
	sim_atomic_begin(); sim_raw("{\"e\":\"bye\",\"i\":%d,\"unix\":%d}", id, unixs); sim_atomic_end();
	kfiber_net_close(c);
	__sync_sub_and_fetch(&handlers, 1);
	return 0;
}
KACCEPT_CALLBACK(on_accept)
{
	kconnection *c = (kconnection *)arg;
	ATOMIC_INC(handlers);
	if (kfiber_create(serve_fiber, c, 0, 0, NULL)) abort();
	return kev_ok;
}
static int accept_fiber(void *arg, int)
{
	kserver_selectable *ss = (kserver_selectable *)arg;
	for (;;) {
		kconnection *c = (kconnection *)0x1;
		int r = kfiber_net_accept(ss, &c);
		sim_atomic_begin(); sim_raw("{\"e\":\"accret\",\"ok\":%d,\"c\":%d}", r == 0, c != NULL && c != (kconnection *)0x1); sim_atomic_end();
		if (r != 0 || c == NULL) break;
		ATOMIC_INC(handlers);
		if (kfiber_create(serve_fiber, c, 0, 0, NULL)) abort();
		if (sim_rnd(4) == 0) kfiber_msleep(sim_rnd(20));
	}
	kserver_selectable_destroy(ss);
	__sync_sub_and_fetch(&accepters, 1);
	return 0;
}
static int blocker = -1;
static int listen_fiber(void *arg, int)
{
	kserver_selectable *ss = NULL;
	for (;;) {
		int r = kfiber_net_listen(server, KSOCKET_REUSEPORT, &ss);
		if (blocker >= 0 || r || ss == NULL) {
			sim_raw("{\"e\":\"taken\",\"ok\":%d,\"c\":%d,\"free\":%d}", r == 0, ss != NULL, blocker < 0);
			if (blocker >= 0) { int b = blocker; blocker = -1; close(b); }
			if (r) continue;
		}
		break;
	}
	*(kserver_selectable **)arg = ss;
	return 0;
}
// another socket has the port, for some time
static void *unblock(void *arg) { usleep(1000 * (long)arg); int b = blocker; blocker = -1; close(b); return NULL; }
static int block_port()
{
	sockaddr_i a; memset(&a, 0, sizeof a); a.v4.sin_family = AF_INET; a.v4.sin_addr.s_addr = htonl(0x7f000001);
	blocker = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	if (bind(blocker, (struct sockaddr *)&a, sizeof a.v4) || listen(blocker, 1)) abort();
	socklen_t n = sizeof a; getsockname(blocker, (struct sockaddr *)&a, &n);
	return ntohs(a.v4.sin_port);
}
static int is_set(void *p) { return *(void **)p != NULL; }
static int opened;
static kev_result open_cb(KOPAQUE, void *arg, int) { opened = kserver_open(server, 0, on_accept) ? 1 : 2; return kev_ok; }
static kev_result exist_cb(KOPAQUE, void *arg, int) { opened = kserver_open_exsit(server, (SOCKET)(long)arg, on_accept) ? 1 : 2; return kev_ok; }
static kev_result close_cb(KOPAQUE, void *arg, int) { kserver_close(server); closed_now = 1; return kev_ok; }
static int is_int(void *p) { return *(int *)p; }
static void on_free(KOPAQUE d) { is_free++; sim_atomic_begin(); sim_raw("{\"e\":\"free\",\"own\":%d}", d == (KOPAQUE)&cls); sim_atomic_end(); }
static int readable(void *p) { struct pollfd pf = { ((struct Cl *)p)->fd, POLLIN, 0 }; return poll(&pf, 1, 0) > 0; }
// the client's half of the handshake, and which certificate it was shown
static void client_tls(int i)
{
	struct Cl *c = &cls[i]; int r, k = -1;
	c->ssl = SSL_new(cli_ctx);
	SSL_set_fd(c->ssl, c->fd); SSL_set_connect_state(c->ssl);
	for (int n = 0; n < 2000; n++) {
		ERR_clear_error();
		if ((r = SSL_do_handshake(c->ssl)) == 1) break;
		r = SSL_get_error(c->ssl, r);
		if (r == SSL_ERROR_WANT_READ) { if (!sim_wait(readable, c, 3000)) break; sim_wait(not_held, NULL, 1); }
		else if (r == SSL_ERROR_WANT_WRITE) sim_wait(not_held, NULL, 1);
		else break;
	}
	if (SSL_is_init_finished(c->ssl)) {
		X509 *x = SSL_get0_peer_certificate(c->ssl);
		char name[64] = ""; X509_NAME_get_text_by_NID(X509_get_subject_name(x), NID_commonName, name, sizeof name);
		k = !strcmp(name, "kasync.test") ? 0 : !strcmp(name, "others.test") ? 1 : 2;
		sim_raw("{\"e\":\"cert\",\"i\":%d,\"k\":%d}", i, k);
		for (int n = 0; n < 2000 && SSL_write(c->ssl, &c->id, 1) <= 0; n++) sim_wait(not_held, NULL, 1);
	}
}
static void client_connect(int i, int port)
{
	struct Cl *c = &cls[i];
	int one = 1, r;
	sim_raw("{\"e\":\"try\",\"i\":%d}", i);
	if (unixs) {
		struct sockaddr_un un; memset(&un, 0, sizeof un); un.sun_family = AF_UNIX; strcpy(un.sun_path, upath);
		c->fd = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
		r = connect(c->fd, (struct sockaddr *)&un, sizeof un);
	} else {
		sockaddr_i a; memset(&a, 0, sizeof a); a.v4.sin_family = AF_INET; a.v4.sin_addr.s_addr = htonl(0x7f000001 + ((i + 1) << 8));
		c->fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
		setsockopt(c->fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); setsockopt(c->fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
		if (bind(c->fd, (struct sockaddr *)&a, sizeof a.v4)) abort();
		a.v4.sin_addr.s_addr = htonl(0x7f000001); a.v4.sin_port = htons(port);
		r = connect(c->fd, (struct sockaddr *)&a, sizeof a.v4);
		if (r && errno == EINPROGRESS) { struct pollfd pf = { c->fd, POLLOUT, 0 }; poll(&pf, 1, 2000); int e = 0; socklen_t n = sizeof e; getsockopt(c->fd, SOL_SOCKET, SO_ERROR, &e, &n); r = e ? -1 : 0; }
	}
	c->ok = r == 0; c->id = 'a' + i;
	sim_raw("{\"e\":\"conn\",\"i\":%d,\"ok\":%d}", i, c->ok);
	if (c->ok && tls) { if (sim_rnd(2)) client_tls(i); }
	else if (c->ok) send(c->fd, &c->id, 1, MSG_NOSIGNAL);
}
static void client_end(int i)
{
	struct Cl *c = &cls[i];
	if (c->ok) {	// its own answer, or nothing
		char b[4] = { 0 }; int n = 0, r;
		if (tls) {
			if (!c->ssl) client_tls(i);
			for (int t = 0; t < 4000 && n < 2 && SSL_is_init_finished(c->ssl); t++) {
				ERR_clear_error();
				if ((r = SSL_read(c->ssl, b + n, 2 - n)) > 0) { n += r; continue; }
				r = SSL_get_error(c->ssl, r);
				if (r != SSL_ERROR_WANT_READ) break;
				if (!sim_wait(readable, c, 3000)) break;
				sim_wait(not_held, NULL, 1);
			}
			SSL_shutdown(c->ssl); SSL_free(c->ssl); c->ssl = NULL;
		} else
		while (n < 2) { sim_wait(readable, c, 3000); r = recv(c->fd, b + n, 2 - n, MSG_DONTWAIT); if (r <= 0) break; n += r; }
		sim_raw("{\"e\":\"ans\",\"i\":%d,\"got\":%d}", i, n == 0 ? 0 : n == 2 && b[0] == c->id && b[1] == 1 ? 1 : 2);
	}
	close(c->fd);
}
static void ctx_new(void *, void *, CRYPTO_EX_DATA *, int, long, void *) { ATOMIC_INC(ctx_live); }
static void ctx_free(void *, void *, CRYPTO_EX_DATA *, int, long, void *) { __sync_sub_and_fetch(&ctx_live, 1); }
static int nset;
static kgl_ssl_ctx *srv_ctx(int k)
{
	char nm[2][64];
	SSL_CTX *x = kgl_ssl_ctx_new_server(tls_file(tls_cert[k], nm[0]), tls_file(tls_keys[k], nm[1]), NULL, NULL, NULL);
	if (!x) abort();
	for (int i = 0; i < 2; i++) close(atoi(strrchr(nm[i], '/') + 1));
	return kgl_new_ssl_ctx(x);
}
static void set_ctx() { kgl_ssl_ctx *x = srv_ctx(++nset & 1); sim_raw("{\"e\":\"setctx\",\"k\":%d}", nset & 1); kserver_set_ssl_ctx(server, x); }
SCENARIO(server)
{
	int nsel = 1 + sim_rnd(3), rel_early = sim_rnd(3);
	mode = sim_rnd(3); unixs = sim_rnd(4) == 0; tls = !unixs && sim_rnd(2);
	nl = mode == 0 ? nsel : 1;	// fibers: below
	if (mode == 2 && !unixs) nl = 1 + sim_rnd(nsel);
	ncl = 1 + sim_rnd(NC - 1);
	sim_cfgjson("{\"mode\":%d,\"unix\":%d,\"nl\":%d,\"n\":%d}", mode, unixs, nl, ncl);
	boot(nsel);
	selector_manager_set_timeout(5, 10);
	sim_io_faults = sim_rnd(3) != 0;
	sim_net_grace_ms = unixs ? 0 : 200; sim_connect_sync = 1;
	if (tls) {
		tls_setup(sim_rand());
		SSL_CTX_get_ex_new_index(0, NULL, ctx_new, NULL, ctx_free);
		if (!(cli_ctx = kgl_ssl_ctx_new_client(NULL, NULL, NULL))) abort();
	}
	snprintf(upath, sizeof upath, "/tmp/kasync-srv-%d", (int)getpid()); unlink(upath);
	net_begin();
	server = kserver_init();
	kserver_set_opaque(server, on_free, (KOPAQUE)&cls);
	static kserver_selectable *fss[4];
	if (mode == 1) {
		int l;
		if (unixs) {
			struct sockaddr_un un; memset(&un, 0, sizeof un); un.sun_family = AF_UNIX; strcpy(un.sun_path, upath);
			l = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
			if (bind(l, (struct sockaddr *)&un, sizeof un) || listen(l, 64)) abort();
		} else {
			sockaddr_i a; memset(&a, 0, sizeof a); a.v4.sin_family = AF_INET; a.v4.sin_addr.s_addr = htonl(0x7f000001);
			l = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
			if (bind(l, (struct sockaddr *)&a, sizeof a.v4) || listen(l, 64)) abort();
		}
		if (tls) kserver_set_ssl_ctx(server, srv_ctx(0));
		kgl_selector_module.next(get_selector_by_index(sim_rnd(nsel)), NULL, exist_cb, (void *)(long)l, 0);
		sim_wait(is_int, &opened, -1);
	} else {
		int busy = unixs || sim_rnd(6) ? 0 : 1 + sim_rnd(2);
		if (!kserver_bind(server, unixs ? upath : "127.0.0.1", busy ? block_port() : 0, tls ? srv_ctx(0) : NULL)) abort();
		if (busy == 2) { pthread_t t; pthread_create(&t, NULL, unblock, (void *)(long)(1 + sim_rnd(4000))); pthread_detach(t); }	// in time
		if (mode == 0) {
			if (busy == 1) {
				open_cb(0, 0, 0);
				sim_raw("{\"e\":\"taken\",\"ok\":%d,\"c\":%d,\"free\":0}", opened == 1, opened == 1);
				int b = blocker; blocker = -1; close(b); opened = 0;
			}
			if (sim_rnd(2)) open_cb(0, 0, 0); else { kgl_selector_module.next(get_selector_by_index(sim_rnd(nsel)), NULL, open_cb, NULL, 0); sim_wait(is_int, &opened, -1); }
		} else {
			for (int i = 0; i < nl; i++) { kfiber_create2(get_selector_by_index(i), listen_fiber, &fss[i], 0, 0, NULL); sim_wait(is_set, &fss[i], -1); }
			for (int i = 0; i < nl; i++) { ATOMIC_INC(accepters); kfiber_create2(get_selector_by_index(i), accept_fiber, fss[i], 0, 0, NULL); }
			opened = 1;
		}
	}
	sim_raw("{\"e\":\"open\",\"ok\":%d}", opened == 1);
	int port = unixs ? 0 : ksocket_addr_port((sockaddr_i *)&server->addr), before = sim_rnd(ncl + 1), settle = sim_rnd(2);
	hold = sim_rnd(3) == 0;
	for (int i = 0; i < before; i++) { if (tls && sim_rnd(3) == 0) set_ctx(); client_connect(i, port); if (sim_rnd(2)) sim_wait(not_held, NULL, sim_rnd(3)); }
	if (tls && sim_rnd(3) == 0) set_ctx();
	if (settle) { sim_quiesce(400); if (!unixs) usleep(0); sim_raw("{\"e\":\"settled\"}"); if (tls) for (; before < ncl && sim_rnd(2); before++) { client_connect(before, port); if (sim_rnd(2)) sim_wait(not_held, NULL, sim_rnd(3)); } }
	sim_raw("{\"e\":\"closing\"}");
	if (sim_rnd(2)) { kserver_close(server); closed_now = 1; }
	else { kgl_selector_module.next(get_selector_by_index(sim_rnd(nsel)), NULL, close_cb, NULL, 0); if (sim_rnd(2)) for (int k = sim_rnd(3); k > 0 && before < ncl; k--) client_connect(before++, port); sim_wait(is_int, &closed_now, -1); }
	sim_raw("{\"e\":\"closed\"}");
	if (rel_early) { sim_raw("{\"e\":\"release\"}"); kserver_release(server); }
	for (int i = before; i < ncl; i++) client_connect(i, port);
	sim_quiesce(40); hold = 0;
	for (int i = 0; i < ncl; i++) client_end(i);
	if (tls) { SSL_CTX_free(cli_ctx); }
	if (!rel_early) { sim_raw("{\"e\":\"release\"}"); kserver_release(server); }
	sim_wait(no_one, NULL, 60000);
	sim_quiesce(300);
	unlink(upath);
	if (tls) sim_raw("{\"e\":\"ctxs\",\"n\":%d}", ctx_live);
	net_end(nsel, ncl, true);
}
