// C14, C15: stream connections.
#include "common.h"
#include "net.h"
#include "tls.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include "kasync_file.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <string>
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._";
static char nextbyte(uint64_t *s) { *s = *s * 6364136223846793005ULL + 1442695040888963407ULL; return AL[*s >> 58]; }
static const char *tstr(const char *p, long n, char *out)
{
	for (long i = 0; i < n; i++) out[i] = strchr(AL, p[i]) && p[i] ? p[i] : '?';
	out[n] = 0;
	return out;
}
#define MAXB 40000
struct EndP {
	int id, n_active, wcb, rcb, wleft, rleft, wend, big, closed;
	kconnection *cn; kselector *sel; uint64_t seq;
	int quiet;	// its reader just stops, whatever is still to be written
	int asks, rounds;	// wants to be told of read timeouts; extra rounds
	int kt, raw, hs, early, epart, n_early; SSL_SESSION *sess; SSL_CTX *ctx;	// TLS: talks something else; handshake done
	int hup;	// 0 not watching, 1 to watch first, 2 watching, 3 over
	// callback mode
	kgl_iovec wv[8], wbuf, rv[8], rbuf; int wnv, rnv, wtot, rtot;
	char *wdata, *rdata;
	char tb1[MAXB + 8], tb2[MAXB + 8];
	int late;
	int ffd, flen; kfiber_file *file, *cfile;	// a file whose bytes it sends
};
static struct EndP eps[6]; static int nend, alive, slow, idle_s, tls;
static int nobody(void *) { return alive == 0; }
static void wstep(struct EndP *e); static void rstep(struct EndP *e); static void finished(struct EndP *e, bool fiber);
static int pause_ms()
{
	if (!idle_s || sim_rnd(3) == 0) return 1 + sim_rnd(slow);
	return idle_s * 1000 * (1 + sim_rnd(3)) - 400 + sim_rnd(800);
}
static int pick_len(struct EndP *e)
{
	switch (sim_rnd(6)) {
	case 0: return 1;
	case 1: return 1 + sim_rnd(4);
	case 2: case 3: return 1 + sim_rnd(40);
	case 4: return 1 + sim_rnd(300);
	default: return e->big ? 1 + sim_rnd(sim_rnd(3) ? 6000 : 20000) : 1 + sim_rnd(40);
	}
}
// splits tot bytes at base into vectors
static int split(char *base, int tot, kgl_iovec *v, int max, bool empties)
{
	int n = 0, off = 0, want = 1 + sim_rnd(max);
	while (n < want) {
		int l = n == want - 1 ? tot - off : sim_rnd(4) == 0 && empties ? 0 : sim_rnd(tot - off + 1);
		if (!empties && l == 0) { if (off == tot) break; l = 1; }
		v[n].iov_base = base + off; v[n].iov_len = l; off += l; n++;
	}
	if (off < tot) { v[n - 1].iov_len += tot - off; }
	return n;
}
static void mk_write(struct EndP *e, bool vec)
{
	e->wtot = pick_len(e);
	e->wdata = (char *)malloc(e->wtot);
	for (int i = 0; i < e->wtot; i++) e->wdata[i] = nextbyte(&e->seq);
	if (vec) e->wnv = split(e->wdata, e->wtot, e->wv, 6, sim_rnd(3) == 0);
	else { e->wnv = 1; e->wv[0].iov_base = e->wdata; e->wv[0].iov_len = e->wtot; }
	e->wbuf.iov_base = (char *)e->wv; e->wbuf.iov_len = e->wnv;
}
static void mk_read(struct EndP *e, bool vec)
{
	e->rtot = pick_len(e);
	if (sim_rnd(3) == 0) e->rtot += 30;
	if (e->big && sim_rnd(3) == 0) e->rtot += 8000;
	e->rdata = (char *)malloc(e->rtot + 8);
	memset(e->rdata, '#', e->rtot + 8);
	if (vec) e->rnv = split(e->rdata, e->rtot, e->rv, 6, sim_rnd(3) == 0);
	else { e->rnv = 1; e->rv[0].iov_base = e->rdata; e->rv[0].iov_len = e->rtot; }
	e->rbuf.iov_base = (char *)e->rv; e->rbuf.iov_len = e->rnv;
}
static void log_ws(struct EndP *e, bool full) { sim_raw("{\"e\":\"ws\",\"e_\":%d,\"d\":\"%s\",\"full\":%d,\"t\":%d}", e->id, tstr(e->wdata, e->wtot, e->tb1), full ? 1 : 0, now_ms()); }
static void log_wd(struct EndP *e, long n, bool bad) { sim_raw("{\"e\":\"wd\",\"e_\":%d,\"n\":%ld,\"bad\":%d,\"t\":%d}", e->id, n, bad ? 1 : 0, now_ms()); }
static void log_rs(struct EndP *e, bool full) { sim_raw("{\"e\":\"rs\",\"e_\":%d,\"n\":%d,\"full\":%d,\"t\":%d}", e->id, e->rtot, full ? 1 : 0, now_ms()); }
static void log_rd(struct EndP *e, long got, int how, bool own = true)
{
	if (got < 0) got = 0;
	if (got > e->rtot) { own = false; got = e->rtot; }
	for (long i = got; i < e->rtot + 8; i++) if (e->rdata[i] != '#') own = false;	// nothing stored past what was reported
	sim_raw("{\"e\":\"rd\",\"e_\":%d,\"d\":\"%s\",\"how\":%d,\"own\":%d,\"t\":%d}", e->id, tstr(e->rdata, got, e->tb2), how, own ? 1 : 0, now_ms());
}
static void log_e(const char *ev, struct EndP *e) { sim_raw("{\"e\":\"%s\",\"e_\":%d,\"t\":%d}", ev, e->id, now_ms()); }
static void log_told(struct EndP *e, bool keep) { sim_raw("{\"e\":\"told\",\"e_\":%d,\"keep\":%d,\"t\":%d}", e->id, keep ? 1 : 0, now_ms()); }
static kev_result fin_cb(KOPAQUE data, void *arg, int got)
{
	struct EndP *e = (struct EndP *)arg;
	if (got == 0) return kselectable_ssl_shutdown(&e->cn->st, fin_cb, e);
	finished(e, false);
	return kev_ok;
}
static void writer_end(struct EndP *e, bool fiber)
{
	switch (e->wend) {
	case 0:
		if (tls && idle_s) break;
		if (tls && e->cn->st.ssl->in_early) goto cut;	// OpenSSL cannot end the stream before the handshake is over
		log_e("fin", e);
		if (tls) { if (e->cn->st.ssl->shutdown) break; e->n_active++; e->cn->st.ssl->shutdown = 1; kselectable_ssl_shutdown(&e->cn->st, fin_cb, e); } else ksocket_shutdown(e->cn->st.fd, SHUT_WR);
		break;
	cut:
	case 1: log_e("shut", e); if (fiber) kfiber_net_shutdown(e->cn); else selectable_shutdown(&e->cn->st); break;
	}
}
static int file_len(struct EndP *e) { return sim_rnd(6) == 0 ? 0 : sim_rnd(6) == 0 ? e->flen + sim_rnd(50) : 1 + sim_rnd(e->big ? 6000 : 400); }
static bool file_step(struct EndP *e)
{
	if (!e->file) { e->file = kfiber_file_bind(fcntl(e->ffd, F_DUPFD_CLOEXEC, 0)); if (!e->file) abort(); }
	int k = sim_rnd(8), len = file_len(e); bool bad = false;
	if (k < 2) {
		int off = k ? sim_rnd(e->flen + 40) : 0;
		kfiber_file_seek(e->file, seekBegin, off);
		sim_raw("{\"e\":\"seek\",\"e_\":%d,\"off\":%d}", e->id, off);
	} else if (k == 2) {
		char *b = (char *)malloc(len + 1);
		int n = kfiber_file_read(e->file, b, len);
		sim_raw("{\"e\":\"fr\",\"e_\":%d,\"len\":%d,\"n\":%d,\"d\":\"%s\"}", e->id, len, n, tstr(b, n < 0 ? 0 : n, e->tb1));
		free(b);
	} else {
		bool full = k >= 6; int left = len, n = 0; bool ok = true;
		sim_raw("{\"e\":\"ss\",\"e_\":%d,\"len\":%d,\"full\":%d,\"t\":%d}", e->id, len, full, now_ms());
		if (full) { ok = kfiber_sendfile_full(e->cn, e->file, &left); n = len - left; bad = !ok; }
		else { n = kfiber_sendfile(e->cn, e->file, len); if (n < 0) { bad = true; n = 0; } }
		sim_raw("{\"e\":\"sd\",\"e_\":%d,\"n\":%d,\"bad\":%d,\"tell\":%lld,\"t\":%d}", e->id, n, bad, (long long)kfiber_file_tell(e->file), now_ms());
		if (full && bad) bad = sim_rnd(2);	// the end of the file
	}
	return !bad;
}
// a file that holds just the data to write
static kfiber_file *data_file(struct EndP *e)
{
	int fd = memfd_create("w", MFD_CLOEXEC);
	if (fd < 0 || write(fd, e->wdata, e->wtot) != e->wtot) abort();
	kfiber_file *f = kfiber_file_bind(fd);
	if (!f) abort();
	kasync_file_bind_opaque(f, (KOPAQUE)e);
	kfiber_file_seek(f, seekBegin, 0);
	return f;
}
static int writer(void *arg, int)
{
	struct EndP *e = (struct EndP *)arg;
	while (e->wleft-- > 0) {
		if (sim_rnd(4) == 0) kfiber_msleep(pause_ms());
		int k = sim_rnd(idle_s && !tls ? 6 : 4); bool bad;
		if (e->ffd && tls) {
			int sup = selectable_support_sendfile(&e->cn->st);
			sim_raw("{\"e\":\"sup\",\"e_\":%d,\"r\":%d}", e->id, sup);
			if (sup && sim_rnd(4)) { if (!file_step(e)) break; continue; }
		} else if (e->ffd && sim_rnd(4)) { if (!file_step(e)) break; continue; }
		mk_write(e, k & 1);
		log_ws(e, k >= 2 && k != 4);
		if (k >= 4) {	// from a file that holds just this
			kfiber_file *f = data_file(e);
			if (k == 4) { int got = kfiber_sendfile(e->cn, f, e->wtot); bad = got < 0; log_wd(e, bad ? 0 : got, bad); }
			else { int left = e->wtot; bad = !kfiber_sendfile_full(e->cn, f, &left); log_wd(e, e->wtot - left, bad); }
			kfiber_file_close(f);
		}
		else if (k == 0) { int got = kfiber_net_write(e->cn, e->wdata, e->wtot); bad = got < 0; log_wd(e, bad ? 0 : got, bad); }
		else if (k == 1) { int got = kfiber_net_writev(e->cn, e->wv, e->wnv); bad = got < 0; log_wd(e, bad ? 0 : got, bad); }
		else if (k == 2) { int left = e->wtot; bad = !kfiber_net_write_full(e->cn, e->wdata, &left); log_wd(e, e->wtot - left, bad); }
		else { int bc = e->wnv; size_t got = kfiber_net_writev_full(e->cn, e->wv, &bc); bad = bc != 0; log_wd(e, got, bad); }
		free(e->wdata);
		if (bad) break;
	}
	if (sim_rnd(3) == 0) kfiber_msleep(pause_ms());
	if (e->file) { kfiber_file_close(e->file); e->file = NULL; }
	writer_end(e, true);
	finished(e, true);
	return 0;
}
// calls from different stack depths: the library must not keep a place on the caller's stack beyond a call
static int __attribute__((noinline)) read_at(struct EndP *e, int k, int depth)
{
	volatile char pad[100]; pad[depth] = 1;
	int r = depth > 0 ? read_at(e, k, depth - 1) : k ? kfiber_net_readv(e->cn, e->rv, e->rnv) : kfiber_net_read(e->cn, e->rdata, e->rtot);
	return pad[depth] ? r : -9;
}
static int reader(void *arg, int)
{
	struct EndP *e = (struct EndP *)arg;
	bool ended = false;
	while (e->rleft-- > 0) {
		if (sim_rnd(5) == 0) kfiber_msleep(pause_ms());
		int k = sim_rnd(e->asks ? 2 : 3);
	again:
		mk_read(e, k == 1);
		log_rs(e, k == 2);
		if (k == 2) {
			int left = e->rtot;
			bool ok = kfiber_net_read_full(e->cn, e->rdata, &left);
			log_rd(e, e->rtot - left, ok ? 0 : 3);
			ended = !ok;
		} else {
			int got = read_at(e, k, e->asks ? sim_rnd(4) : 0);
			if (got == ST_ERR_TIME_OUT) {	// goes on waiting for the same data with another buffer
				log_told(e, false);
				free(e->rdata);
				if (sim_rnd(6) == 0) { log_e("shut", e); if (tls) selectable_shutdown(&e->cn->st); else kfiber_net_shutdown(e->cn); }	// its read is pending: nothing that waits
				k = sim_rnd(2);
				goto again;
			}
			log_rd(e, got, got > 0 ? 0 : got == 0 ? 1 : 2);
			ended = got <= 0;
		}
		free(e->rdata);
		if (ended) break;
	}
	if (!ended && !e->quiet) { log_e("shut", e); kfiber_net_shutdown(e->cn); }
	finished(e, true);
	return 0;
}
static int killer(void *arg, int)
{
	struct EndP *e = (struct EndP *)arg;
	kfiber_msleep(1 + sim_rnd(200));
	if (!e->closed) { e->n_active++; log_e("shut", e); kfiber_net_shutdown(e->cn); finished(e, true); }
	__sync_sub_and_fetch(&alive, 1);
	return 0;
}
static void finished(struct EndP *e, bool fiber)
{
	if (--e->n_active > 0) return;
	e->closed = 1;
	log_e("close", e);
	if (fiber) kfiber_net_close(e->cn); else kconnection_destroy(e->cn);
	e->cn = NULL;
	__sync_sub_and_fetch(&alive, 1);
}
// ---- callbacks
static kev_result wlater(KOPAQUE data, void *arg, int got) { wstep((struct EndP *)arg); return kev_ok; }
static kev_result rlater(KOPAQUE data, void *arg, int got) { rstep((struct EndP *)arg); return kev_ok; }
static kev_result wcb(KOPAQUE data, void *arg, int got)
{
	struct EndP *e = (struct EndP *)arg;
	bool bad = got < 0 || data != (KOPAQUE)e;
	log_wd(e, got < 0 ? 0 : got, bad);
	free(e->wdata);
	if (e->cfile) { kfiber_file_close(e->cfile); e->cfile = NULL; }
	if (bad) e->wleft = 0;
	if (sim_rnd(4) == 0) kselector_add_timer(e->sel, wlater, e, pause_ms(), NULL);
	else wstep(e);
	return kev_ok;
}
static kev_result wnext(KOPAQUE data, void *arg, int got)
{
	struct EndP *e = (struct EndP *)arg;
	log_wd(e, got < 0 ? 0 : got, data != (KOPAQUE)e);
	free(e->wdata);
	wstep(e);
	return kev_ok;
}
static void wstep(struct EndP *e)
{
	if (e->wleft-- <= 0) { writer_end(e, false); finished(e, false); return; }
	mk_write(e, sim_rnd(2));
	if (sim_rnd(10) == 0 && !(tls && e->cn->st.ssl->shutdown)) {	// a turn without transfer
		e->wtot = 0;
		log_ws(e, false);
		selectable_next_write(&e->cn->st, wnext, e);
		return;
	}
	log_ws(e, false);
	if (idle_s && !tls && sim_rnd(3) == 0) {
		e->cfile = data_file(e);
		e->wv[0].iov_base = (char *)e->cfile; e->wv[0].iov_len = e->wtot;
		selectable_sendfile(&e->cn->st, wcb, e->wv, e);
		return;
	}
	selectable_write(&e->cn->st, wcb, &e->wbuf, e);
}
static kev_result rcb(KOPAQUE data, void *arg, int got)
{
	struct EndP *e = (struct EndP *)arg;
	if (got == ST_ERR_TIME_OUT) {	// the read goes on
		log_told(e, true);
		if (sim_rnd(6) == 0) { log_e("shut", e); selectable_shutdown(&e->cn->st); }
		return kev_ok;
	}
	log_rd(e, got, got > 0 ? 0 : got == 0 ? 1 : 2, data == (KOPAQUE)e);
	free(e->rdata);
	if (got <= 0) { finished(e, false); return kev_ok; }
	if (sim_rnd(4) == 0) kselector_add_timer(e->sel, rlater, e, pause_ms(), NULL);
	else rstep(e);
	return kev_ok;
}
static kev_result rnext(KOPAQUE data, void *arg, int got)
{
	struct EndP *e = (struct EndP *)arg;
	log_rd(e, got, 0, data == (KOPAQUE)e);
	free(e->rdata);
	rstep(e);
	return kev_ok;
}
static void rstep(struct EndP *e)
{
	if (e->rleft-- <= 0) {
		if (!e->quiet) { log_e("shut", e); selectable_shutdown(&e->cn->st); }
		finished(e, false);
		return;
	}
	mk_read(e, sim_rnd(2));
	if (sim_rnd(8) == 0) {	// a turn without transfer
		e->rtot = 0; memset(e->rdata, '#', 8);
		log_rs(e, false);
		selectable_next_read(&e->cn->st, rnext, e);
		return;
	}
	log_rs(e, false);
	selectable_read(&e->cn->st, rcb, &e->rbuf, e);
}
static int mk_pair(int kind, int *fd)
{
	if (kind == 0) { if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, fd)) abort(); return 0; }
	struct sockaddr_in a; memset(&a, 0, sizeof a);
	a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001 + (sim_rnd(200) << 8) + (sim_rnd(250) << 16));
	int l = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
	if (bind(l, (struct sockaddr *)&a, sizeof a) || listen(l, 1)) abort();
	socklen_t al = sizeof a; getsockname(l, (struct sockaddr *)&a, &al);
	fd[0] = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	if (connect(fd[0], (struct sockaddr *)&a, sizeof a)) abort();
	fd[1] = accept(l, NULL, NULL);
	close(l);
	for (int i = 0; i < 2; i++) { setsockopt(fd[i], IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); fcntl(fd[i], F_SETFL, O_NONBLOCK); }
	return 0;
}
static void begin(struct EndP *e)
{
	if (!e->wcb) kfiber_create2(e->sel, writer, e, 0, 0, NULL);
	if (!e->rcb) kfiber_create2(e->sel, reader, e, 0, 0, NULL);
	if (e->wcb) wstep(e);
	if (e->rcb && !e->closed) rstep(e);
}
// ---- TLS: the handshake comes first
static void hs_over(struct EndP *e, int r, bool fiber)
{
	if (e->early && r == 0) sim_raw("{\"e\":\"earlyd\",\"e_\":%d,\"n\":%d,\"acc\":%d}", e->id, e->n_early, SSL_get_early_data_status(e->cn->st.ssl->ssl) == SSL_EARLY_DATA_ACCEPTED);
	e->hs = r == 0;
	sim_raw("{\"e\":\"hsd\",\"e_\":%d,\"r\":%d,\"ver\":\"%s\",\"t\":%d}", e->id, r, r == 0 ? SSL_get_version(e->cn->st.ssl->ssl) : "", now_ms());
	if (r == 0) { if (e->asks) KBIT_SET(e->cn->st.base.st_flags, STF_RTIME_OUT); begin(e); return; }
	e->n_active = 1;
	finished(e, fiber);
}
static int hs_fiber(void *arg, int)
{
	struct EndP *e = (struct EndP *)arg;
	if (e->early) {	// bytes that go along with the first message
		char b[400], t[401]; int n = 1 + sim_rnd(sim_rnd(3) ? 20 : 390), at = 0, tries = 0;
		for (int i = 0; i < n; i++) b[i] = nextbyte(&e->seq);
		sim_raw("{\"e\":\"early\",\"e_\":%d,\"d\":\"%s\"}", e->id, tstr(b, n, t));
		SSL_set_session(e->cn->st.ssl->ssl, e->sess);
		for (size_t k; at < n && tries < 400;) {
			int part = e->epart ? KGL_MIN(n - at, e->epart) : n - at;
			if (SSL_write_early_data(e->cn->st.ssl->ssl, b + at, part, &k) == 1) { at += k; if (sim_rnd(3) == 0) kfiber_msleep(1 + sim_rnd(30)); }
			else { tries++; kfiber_msleep(1); }
		}
		e->n_early = at;
		if (sim_rnd(2)) kfiber_msleep(1 + sim_rnd(60));
	}
	log_e("hs", e);
	hs_over(e, kfiber_ssl_handshake(e->cn), true);
	return 0;
}
static kev_result hs_cb(KOPAQUE data, void *arg, int got)
{
	hs_over((struct EndP *)arg, data == (KOPAQUE)arg ? got : -5, false);
	return kev_ok;
}
static int raw_fiber(void *arg, int)
{
	struct EndP *e = (struct EndP *)arg; char b[600]; int l = 0, k = sim_rnd(4);
	if (!idle_s) log_e("raw", e);
	if (idle_s) kfiber_msleep(pause_ms());
	else if (sim_rnd(2)) kfiber_msleep(1 + sim_rnd(20));
	if (idle_s) log_e("raw", e);
	if (k == 0) l = sprintf(b, "GET / HTTP/1.0\r\n\r\n");
	else if (k == 1) for (l = 0; l < 1 + sim_rnd(600) && l < 600; l++) b[l] = sim_rnd(256);
	else if (k == 2) { int n = 5 + sim_rnd(200); for (l = 0; l < n; l++) b[l] = sim_rnd(256); b[0] = 22 + sim_rnd(3); b[1] = 3; b[2] = 1 + sim_rnd(3); b[3] = 0; b[4] = 1 + sim_rnd(180); b[5] = 1 + sim_rnd(3); }
	if (l) kfiber_net_write(e->cn, b, l);
	if (k == 0 && sim_rnd(2)) while (kfiber_net_read(e->cn, b, sizeof b) > 0);
	else kfiber_msleep(idle_s ? pause_ms() : 1 + sim_rnd(100));
	e->n_active = 1;
	finished(e, true);
	return 0;
}
static void tls_begin(struct EndP *e)
{
	if (e->raw) { kfiber_create2(e->sel, raw_fiber, e, 0, 0, NULL); return; }
	if (!((e->id & 1) ? kconnection_ssl_accept(e->cn, e->ctx) : kconnection_ssl_connect(e->cn, e->ctx, e->early || sim_rnd(2) ? "kasync.test" : NULL))) abort();
	if (!e->early && (e->wcb || e->rcb)) { log_e("hs", e); kconnection_ssl_handshake(e->cn, hs_cb, e); }
	else kfiber_create2(e->sel, hs_fiber, e, 0, 0, NULL);
}
static kev_result hung_cb(KOPAQUE data, void *arg, int got)
{
	struct EndP *e = (struct EndP *)arg;
	e->hup = 3;
	log_e("hung", e);
	begin(e);
	return kev_ok;
}
static kev_result hup_over(KOPAQUE data, void *arg, int got)
{
	struct EndP *e = (struct EndP *)arg;
	if (e->hup == 3) return kev_ok;
	e->hup = 3;
	log_e("unwatch", e);
	if (!(e->rcb && e->rleft > 0) || sim_rnd(2)) selectable_remove_readhup(&e->cn->st);	// else the first transfer takes its place
	begin(e);
	return kev_ok;
}
static kev_result start_cb(KOPAQUE data, void *arg, int got)
{
	struct EndP *e = (struct EndP *)arg;
	if (e->hup == 1) {
		e->hup = 2;
		log_e("watch", e);
		if (!selectable_readhup(&e->cn->st, hung_cb, e)) abort();
		kselector_add_timer(e->sel, hup_over, e, 1 + sim_rnd(200), NULL);
		return kev_ok;
	}
	if (tls && idle_s && !e->late && sim_rnd(2)) { e->late = 1; kselector_add_timer(e->sel, start_cb, e, pause_ms(), NULL); return kev_ok; }
	if (tls) tls_begin(e); else begin(e);
	return kev_ok;
}
// what each end accepts: bit 0 TLSv1.2, bit 1 TLSv1.3; trust: the client wants kasync.test or other.test
static const char *protos[4] = { "", "TLSv1.2", "TLSv1.3", "TLSv1.2 TLSv1.3" };
static SSL_CTX *tls_ctxs[6];
static void tls_contexts(int nconn, const char *more)
{
	int pv[4] = { 3, 3, 3, 3 }, trust[2] = { 0, 0 }, early[2] = { 0, 0 }, raw[4] = { 0, 0, 0, 0 }; char nm[2][64], ca[64];
	tls_setup(sim_rand());
	for (int c = 0; c < nconn; c++) {
		int s = 2 * c + 1; SSL_CTX *x;
		if (sim_rnd(2)) x = kgl_ssl_ctx_new_server(tls_file(tls_cert[0], nm[0]), tls_file(tls_keys[0], nm[1]), NULL, NULL, NULL);
		else {
			kgl_ref_str_t ce, ke; memset(&ce, 0, sizeof ce); memset(&ke, 0, sizeof ke);
			std::string c2 = std::string("data:") + tls_cert[0], k2 = std::string("data:") + tls_keys[0];
			ce.data = (char *)c2.c_str(); ce.len = c2.size(); ke.data = (char *)k2.c_str(); ke.len = k2.size();
			x = kgl_ssl_ctx_new_server2(&ce, &ke, NULL, NULL, NULL);
		}
		if (!x) abort();
		eps[s].ctx = x;
		trust[c] = sim_rnd(3) ? 0 : sim_rnd(3) ? 1 : 2;
		x = kgl_ssl_ctx_new_client(NULL, trust[c] ? tls_file(tls_cert[trust[c] - 1], ca) : NULL, NULL);
		if (!x) abort();
		eps[s - 1].ctx = x;
		if (sim_rnd(6) == 0) raw[s - sim_rnd(2)] = 1;
		for (int k = s - 1; k <= s; k++) { if (sim_rnd(2)) kgl_ssl_ctx_set_protocols(eps[k].ctx, protos[pv[k] = sim_rnd(5) ? 3 : 1 + sim_rnd(2)]); eps[k].raw = raw[k]; tls_ctxs[k] = eps[k].ctx; }
		early[c] = idle_s || sim_rnd(3) ? 0 : 1 + sim_rnd(3);
		if (early[c]) kgl_ssl_ctx_set_early_data(eps[s].ctx, true);
		if (early[c] > 1) {
			SSL_SESSION *se = tls_session(eps[s].ctx, eps[s - 1].ctx);
			if (se && SSL_SESSION_get_max_early_data(se) > 0 && !raw[s - 1] && !raw[s]) { eps[s - 1].sess = se; eps[s - 1].early = early[c]; eps[s - 1].epart = sim_rnd(2) ? 0 : 1 + sim_rnd(30); }
			else { early[c] = 1; SSL_SESSION_free(se); }
			if (early[c] == 2) sim_io_faults = 0;	// OpenSSL cannot read on while an answer to early data is blocked
			if (early[c] == 3) kgl_ssl_ctx_set_early_data(eps[s].ctx, false);
		}
	}
	sim_cfgjson("{%s\"pv\":[%d,%d,%d,%d],\"trust\":[%d,%d],\"early\":[%d,%d],\"raw\":[%d,%d,%d,%d]}", more, pv[0], pv[1], pv[2], pv[3], trust[0], trust[1], early[0], early[1], raw[0], raw[1], raw[2], raw[3]);
}
static int ktls_of(int fd) { for (int i = 0; i < nend; i++) if (eps[i].cn && eps[i].cn->st.fd == fd) return eps[i].kt; return 0; }
static void run_stream(bool files = false)
{
	int nsel = 1 + sim_rnd(2), pr[4] = { 0, 0, 0, 0 }, pa[4] = { 0, 0, 0, 0 }, kind = sim_iparam("tcp", 0), nconn = 1 + sim_rnd(2), big = sim_rnd(files ? 20 : 8) == 0;
	int jam = 0;	// readers that stop with writers that are stuck
	if (idle_s) {
		big = sim_rnd(2); jam = big && sim_rnd(2);
		for (int i = 0; i < 4; i++) { pr[i] = sim_rnd(3) ? 0 : sim_rnd(3) ? 1 + sim_rnd(2) : 6; pa[i] = sim_rnd(2); }
	}
	std::string fs;
	for (int i = 0; files && i < 4; i++) {	// the file of end i
		int l = sim_rnd(8) == 0 ? 0 : sim_rnd(big ? 6000 : 1200); uint64_t seq = sim_rand() * 104729ULL + i;
		char *b = (char *)malloc(l + 1); for (int k = 0; k < l; k++) b[k] = nextbyte(&seq);
		b[l] = 0; fs += (i ? ",\"" : "\"") + std::string(b) + "\"";
		int f = open("/tmp", O_TMPFILE | O_RDWR, 0600); if (f < 0) f = open("/dev/shm", O_TMPFILE | O_RDWR, 0600);
		if (f < 0 || pwrite(f, b, l, 0) != l) abort();
		eps[i].ffd = fcntl(f, F_DUPFD_CLOEXEC, 100); eps[i].flen = l; close(f); free(b);
	}
	std::string more;
	if (tls && idle_s) { char b[200]; sprintf(b, "\"lim\":%d,\"r\":[%d,%d,%d,%d],\"asks\":[%d,%d,%d,%d],", idle_s * 1000, pr[0], pr[1], pr[2], pr[3], pa[0], pa[1], pa[2], pa[3]); more = b; }
	if (tls && files) {
		for (int i = 0; i < 4; i++) eps[i].kt = sim_rnd(4) != 0;
		char b[60]; sprintf(b, "\"kt\":[%d,%d,%d,%d],\"files\":[", eps[0].kt, eps[1].kt, eps[2].kt, eps[3].kt); more = b + fs + "],";
		sim_ktls = ktls_of;
	}
	if (!tls) sim_cfgjson("{\"tcp\":%d,\"files\":[%s],\"nsel\":%d,\"lim\":%d,\"r\":[%d,%d,%d,%d],\"asks\":[%d,%d,%d,%d]}", kind, fs.c_str(), nsel, idle_s * 1000, pr[0], pr[1], pr[2], pr[3], pa[0], pa[1], pa[2], pa[3]);
	slow = sim_rnd(2) ? 5 : 60;
	boot(nsel);
	if (idle_s) selector_manager_set_timeout(1 + sim_rnd(5), idle_s);
	sim_io_faults = sim_rnd(3) != 0;
	if (kind) sim_net_grace_ms = 300;
	nend = 2 * nconn;
	if (tls) tls_contexts(nconn, more.c_str());
	net_begin();
	for (int c = 0; c < nconn; c++) {
		int fd[2]; mk_pair(kind, fd);
		for (int k = 0; k < 2; k++) {
			struct EndP *e = &eps[2 * c + k];
			if (big && sim_rnd(2) && !eps[2 * c].early) { int sz = 4096; setsockopt(fd[k], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); }
			e->id = 2 * c + k; e->sel = get_selector_by_index(sim_rnd(nsel)); e->seq = sim_rand() * 7919ULL + e->id; e->big = big;
			e->cn = kconnection_new(NULL); e->cn->st.fd = fd[k];
			e->cn->st.data = (KOPAQUE)e;
			selectable_bind(&e->cn->st, e->sel);
			e->wcb = !files && sim_rnd(3) == 0; e->rcb = sim_rnd(3) == 0;
			e->n_active = 2; e->wleft = sim_rnd(8); e->rleft = sim_rnd(5) == 0 ? sim_rnd(6) : 1000000;
			e->wend = k == 0 ? sim_rnd(3) : sim_rnd(2);
			if (sim_rnd(3) == 0) e->wend = 0;
			e->hup = !idle_s && !tls && sim_rnd(6) == 0;
			if (idle_s) {
				e->wleft = sim_rnd(4);
				if (jam) { e->quiet = 1; e->rleft = sim_rnd(6); e->big = sim_rnd(2); e->wleft = 1 + sim_rnd(5); }
				e->rounds = pr[e->id]; e->asks = pa[e->id];
				e->cn->st.base.tmo = e->rounds;
				if (e->asks && (!tls || (!e->raw && sim_rnd(2)))) KBIT_SET(e->cn->st.base.st_flags, STF_RTIME_OUT);
			}
			ATOMIC_INC(alive);
		}
	}
	for (int i = 0; i < nend; i++) {
		struct EndP *e = &eps[i];
		kgl_selector_module.next(e->sel, NULL, start_cb, e, 0);
		if (sim_rnd(12) == 0) { ATOMIC_INC(alive); kfiber_create2(e->sel, killer, e, 0, 0, NULL); }
	}
	sim_wait(nobody, NULL, -1);
	if (tls) { sim_wait(tls_none, NULL, 100000); sim_raw("{\"e\":\"ssl\",\"n\":%d}", tls_live); }
	net_end(nsel, nend, true);
}
SCENARIO(stream) { run_stream(); }
SCENARIO(sendfile) { run_stream(true); }
SCENARIO(tls) { tls = 1; run_stream(); }
SCENARIO(tlsfile) { tls = 1; run_stream(true); }
SCENARIO(tlsidle) { tls = 1; idle_s = 1 + sim_rnd(2); run_stream(); }
SCENARIO(idle) { idle_s = 1 + sim_rnd(2); run_stream(); }
