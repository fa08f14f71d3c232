// C27: what TLS contexts are made of, and what a handshake takes from them.
#include <sys/syscall.h>
#include "common.h"
#include "net.h"
#include "kgl_ssl.h"
#include "tls.h"
#include <string>
#include <vector>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
// vector<short>: vector<int> is the run-time's own, and must not be instrumented
#define NX 10
#define NG 4
struct Ctx { SSL_CTX *x; bool server, dead, usable; int alpn; };
static struct Ctx ctx[NX]; static int nx, dflt, nsnis, sni_on, reject, handlers, accepters, clients_left, live_x, live_c;
static kserver *server;
// application protocols: ids 0.. ; lists by number, the last one is left to the library
static const char *pname[] = { "a", "bb", "h3x", "http/1.1" };
static const std::vector<short> lists[] = { {}, { 0 }, { 1, 0 }, { 2, 1, 0 }, { 3, 2 }, { 0, 3 }, { 3 } };
#define UNSET 6
static int list_ids[7] = { 0, 1, 2, 3, 4, 5, 6 };
static std::string wire[7];
static const char *protos[] = { "TLSv1", "TLSv1.1", "TLSv1.2", "TLSv1.3" };
static const char *ciphers[] = { "ECDHE-ECDSA-AES128-GCM-SHA256", "ECDHE-ECDSA-AES256-GCM-SHA384", "ECDHE-ECDSA-CHACHA20-POLY1305" };
static void npn(SSL *, void *data, const unsigned char **out, unsigned *len)
{
	int l = *(int *)data;
	if (l != UNSET) { *out = (const unsigned char *)wire[l].data(); *len = wire[l].size(); }
}
static int proto_no(SSL *s)
{
	const unsigned char *d = NULL; unsigned n = 0;
	kgl_ssl_get_next_proto_negotiated(s, &d, &n);
	if (n == 0) return -1;
	for (int i = 0; i < 4; i++) if (n == strlen(pname[i]) && !memcmp(d, pname[i], n)) return i;
	return -2;
}
static int ver_no(SSL *s) { for (int i = 0; i < 4; i++) if (!strcmp(SSL_get_version(s), protos[i])) return i + 1; return -1; }
static int cipher_no(SSL *s) { const char *n = SSL_get_cipher_name(s); for (int i = 0; i < 3; i++) if (!strcmp(n, ciphers[i])) return i; return -1; }
static std::string js(const std::vector<short> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
static std::vector<short> fds;
// files that come later stand in the same places
static std::string file(const std::string &t, int place)
{
	char n[64]; tls_file(t.c_str(), n);
	int f = atoi(strrchr(n, '/') + 1), to = fcntl(f, F_DUPFD_CLOEXEC, place);
	if (to < 0) abort();
	syscall(SYS_close, f); fds.push_back(to);
	return "/proc/self/fd/" + std::to_string(to);
}
static void files_close() { for (short f : fds) syscall(SYS_close, f); fds.clear(); }
// a certificate with its chain and a key, perhaps spoilt: 1 no such file, 2 not a certificate, 3 cut short, 4 a spoilt chain,
// 5 no such key, 6 not a key
struct Cred { int cert, key, bad; std::vector<short> chain; std::string c, k; };
static std::string spoil(std::string s) { size_t at = s.find('\n') + 20 + sim_rnd(40); s[at] = '!'; return s; }
static Cred cred(bool may_bad)
{
	Cred r;
	r.cert = sim_rnd(4); r.key = tls_keyof[r.cert]; r.bad = 0;
	if (r.cert == 3) { if (sim_rnd(4)) r.chain.push_back(2); if (sim_rnd(3) == 0) r.chain.push_back(0); }
	else if (r.cert == 2 && sim_rnd(3) == 0) r.chain.push_back(0);
	else if (sim_rnd(5) == 0) r.chain.push_back(sim_rnd(4));
	if (may_bad && sim_rnd(6) == 0) r.key = sim_rnd(3);
	if (may_bad && sim_rnd(5) == 0) r.bad = 1 + sim_rnd(6);
	if (r.bad == 4 && r.chain.empty()) r.chain.push_back(sim_rnd(4));
	r.c = tls_cert[r.cert]; r.k = tls_keys[r.key];
	if (r.bad == 2 || r.bad == 3) r.chain.clear();
	if (r.bad == 2) r.c = sim_rnd(2) ? "nothing here\n" : spoil(r.c);
	if (r.bad == 3) r.c = r.c.substr(0, 60 + sim_rnd(100));
	for (size_t i = 0; i < r.chain.size(); i++) r.c += r.bad == 4 && i + 1 == r.chain.size() ? spoil(tls_cert[r.chain[i]]) : tls_cert[r.chain[i]];
	if (r.bad == 6) r.k = sim_rnd(2) ? "no key\n" : spoil(r.k);
	return r;
}
static SSL_CTX *trim(SSL_CTX *x, Ctx *c, std::string &extra)
{
	int lo = 0, hi = 3;
	std::vector<short> ci;
	if (sim_rnd(3)) {
		std::string s;
		lo = sim_rnd(4); hi = lo + sim_rnd(4 - lo);
		std::vector<std::string> w;
		for (int i = lo; i <= hi; i++) { std::string n = protos[i]; if (sim_rnd(3) == 0) n[0] = 't'; w.insert(w.begin() + sim_rnd(w.size() + 1), n); }
		if (sim_rnd(4) == 0) w.insert(w.begin() + sim_rnd(w.size() + 1), sim_rnd(2) ? "TLSv1.4" : "SSLv2");
		for (auto &n : w) { for (int k = sim_rnd(3); k > 0; k--) s += " \t"[sim_rnd(2)]; s += n; s += ' '; }
		if (sim_rnd(2)) s.pop_back();
		if (x && sim_rnd(3) == 0) kgl_ssl_ctx_set_protocols(x, protos[sim_rnd(4)]);
		if (x) kgl_ssl_ctx_set_protocols(x, s.c_str());
	} else if (x) kgl_ssl_ctx_set_protocols(x, sim_rnd(2) ? NULL : "");
	std::string l;
	int order[3] = { 0, 1, 2 };
	for (int i = 0; i < 3; i++) { int j = sim_rnd(3), t = order[i]; order[i] = order[j]; order[j] = t; }
	for (int i = 0, n = 1 + sim_rnd(3); i < n; i++) { ci.push_back(order[i]); l += ciphers[order[i]]; l += ':'; }
	if (x && !kgl_ssl_ctx_set_cipher_list(x, (l + "ECDHE-ECDSA-AES128-SHA:@SECLEVEL=0").c_str())) sim_raw("{\"e\":\"bad\"}");
	if (x && sim_rnd(5) == 0 && kgl_ssl_ctx_set_cipher_list(x, "NO-SUCH-CIPHER")) sim_raw("{\"e\":\"bad\"}");
	if (x) kgl_ssl_ctx_set_cipher_list(x, (l + "ECDHE-ECDSA-AES128-SHA:@SECLEVEL=0").c_str());
	extra = ",\"lo\":" + std::to_string(lo + 1) + ",\"hi\":" + std::to_string(hi + 1) + ",\"ci\":" + js(ci);
	return x;
}
static std::string ca_file(int mask, int bad) { std::string s; for (int i = 0; i < 2; i++) if (mask >> i & 1) s += tls_cert[i]; return bad == 1 ? "/nonexistent/ca" : file(bad == 2 ? "no certificates\n" : s, 220); }
static std::vector<short> set_of(int mask) { std::vector<short> v; for (int i = 0; i < 2; i++) if (mask >> i & 1) v.push_back(i); return v; }
static kgl_ref_str_t sref(const std::string &s) { kgl_ref_str_t r; memset(&r, 0, sizeof r); r.data = (char *)s.c_str(); r.len = s.size(); return r; }
static int npn_run;
static int pick_list() { int l = sim_rnd(3) ? 1 + sim_rnd(npn_run ? 5 : 6) : 0; return l; }
static bool make(bool srv, bool may_bad, bool needs)
{
	if (nx == NX) return false;
	Ctx *c = &ctx[nx]; std::string extra;
	memset(c, 0, sizeof *c);
	int mask = 0, cabad = 0, al = pick_list(); std::string ca;
	if (srv ? needs && sim_rnd(2) : sim_rnd(2)) { mask = 1 + sim_rnd(3); if (may_bad && sim_rnd(10) == 0) cabad = 1 + sim_rnd(2); ca = ca_file(mask, cabad); }
	void *data = al ? &list_ids[al] : NULL;
	const char *cap = mask ? ca.c_str() : NULL;
	c->server = srv; c->alpn = al;
	if (srv) {
		Cred r = cred(may_bad);
		int src = sim_rnd(4);
		if (src < 2) {
			std::string cf = r.bad == 1 ? "/nonexistent/cert" : file(r.c, 200), kf = r.bad == 5 ? "/nonexistent/key" : file(r.k, 210);
			kgl_ref_str_t a = sref(cf), b = sref(kf);
			c->x = src ? kgl_ssl_ctx_new_server2(&a, &b, NULL, cap, data) : kgl_ssl_ctx_new_server(cf.c_str(), kf.c_str(), NULL, cap, data);
		} else if (src == 2) {
			if (r.bad == 1 || r.bad == 5) r.bad = 0;
			std::string m1 = "data:" + r.c, m2 = "data:" + r.k;
			kgl_ref_str_t a = sref(m1), b = sref(m2);
			c->x = kgl_ssl_ctx_new_server2(&a, &b, NULL, cap, data);
		} else {	// both in one place
			if (r.bad == 1) r.bad = 5;
			std::string both = sim_rnd(2) ? r.c + r.k : r.k + r.c, empty;
			bool mem = r.bad != 5 && sim_rnd(2);
			std::string kf = mem ? "data:" + both : r.bad == 5 ? "/nonexistent/key" : file(both, 200);
			kgl_ref_str_t a = sref(empty), b = sref(kf);
			bool null = sim_rnd(2);
			if (!mem && sim_rnd(2)) c->x = kgl_ssl_ctx_new_server(null ? NULL : "", kf.c_str(), NULL, cap, data);
			else c->x = kgl_ssl_ctx_new_server2(null ? NULL : &a, &b, NULL, cap, data);
		}
		trim(c->x, c, extra);
		sim_raw("{\"e\":\"mk\",\"x\":%d,\"srv\":1,\"cert\":%d,\"key\":%d,\"chain\":%s,\"bad\":%d,\"trust\":%s,\"cabad\":%d,\"al\":%s,\"npn\":0,\"ok\":%d%s}", nx, r.cert, r.key, js(r.chain).c_str(), r.bad, js(set_of(mask)).c_str(), cabad, js(lists[al]).c_str(), c->x != NULL, extra.c_str());
	} else {
		int np = npn_run && sim_rnd(2) ? 1 + sim_rnd(5) : 0;
		if (np) { al = 0; data = NULL; }
		c->x = kgl_ssl_ctx_new_client(NULL, cap, data);
		trim(c->x, c, extra);
#ifdef TLSEXT_TYPE_next_proto_neg
		if (np && c->x) SSL_CTX_set_next_proto_select_cb(c->x, [](SSL *, unsigned char **o, unsigned char *ol, const unsigned char *in, unsigned il, void *a) { const std::string &w = wire[*(int *)a]; SSL_select_next_proto(o, ol, in, il, (const unsigned char *)w.data(), w.size()); return SSL_TLSEXT_ERR_OK; }, &list_ids[np]);
#endif
		sim_raw("{\"e\":\"mk\",\"x\":%d,\"srv\":0,\"cert\":-1,\"key\":-1,\"chain\":[],\"bad\":0,\"trust\":%s,\"cabad\":%d,\"al\":%s,\"npn\":%d,\"ok\":%d%s}", nx, js(set_of(mask)).c_str(), cabad, js(np ? lists[np] : al == UNSET ? lists[0] : lists[al]).c_str(), np != 0, c->x != NULL, extra.c_str());
	}
	files_close();
	c->usable = c->x != NULL;
	ERR_clear_error();
	nx++;
	return c->usable;
}
// another certificate for a context that is there
static void own(int i)
{
	Ctx *c = &ctx[i]; Cred r = cred(true);
	if (r.bad == 1 && sim_rnd(2)) r.bad = 5;
	bool same = r.bad != 1 && sim_rnd(3) == 0;
	std::string cf = same ? "" : r.bad == 1 ? "/nonexistent/cert" : file(r.c, 200), kf = r.bad == 5 ? "/nonexistent/key" : (same ? file(sim_rnd(2) ? r.c + r.k : r.k + r.c, 200) : file(r.k, 210));
	bool ok = kgl_ssl_ctx_load_cert_key(c->x, same && sim_rnd(2) ? NULL : cf.c_str(), kf.c_str());
	sim_raw("{\"e\":\"own\",\"x\":%d,\"cert\":%d,\"key\":%d,\"chain\":%s,\"bad\":%d,\"ok\":%d}", i, r.cert, r.key, js(r.chain).c_str(), r.bad, ok);
	files_close(); ERR_clear_error();
	if (!ok) c->usable = false;
}
static int any_ctx(bool srv) { int i = sim_rnd(nx); for (int k = 0; k < nx; k++, i = (i + 1) % nx) if (ctx[i].usable && ctx[i].server == srv) return i; return -1; }
// connections: each group has one at a time
struct G { int busy, tab, obj, srv_done, left; char name[32]; SSL_SESSION *sess; int sctx, snamed; };
static struct G gs[NG];
static void *create_sni(KOPAQUE data, const char *host, SSL_CTX **x)
{
	int g = -1;
	if (data != (KOPAQUE)&gs || sscanf(host, "s%d.", &g) != 1 || g < 0 || g >= NG || strcmp(host, gs[g].name)) { sim_raw("{\"e\":\"bad\"}"); return NULL; }
	sim_atomic_begin();
	int o = gs[g].obj ? ++nsnis : 0;
	sim_raw("{\"e\":\"ask\",\"g\":%d,\"o\":%d}", g, o);
	sim_atomic_end();
	if (gs[g].tab >= 0) *x = ctx[gs[g].tab].x;
	return (void *)(long)o;
}
static void free_sni(void *o) { sim_atomic_begin(); sim_raw("{\"e\":\"drop\",\"o\":%d}", (int)(long)o); sim_atomic_end(); }
static int serve(void *arg, int)
{
	kconnection *c = (kconnection *)arg;
	int g = (ntohl(c->addr.v4.sin_addr.s_addr) >> 8 & 255) - 1; char b;
	int r = kfiber_ssl_handshake(c); SSL *s = c->st.ssl->ssl;
	X509 *x = r == 0 ? SSL_get0_peer_certificate(s) : NULL;
	sim_atomic_begin(); sim_raw("{\"e\":\"srv\",\"g\":%d,\"ok\":%d,\"cert\":%d,\"p\":%d,\"v\":%d}", g, r == 0, tls_cert_no(x), r == 0 ? proto_no(s) : -1, r == 0 ? ver_no(s) : 0); sim_atomic_end();
	if (r == 0 && kfiber_net_read(c, &b, 1) == 1) { if (sim_rnd(3) == 0) kfiber_msleep(sim_rnd(20)); kfiber_net_write(c, &b, 1); }
	if (r == 0 && sim_rnd(2)) kfiber_net_shutdown(c);
	gs[g].srv_done = 1;
	if (sim_rnd(3) == 0) kfiber_msleep(sim_rnd(60));
	sim_atomic_begin(); sim_raw("{\"e\":\"bye\",\"g\":%d}", g); sim_atomic_end();
	kfiber_net_close(c);
	gs[g].left = 1;
	__sync_sub_and_fetch(&handlers, 1);
	return 0;
}
KACCEPT_CALLBACK(on_accept)
{
	ATOMIC_INC(handlers);
	if (kfiber_create(serve, (kconnection *)arg, 0, 0, NULL)) abort();
	return kev_ok;
}
static int opened;
static int lfd = -1;	// one listening socket: among several the kernel would choose
static kev_result open_cb(KOPAQUE, void *, int) { opened = (lfd < 0 ? kserver_open(server, 0, on_accept) : kserver_open_exsit(server, lfd, on_accept)) ? 1 : 2; return kev_ok; }
static int is_int(void *p) { return *(int *)p; }
static void dial(int g, int ci, int named, int resume)
{
	struct G *q = &gs[g]; Ctx *c = &ctx[ci];
	sockaddr_i a, from; memset(&a, 0, sizeof a); memset(&from, 0, sizeof from);
	a.v4.sin_family = from.v4.sin_family = AF_INET;
	a.v4.sin_addr.s_addr = htonl(0x7f000001); a.v4.sin_port = htons(ksocket_addr_port((sockaddr_i *)&server->addr));
	from.v4.sin_addr.s_addr = htonl(0x7f000001 + ((g + 1) << 8));
	q->srv_done = q->left = 0; q->busy = 1; snprintf(q->name, sizeof q->name, "s%d.test", g);
	resume = resume && q->sess && q->sctx == ci && q->snamed == named;
	sim_atomic_begin(); sim_raw("{\"e\":\"try\",\"g\":%d,\"c\":%d,\"nm\":%d,\"tab\":%d,\"obj\":%d,\"res\":%d}", g, ci, named, q->tab, q->obj, resume); sim_atomic_end();
	kconnection *cn = kconnection_new(&a);
	int r = kfiber_net_connect(cn, &from, 0);
	if (r != 0) abort();
	if (!kconnection_ssl_connect(cn, c->x, named ? q->name : NULL)) abort();
	SSL *s = cn->st.ssl->ssl;
	if (resume) SSL_set_session(s, q->sess);
	r = kfiber_ssl_handshake(cn);
	s = cn->st.ssl->ssl;
	std::vector<short> ch;
	STACK_OF(X509) *st = r == 0 ? SSL_get_peer_cert_chain(s) : NULL;
	for (int i = 1; st && i < sk_X509_num(st); i++) ch.push_back(tls_cert_no(sk_X509_value(st, i)));
	sim_atomic_begin(); sim_raw("{\"e\":\"cli\",\"g\":%d,\"ok\":%d,\"cert\":%d,\"chain\":%s,\"p\":%d,\"v\":%d,\"ci\":%d,\"re\":%d}", g, r == 0, r == 0 ? tls_cert_no(SSL_get0_peer_certificate(s)) : -1, js(ch).c_str(), r == 0 ? proto_no(s) : -1, r == 0 ? ver_no(s) : 0, r == 0 ? cipher_no(s) : -1, r == 0 ? SSL_session_reused(s) : 0); sim_atomic_end();
	char b = 'x', d = 0; int ok = 0;
	if (r == 0) {
		ok = kfiber_net_write(cn, &b, 1) == 1 && kfiber_net_read(cn, &d, 1) == 1 && d == b;
		sim_atomic_begin(); sim_raw("{\"e\":\"xch\",\"g\":%d,\"ok\":%d}", g, ok); sim_atomic_end();
		if (ok) {
			if (q->sess) SSL_SESSION_free(q->sess);
			q->sess = SSL_SESSION_dup(SSL_get_session(s)); q->sctx = ci; q->snamed = named;
			if (q->sess && !SSL_SESSION_is_resumable(q->sess)) { SSL_SESSION_free(q->sess); q->sess = NULL; }
			if (sim_rnd(2)) kfiber_net_shutdown(cn);
		}
	}
	kfiber_net_close(cn);
	for (int i = 0; i < 4000 && !q->left; i++) kfiber_msleep(5);
	q->busy = 0;
}
static int table_ok;
static int client(void *arg, int g)
{
	struct G *q = &gs[g];
	for (int n = 1 + sim_rnd(3); n > 0; n--) {
		int ci = q->sess && sim_rnd(3) ? q->sctx : any_ctx(false);
		int t = table_ok && sim_rnd(2) ? any_ctx(true) : -1;
		if (!q->sess || sim_rnd(3) == 0 || (q->tab >= 0 && !ctx[q->tab].usable)) { q->tab = t; q->obj = sim_rnd(4) != 0; }
		dial(g, ci, q->sess && sim_rnd(4) ? q->snamed : sim_rnd(4) != 0, sim_rnd(4) != 0);
	}
	__sync_sub_and_fetch(&clients_left, 1);
	return 0;
}
static int none_left(void *) { return clients_left == 0; }
static int no_handler(void *) { return handlers == 0; }
static void setdef(int i)
{
	dflt = i; SSL_CTX_up_ref(ctx[i].x);
	sim_raw("{\"e\":\"def\",\"x\":%d}", i);
	kserver_set_ssl_ctx(server, kgl_new_ssl_ctx(ctx[i].x));
}
static void xnew(void *, void *, CRYPTO_EX_DATA *, int, long, void *) { ATOMIC_INC(live_x); }
static void xfre(void *, void *, CRYPTO_EX_DATA *, int, long, void *) { __sync_sub_and_fetch(&live_x, 1); }
static void cnew(void *, void *, CRYPTO_EX_DATA *, int, long, void *) { ATOMIC_INC(live_c); }
static void cfre(void *, void *, CRYPTO_EX_DATA *, int, long, void *) { __sync_sub_and_fetch(&live_c, 1); }
SCENARIO(tlsconf)
{
	int nsel = 1 + sim_rnd(2), needs = sim_rnd(2);
	sni_on = sim_rnd(4) != 0; reject = sim_rnd(3) == 0; table_ok = !needs; npn_run = sim_rnd(3) == 0;
	sim_cfgjson("{\"sni\":%d,\"reject\":%d}", sni_on, reject);
	boot(nsel);
	selector_manager_set_timeout(30, 30);
	sim_io_faults = sim_rnd(2); sim_net_grace_ms = 200; sim_connect_sync = 1;
	tls_setup(sim_rand());
	for (int i = 0; i < 6; i++) for (short p : lists[i]) { wire[i] += (char)strlen(pname[p]); wire[i] += pname[p]; }
	kssl_set_sni_callback(sni_on ? create_sni : NULL, sni_on ? free_sni : NULL);
	kssl_set_npn_callback(npn);
	X509_get_ex_new_index(0, NULL, xnew, NULL, xfre);
	SSL_CTX_get_ex_new_index(0, NULL, cnew, NULL, cfre);
	net_begin();
	for (int i = 1 + sim_rnd(3); i > 0; i--) make(true, true, needs);
	while (any_ctx(true) < 0) if (nx > NX - 4) { nx = 0; break; } else make(true, false, needs);
	for (int i = 1 + sim_rnd(2); nx && i > 0; i--) make(false, sim_rnd(3) == 0, false);
	while (nx && any_ctx(false) < 0) if (nx > NX - 2) { nx = 0; break; } else make(false, false, false);
	if (nx) {
		for (int i = 0; i < nx; i++) if (ctx[i].usable && (ctx[i].server ? sim_rnd(6) == 0 : needs && sim_rnd(3))) { own(i); }
		if (any_ctx(true) >= 0 && any_ctx(false) >= 0) {
			server = kserver_init();
			kserver_set_opaque(server, NULL, (KOPAQUE)&gs);
			if (reject) KBIT_SET(server->flags, KGL_SERVER_REJECT_NOSNI);
			dflt = any_ctx(true); SSL_CTX_up_ref(ctx[dflt].x);
			sim_raw("{\"e\":\"def\",\"x\":%d}", dflt);
			if (nsel == 1) {
				if (!kserver_bind(server, "127.0.0.1", 0, kgl_new_ssl_ctx(ctx[dflt].x))) abort();
			} else {
				sockaddr_i a; memset(&a, 0, sizeof a); a.v4.sin_family = AF_INET; a.v4.sin_addr.s_addr = htonl(0x7f000001);
				lfd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
				if (bind(lfd, (struct sockaddr *)&a, sizeof a.v4) || listen(lfd, 64)) abort();
				kserver_set_ssl_ctx(server, kgl_new_ssl_ctx(ctx[dflt].x));
			}
			kgl_selector_module.next(get_selector_by_index(sim_rnd(nsel)), NULL, open_cb, NULL, 0);
			sim_wait(is_int, &opened, -1);
			for (int i = 0; i < NG; i++) { gs[i].tab = -1; gs[i].obj = sim_rnd(2); }
			for (int phase = 1 + sim_rnd(3); phase > 0; phase--) {
				int n = 1 + sim_rnd(NG);
				clients_left = n;
				for (int g = 0; g < n; g++) kfiber_create2(get_selector_by_index(sim_rnd(nsel)), client, NULL, g, 0, NULL);
				sim_wait(none_left, NULL, 200000); sim_wait(no_handler, NULL, 60000);
				if (phase > 1) {
					int i = ctx[dflt].usable && sim_rnd(2) ? dflt : any_ctx(true);
					if (sim_rnd(3)) own(i);
					if (any_ctx(true) < 0) break;
					if (!ctx[dflt].usable || sim_rnd(2)) { setdef(any_ctx(true)); sim_quiesce(50); }
				}
			}
			kserver_close(server); kserver_release(server);
			sim_quiesce(300);
		}
	}
	for (int i = 0; i < NG; i++) if (gs[i].sess) SSL_SESSION_free(gs[i].sess);
	for (int i = 0; i < NX; i++) if (ctx[i].x) SSL_CTX_free(ctx[i].x);
	sim_wait(tls_none, NULL, 1000);
	sim_raw("{\"e\":\"left\",\"ssl\":%d,\"x509\":%d,\"ctx\":%d}", tls_live, live_x, live_c);
	net_end(nsel, 0, true);
}
