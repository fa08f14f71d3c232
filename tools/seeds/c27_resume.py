import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
sys.path.insert(0,"/verif/tools/seeds"); import c27_again
ID='c27-session-of-old-certificate'; PROP='C27'
NEEDS='a certificate file that is replaced by one of the same length within the second (or with its time kept) while clients hold sessions of the old one'
BREAKS='sessions made with the old certificate are resumed after the replacement'
EDITS=[('src/kgl_ssl.c','#include "kserver.h"\n','#include "kserver.h"\n#include <sys/stat.h>\n'),('src/kgl_ssl.c','''		char buffer[512];
		size_t total_read = 0;
		while (total_read < 1048576) {
			size_t read_len = fread(buffer, 1, sizeof(buffer), fp);
			if (read_len == 0) {
				break;
			}
			total_read += read_len;
			if (EVP_DigestUpdate(md, buffer, read_len) == 0) {
				klog(KLOG_ERR, "EVP_DigestUpdate() failed");
				break;
			}
		}
''','''		//size and time tell versions of a file apart
		struct stat buf_stat;
		if (fstat(fileno(fp), &buf_stat) == 0) {
			if (EVP_DigestUpdate(md, &buf_stat.st_size, sizeof(buf_stat.st_size)) == 0 || EVP_DigestUpdate(md, &buf_stat.st_mtime, sizeof(buf_stat.st_mtime)) == 0) {
				klog(KLOG_ERR, "EVP_DigestUpdate() failed");
			}
		}
''')]
DEMO=PRE+SOCK+c27_again.SETUP+'''
static SSL_SESSION *kept;
static int new_session(SSL *, SSL_SESSION *s) { if (kept) SSL_SESSION_free(kept); kept = s; return 1; }
static int once(SSL_CTX *sx, SSL_CTX *cx)	// was the session resumed?
{
	done = 0;
	int peer; c = conn_pair(&peer);
	c->server = srv; kserver_refs(srv);
	CHECK(kconnection_ssl_accept(c, sx));
	kfiber_create(server, NULL, 0, 0, NULL);
	SSL *s = SSL_new(cx);
	BIO *in = BIO_new(BIO_s_mem()), *out = BIO_new(BIO_s_mem());
	BIO_set_mem_eof_return(in, -1);
	if (kept) CHECK(SSL_set_session(s, kept));
	SSL_set_bio(s, in, out); SSL_set_connect_state(s);
	for (int i = 0; i < 20 && SSL_do_handshake(s) != 1; i++) move(s, in, out, peer);
	CHECK(SSL_is_init_finished(s));
	move(s, in, out, peer);
	char b[8]; SSL_read(s, b, sizeof(b));
	int r = SSL_session_reused(s);
	close(peer); SSL_set_shutdown(s, SSL_SENT_SHUTDOWN|SSL_RECEIVED_SHUTDOWN); SSL_free(s);
	for (int i = 0; i < 40 && !done; i++) kfiber_msleep(50);
	CHECK(done);
	return r;
}
static int main_fiber(void *, int)
{
	alarm(10); kssl_init(NULL, NULL, NULL);
	// two certificates of one key and (ECDSA with Ed25519) one length
	CHECK(system("openssl genpkey -algorithm ed25519 -out k.pem >/dev/null 2>&1 && openssl req -x509 -key k.pem -out c1.pem -subj /CN=x -days 2 -set_serial 0x1111 >/dev/null 2>&1 && openssl req -x509 -key k.pem -out c2.pem -subj /CN=y -days 2 -set_serial 0x2222 >/dev/null 2>&1 && test $(stat -c %s c1.pem) = $(stat -c %s c2.pem) && cp -p c1.pem c.pem") == 0);
	SSL_CTX *sx = kgl_ssl_ctx_new_server("c.pem", "k.pem", NULL, NULL, NULL);
	CHECK(sx);
	srv = kserver_init();
	SSL_CTX *cx = SSL_CTX_new(TLS_client_method());
	SSL_CTX_set_max_proto_version(cx, TLS1_2_VERSION);
	SSL_CTX_set_session_cache_mode(cx, SSL_SESS_CACHE_CLIENT);
	SSL_CTX_sess_set_new_cb(cx, new_session);
	CHECK(once(sx, cx) == 0);
	CHECK(once(sx, cx) == 1);
	CHECK(system("cp c2.pem c.pem && touch -r c1.pem c.pem") == 0);
	CHECK(kgl_ssl_ctx_load_cert_key(sx, "c.pem", "k.pem"));
	CHECK(once(sx, cx) == 0);
	_exit(0);
}
int main() { kasync_main(main_fiber, NULL, 0); return 0; }
'''
