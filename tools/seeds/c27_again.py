import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c27-object-without-context'; PROP='C27'
NEEDS='a name callback that gives an object but leaves the listener\'s context'
BREAKS='what the callback returned is not remembered and never released (and the callback is asked again for the protocol)'
EDITS=[('src/kgl_ssl.c','''	c->sni = kgl_ssl_create_sni(kserver_get_opaque(c->server), servername, &ssl_ctx);
	if (ssl_ctx) {
		SSL_set_SSL_CTX(ssl, ssl_ctx);
	}
''','''	void* sni = kgl_ssl_create_sni(kserver_get_opaque(c->server), servername, &ssl_ctx);
	if (ssl_ctx) {
		c->sni = sni;
		SSL_set_SSL_CTX(ssl, ssl_ctx);
	}
''')]
SETUP='''
#include <openssl/ssl.h>
#include "kserver.h"
static volatile int done; static kserver *srv;
static void move(SSL *s, BIO *in, BIO *out, int peer)
{
	char b[16384]; int n;
	while ((n = BIO_read(out, b, sizeof(b))) > 0) CHECK(send(peer, b, n, MSG_NOSIGNAL) == n);
	kfiber_msleep(50);
	while ((n = recv(peer, b, sizeof(b), MSG_DONTWAIT)) > 0) BIO_write(in, b, n);
}
static kconnection *c;
static int server(void *, int)
{
	CHECK(kfiber_ssl_handshake(c) == 0);
	char b[8]; kfiber_net_read(c, b, sizeof(b));
	kfiber_net_close(c);
	done = 1;
	return 0;
}
'''
DEMO=PRE+SOCK+SETUP+'''
static int created, freed;
static void *create_sni(void *, const char *name, SSL_CTX **ctx) { if (strcmp(name, "a.test")) return NULL; created++; return &created; }
static void free_sni(void *) { freed++; }
static int main_fiber(void *, int)
{
	alarm(10); kssl_init(NULL, create_sni, free_sni);
	CHECK(system("openssl req -x509 -newkey rsa:2048 -nodes -keyout k.pem -out c.pem -subj /CN=x -days 2 >/dev/null 2>&1") == 0);
	SSL_CTX *sx = kgl_ssl_ctx_new_server("c.pem", "k.pem", NULL, NULL, NULL);
	CHECK(sx);
	srv = kserver_init();
	int peer; c = conn_pair(&peer);
	c->server = srv; kserver_refs(srv);
	CHECK(kconnection_ssl_accept(c, sx));
	kfiber_create(server, NULL, 0, 0, NULL);
	SSL_CTX *cx = SSL_CTX_new(TLS_client_method()); SSL *s = SSL_new(cx);
	BIO *in = BIO_new(BIO_s_mem()), *out = BIO_new(BIO_s_mem());
	BIO_set_mem_eof_return(in, -1);
	SSL_set_tlsext_host_name(s, "a.test");
	SSL_set_bio(s, in, out); SSL_set_connect_state(s);
	for (int i = 0; i < 20 && SSL_do_handshake(s) != 1; i++) move(s, in, out, peer);
	CHECK(SSL_is_init_finished(s));
	move(s, in, out, peer);
	close(peer);
	for (int i = 0; i < 40 && !done; i++) kfiber_msleep(50);
	CHECK(done); CHECK(created == 1); CHECK(freed == 1);
	_exit(0);
}
int main() { kasync_main(main_fiber, NULL, 0); return 0; }
'''
