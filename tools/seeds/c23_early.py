import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c23-data-behind-finished'; PROP='C23'
NEEDS='application data that arrives together with the last message of the handshake'
BREAKS='the connection is marked as drained when the handshake is done: the data behind it is not seen until more arrives'
EDITS=[('src/kconnection.c','	case ret_ok:\n		return cb(st->data, arg, 1);\n	case ret_want_read:\n#ifndef ENABLE_KSSL_BIO\n		selectable_clear_flags(st, STF_RREADY);\n#endif\n		return selectable_read(st, cb, NULL, arg);\n	case ret_want_write:\n#ifndef ENABLE_KSSL_BIO\n		selectable_clear_flags(st, STF_WREADY);\n#endif\n		return selectable_write(st, cb, NULL, arg);\n	default:\n		return cb(st->data, arg, -1);','	case ret_ok:\n#ifndef ENABLE_KSSL_BIO\n		//the handshake took what there was\n		selectable_clear_flags(st, STF_RREADY);\n#endif\n		return cb(st->data, arg, 1);\n	case ret_want_read:\n#ifndef ENABLE_KSSL_BIO\n		selectable_clear_flags(st, STF_RREADY);\n#endif\n		return selectable_read(st, cb, NULL, arg);\n	case ret_want_write:\n#ifndef ENABLE_KSSL_BIO\n		selectable_clear_flags(st, STF_WREADY);\n#endif\n		return selectable_write(st, cb, NULL, arg);\n	default:\n		return cb(st->data, arg, -1);')]
DEMO=PRE+SOCK+'''
#include <openssl/ssl.h>
static kconnection *c; static volatile int state; static char got[64];
static int server(void *, int)
{
	CHECK(kfiber_ssl_handshake(c) == 0);
	state = 1;
	int n = kfiber_net_read(c, got, sizeof(got));
	CHECK(n == 5 && !memcmp(got, "hello", 5));
	state = 2;
	return 0;
}
static void move(SSL *s, BIO *in, BIO *out, int peer)
{
	char b[16384]; int n;
	while ((n = BIO_read(out, b, sizeof(b))) > 0) CHECK(write(peer, b, n) == n);
	kfiber_msleep(50);
	while ((n = recv(peer, b, sizeof(b), MSG_DONTWAIT)) > 0) BIO_write(in, b, n);
}
static int main_fiber(void *, int)
{
	alarm(10); kssl_init(NULL, NULL, NULL);
	CHECK(system("openssl req -x509 -newkey rsa:2048 -nodes -keyout k.pem -out c.pem -subj /CN=x -days 2 >/dev/null 2>&1") == 0);
	SSL_CTX *sx = kgl_ssl_ctx_new_server("c.pem", "k.pem", NULL, NULL, NULL);
	CHECK(sx);
	int peer; c = conn_pair(&peer);
	CHECK(kconnection_ssl_accept(c, sx));
	kfiber_create(server, NULL, 0, 0, NULL);
	SSL_CTX *cx = SSL_CTX_new(TLS_client_method()); SSL *s = SSL_new(cx);
	SSL_CTX_set_min_proto_version(cx, TLS1_3_VERSION);
	BIO *in = BIO_new(BIO_s_mem()), *out = BIO_new(BIO_s_mem());
	BIO_set_mem_eof_return(in, -1);
	SSL_set_bio(s, in, out); SSL_set_connect_state(s);
	for (int i = 0; i < 20 && SSL_do_handshake(s) != 1; i++) move(s, in, out, peer);
	CHECK(SSL_is_init_finished(s));
	CHECK(SSL_write(s, "hello", 5) == 5);
	move(s, in, out, peer);
	for (int i = 0; i < 40 && state != 2; i++) kfiber_msleep(50);
	CHECK(state == 2);
	_exit(0);
}
int main() { kasync_main(main_fiber, NULL, 0); return 0; }
'''
