import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c26-connect-waits-like-a-read'; PROP='C26'
NEEDS='a time limit for connecting shorter than the one for reading and writing, and a peer that never answers'
BREAKS='a connection attempt is given the time of a read: it does not end at the limit for connecting'
EDITS=[('src/kepoll_selector.c','	kselector_add_list(selector,st,KGL_LIST_CONNECT);\n	return true;\n','	kselector_add_list(selector,st,KGL_LIST_RW);\n	return true;\n')]
DEMO=PRE+SOCK+'''
static int main_fiber(void *, int)
{
	alarm(30);
	kselector *s = kgl_get_tls_selector();
	s->timeout[KGL_LIST_CONNECT] = 1000; s->timeout[KGL_LIST_RW] = 12000;
	int l = socket(AF_INET, SOCK_STREAM, 0); sockaddr_i a; memset(&a, 0, sizeof(a));
	a.v4.sin_family = AF_INET; a.v4.sin_addr.s_addr = htonl(0x7f000001);
	CHECK(bind(l, (struct sockaddr *)&a, sizeof(struct sockaddr_in)) == 0 && listen(l, 0) == 0);
	socklen_t n = sizeof(a); getsockname(l, (struct sockaddr *)&a, &n);
	for (int i = 0; i < 4; i++) { int f = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); connect(f, (struct sockaddr *)&a, sizeof(struct sockaddr_in)); }
	kfiber_msleep(50);
	kconnection *c = kconnection_new(&a);
	int64_t t = real_ms();
	int r = kfiber_net_connect(c, NULL, 0);
	CHECK(r < 0);
	CHECK(real_ms() - t < 6000);
	_exit(0);
}
'''+MAIN
