import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c24-truncated-length'; PROP='C24'
NEEDS='a datagram longer than the buffer it is read into'
BREAKS='the length of the whole datagram is returned although only a part of it was stored'
EDITS=[('src/kselectable.c','	return recvmsg(st->fd, &msg, 0);\n','	return recvmsg(st->fd, &msg, MSG_TRUNC);\n')]
DEMO=PRE+SOCK+'''
static int main_fiber(void *, int)
{
	alarm(10);
	sockaddr_i a; CHECK(ksocket_getaddr("127.0.0.1", 0, AF_INET, AI_NUMERICHOST, &a));
	kconnection *u = kudp_new(0);
	CHECK(u && kudp_bind(u, &a));
	socklen_t l = sizeof(u->addr); sockaddr_i me; l = sizeof(me);
	CHECK(getsockname(u->st.fd, (struct sockaddr *)&me, &l) == 0);
	int s = socket(AF_INET, SOCK_DGRAM, 0); char big[500]; memset(big, 'x', sizeof(big));
	CHECK(sendto(s, big, 500, 0, (struct sockaddr *)&me, sizeof(struct sockaddr_in)) == 500);
	char b[100];
	int n = kfiber_net_read(u, b, sizeof(b));
	CHECK(n == 100);
	_exit(0);
}
'''+MAIN
