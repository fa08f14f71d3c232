import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c15-pending-write-untimed'; PROP='C15'
NEEDS='a write which stays pending over at least two reads, the last of them not followed by another read'
BREAKS='the connection leaves the timeout list with the read: the write which is still pending is never timed out'
EDITS=[('src/kselector.c','		if (KBIT_TEST(st_flags, STF_READ | STF_WRITE) &&\n','		if (KBIT_TEST(st_flags, STF_READ) &&\n')]
DEMO=PRE+SOCK+'''
static volatile int rd, wr;
static kev_result wcb(KOPAQUE, void *, int got) { wr++; return kev_ok; }
static char big[4000000], in[64];
static kgl_iovec wv, rv;
static kconnection *c;
static kgl_iovec rbuf, wbuf;
static kev_result rcb(KOPAQUE, void *, int)
{
	if (++rd < 3) return selectable_read(&c->st, rcb, &rbuf, NULL);
	return kev_ok;
}
static kev_result start(KOPAQUE, void *, int)
{
	rv.iov_base = in; rv.iov_len = sizeof(in); rbuf.iov_base = (char *)&rv; rbuf.iov_len = 1;
	wv.iov_base = big; wv.iov_len = sizeof(big); wbuf.iov_base = (char *)&wv; wbuf.iov_len = 1;
	selectable_read(&c->st, rcb, &rbuf, NULL);
	selectable_write(&c->st, wcb, &wbuf, NULL);
	return kev_ok;
}
static int main_fiber(void *, int)
{
	int peer;
	c = conn_pair(&peer);
	kgl_get_tls_selector()->timeout[KGL_LIST_RW] = 1500;
	int n; do { n = write(c->st.fd, big, 65536); } while (n > 0);
	kgl_selector_module.next(kgl_get_tls_selector(), NULL, start, NULL, 0);
	kfiber_msleep(300);
	CHECK(rd == 0 && wr == 0);
	for (int i = 1; i <= 3; i++) {
		CHECK(write(peer, "x", 1) == 1);
		kfiber_msleep(200);
		CHECK(rd == i && wr == 0);
	}
	kfiber_msleep(4000);
	CHECK(wr == 1);
	_exit(0);
}
'''+MAIN
