import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c14-short-read-means-drained'; PROP='C14'
NEEDS='a peer whose last data and end of stream arrive together, read with a buffer larger than that data'
BREAKS='a short read is taken to mean that nothing more is there until the next event, but the end of the stream was announced with the data: the next read never ends'
EDITS=[('src/kselectable.c','''	//WSABUF bufs[MAX_IOVECT_COUNT];
	//int bc = buffer(st->data, arg, bufs, MAX_IOVECT_COUNT);
	//kassert(bufs[0].iov_len > 0);
	int got;
#ifdef KSOCKET_SSL
	if (selectable_is_ssl_handshake(st)) {
		kassert(st->ssl);
		got = kgl_ssl_readv(st->ssl, (kgl_iovec*)buffer->iov_base, buffer->iov_len);
	} else
#endif
		got = kgl_readv(st->fd, (kgl_iovec*)buffer->iov_base, buffer->iov_len);

	if (got >= 0) {
''','''	int got;
#ifdef KSOCKET_SSL
	if (selectable_is_ssl_handshake(st)) {
		kassert(st->ssl);
		got = kgl_ssl_readv(st->ssl, (kgl_iovec*)buffer->iov_base, buffer->iov_len);
	} else
#endif
	{
		kgl_iovec* iov = (kgl_iovec*)buffer->iov_base;
		got = kgl_readv(st->fd, iov, buffer->iov_len);
		if (got > 0 && buffer->iov_len == 1 && (size_t)got < (size_t)iov->iov_len) {
			//drained, save the next system call
			KBIT_CLR(st->base.st_flags, STF_RREADY);
		}
	}

	if (got >= 0) {
''')]
DEMO=PRE+SOCK+'''
static int main_fiber(void *, int)
{
	int peer; char buf[100];
	kconnection *c = conn_pair(&peer);
	alarm(8);
	CHECK(write(peer, "abc", 3) == 3);
	CHECK(kfiber_net_read(c, buf, sizeof(buf)) == 3);
	CHECK(write(peer, "defg", 4) == 4);
	close(peer);
	kfiber_msleep(50);
	CHECK(kfiber_net_read(c, buf, sizeof(buf)) == 4);
	CHECK(kfiber_net_read(c, buf, sizeof(buf)) == 0);
	_exit(0);
}
'''+MAIN
