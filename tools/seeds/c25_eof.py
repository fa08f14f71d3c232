import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c25-short-file-is-success'; PROP='C25'
NEEDS='a file that ends before the length that is to be sent'
BREAKS='the end of the file counts as success although not all was sent'
EDITS=[('include/kfiber.h','		int got = kfiber_sendfile(cn, fp, *len);\n		if (got <= 0) {\n			return false;\n		}\n','		int got = kfiber_sendfile(cn, fp, *len);\n		if (got <= 0) {\n			return got == 0;\n		}\n')]
DEMO=PRE+SOCK+'''
static int main_fiber(void *, int)
{
	int peer; kconnection *c = conn_pair(&peer); alarm(10);
	int fd = open("f", O_CREAT | O_RDWR, 0600);
	CHECK(write(fd, "0123456789", 10) == 10); close(fd);
	kfiber_file *f = kfiber_file_open("f", fileRead, 0); CHECK(f);
	int len = 6; CHECK(kfiber_sendfile_full(c, f, &len) && len == 0);
	len = 20; bool ok = kfiber_sendfile_full(c, f, &len);
	CHECK(!ok && len == 16);
	_exit(0);
}
'''+MAIN
