import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c17-error-moves-position'; PROP='C17'
NEEDS='a read or write that fails, followed by more use of the same file'
BREAKS='the error code is added to the position: the next transfer starts at the wrong place'
EDITS=[('src/kfiber.c','	if (length > 0) {\n		file->st.offset += length;\n	}\n	kfiber* fiber = (kfiber*)data;','	file->st.offset += length;\n	kfiber* fiber = (kfiber*)data;')]
DEMO=PRE+'''
#include <fcntl.h>
static int main_fiber(void *, int)
{
	char b[32]; memset(b, 0, sizeof(b));
	int fd = open("f", O_CREAT | O_RDWR, 0600);
	CHECK(write(fd, "abcdefghijklmnop", 16) == 16);
	close(fd);
	kfiber_file *f = kfiber_file_open("f", fileRead, 0);
	CHECK(f);
	CHECK(kfiber_file_read(f, b, 5) == 5 && !memcmp(b, "abcde", 5));
	CHECK(kfiber_file_read(f, (char *)16, 5) < 0);
	CHECK(kfiber_file_read(f, b, 5) == 5 && !memcmp(b, "fghij", 5));
	_exit(0);
}
'''+MAIN
