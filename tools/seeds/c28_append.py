import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c28-append-from-where-it-was'; PROP='C28'
NEEDS='two handles that append to one file in turns'
BREAKS='an appending handle writes where the end was when it was opened, over what the other one added'
EDITS=[('src/kfile.c','		f |= O_WRONLY | O_APPEND | O_CREAT;','		f |= O_WRONLY | O_CREAT;'),
('src/kfile.c','	return open(path, f , 0644);','''	int fd = open(path, f, 0644);
	if (fd >= 0 && model == fileAppend) {
		lseek(fd, 0, SEEK_END);
	}
	return fd;''')]
DEMO=PRE+'''
#include "kfile.h"
int main()
{
	FILE_HANDLE a = kfopen("log", fileAppend, 0), b = kfopen("log", fileAppend, 0);
	CHECK(a >= 0 && b >= 0);
	CHECK(kfwrite(a, "one", 3) == 3); CHECK(kfwrite(b, "two", 3) == 3); CHECK(kfwrite(a, "six", 3) == 3);
	CHECK(kfsize(a) == 9);
	kfclose(a); kfclose(b);
	FILE_HANDLE r = kfopen("log", fileRead, 0); char t[10] = "";
	CHECK(kfread_all(r, t, 9)); CHECK(!memcmp(t, "onetwosix", 9));
	return 0;
}
'''
