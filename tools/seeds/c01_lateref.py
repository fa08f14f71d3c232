import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c01-holder-counted-after-start'; PROP='C01'
NEEDS='a fiber started on another loop that ends before the call which created it has returned'
BREAKS='the reference of the one who will join is only taken after the fiber was handed to its loop: a fiber that is quick to end is reclaimed before it can be joined'
EDITS=[('src/kfiber.c','''	if (ret_fiber) {
		fiber->base.ref++;
		*ret_fiber = fiber;
		fiber->close_cond = kfiber_cond_init_ts(false);
	}
	kfiber_wakeup2(selector, fiber, NULL, len);
	return 0;''','''	if (ret_fiber) {
		fiber->close_cond = kfiber_cond_init_ts(false);
	}
	kfiber_wakeup2(selector, fiber, NULL, len);
	if (ret_fiber) {
		katom_inc((void *)&fiber->base.ref);
		*ret_fiber = fiber;
	}
	return 0;''')]
DEMO=PRE+SOCK+'''
#include <sys/syscall.h>
static __thread int slow;
// the other loop is faster than the one which tells it
extern "C" ssize_t write(int fd, const void *b, size_t n)
{
	ssize_t r = syscall(SYS_write, fd, b, n);
	if (slow) usleep(50000);
	return r;
}
static int quick(void *, int got) { return got + 1; }
static int main_fiber(void *, int)
{
	alarm(20);
	int n = kfiber_get_count();
	for (int i = 0; i < 20; i++) {
		kfiber *f = NULL; int ret = -1;
		slow = i & 1;
		CHECK(kfiber_create2(get_selector_by_index(1), quick, NULL, 100 + i, 0, &f) == 0);
		slow = 0;
		CHECK(kfiber_join(f, &ret) == 0);
		CHECK(ret == 101 + i);
	}
	kfiber_msleep(300);
	CHECK(kfiber_get_count() == n);
	_exit(0);
}
'''+MAIN2
