import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c04-try-bound-ignores-waiters'; PROP='C04'
NEEDS='a bounded try-lock while another fiber already waits behind the holder'
BREAKS='the bound of kfiber_mutex_try_lock counts only holders, so a try-lock waits although holders plus waiters reached the bound'
EDITS=[('include/kfiber_sync.h','if (max > 0 && mutex->count >= max) {','if (max > 0 && mutex->worker >= max) {')]
DEMO=PRE+'''
static kfiber_mutex *M; static int tried, res = 99;
static int waiter(void *, int) { kfiber_mutex_lock(M); kfiber_mutex_unlock(M); return 0; }
static int trier(void *, int) { res = kfiber_mutex_try_lock(M, 2); tried = 1; return 0; }
static int main_fiber(void *, int)
{
	M = kfiber_mutex_init();
	kfiber_mutex_lock(M);
	kfiber *a, *b;
	kfiber_create(waiter, NULL, 0, 0, &a);
	kfiber_msleep(20);
	kfiber_create(trier, NULL, 0, 0, &b);
	kfiber_msleep(50);
	CHECK(tried && res != 0);
	_exit(0);
}
'''+MAIN
