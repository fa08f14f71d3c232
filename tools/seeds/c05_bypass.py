import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c05-second-writer-forgotten'; PROP='C05'
NEEDS='two writers waiting at once, with the first of them releasing while no reader waits'
BREAKS='taking one writer from the waiting list drops the ones behind it: they stay suspended for ever'
EDITS=[('include/kfiber_sync.h','		mutex->writer = writer->next;\n','		mutex->writer = mutex->cnt < -1 ? writer->next : NULL;\n')]
DEMO=PRE+'''
static kfiber_rwlock *L; static int got;
static int w(void *, int) { kfiber_rwlock_wlock(L); got++; kfiber_rwlock_wunlock(L); return 0; }
static int main_fiber(void *, int)
{
	L = kfiber_rwlock_init();
	kfiber_rwlock_wlock(L);
	for (int i = 0; i < 3; i++) kfiber_create(w, NULL, 0, 0, NULL);
	kfiber_msleep(30);
	kfiber_rwlock_wunlock(L);
	kfiber_msleep(50);
	CHECK(got == 3);
	_exit(0);
}
'''+MAIN
