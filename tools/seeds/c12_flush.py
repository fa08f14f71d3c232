import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c12-idle-mark-outside-lock'; PROP='C12'
NEEDS='a pool thread is reused between putting itself on the idle list and going to sleep'
BREAKS='the idle thread clears its command after releasing the lock, erasing a start command: the job is lost and counted as working for ever'
EDITS=[('src/kthread.c','''		m_thread->cmd = kthread_command_null;
		work_thread_count--;
		free_thread_count++;
		klist_append(&free_threads, &m_thread->queue);
		kmutex_unlock(&thread_lock);
''','''		work_thread_count--;
		free_thread_count++;
		klist_append(&free_threads, &m_thread->queue);
		kmutex_unlock(&thread_lock);
		m_thread->cmd = kthread_command_null;
''')]
DEMO=PRE+'''
#include <dlfcn.h>
static volatile int ran, slow;
static __thread int in_pool;
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m)
{
	static int (*real)(pthread_mutex_t *);
	if (!real) real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	int r = real(m);
	if (slow && in_pool) usleep(100000);	// stretch the window after each unlock in a pool thread
	return r;
}
static KTHREAD_FUNCTION job(void *) { in_pool = 1; __sync_add_and_fetch(&ran, 1); KTHREAD_RETURN; }
int main()
{
	kasync_init();
	slow = 1;
	CHECK(kthread_pool_start(job, NULL));
	for (int i = 0; i < 3; i++) {
		int w = 1, f = 0;
		while (f == 0) { kthread_get_count(&w, &f); usleep(1000); }
		CHECK(kthread_pool_start(job, NULL));
		usleep(400000);
		CHECK(ran == i + 2);
	}
	_exit(0);
}
'''
