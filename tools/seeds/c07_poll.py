import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c07-poll-reads-before-lock'; PROP='C07'
NEEDS='two threads polling an auto-reset condition at the moment of one notice'
BREAKS='both polls succeed: one notice releases two waiters'
EDITS=[('include/ksync.h','''	return WaitForSingleObject(cond, msec) == WAIT_OBJECT_0;
#else
	kmutex_lock(&cond->mutex);
	if (cond->ev) {
''','''	return WaitForSingleObject(cond, msec) == WAIT_OBJECT_0;
#else
	bool ev = *(volatile bool *)&cond->ev;
	kmutex_lock(&cond->mutex);
	if (ev) {
''')]
DEMO=PRE+'''
#include <sched.h>
#include <time.h>
static kcond *c; static volatile int go, arrived, taken, quit;
static void *th(void *)
{
	int r = 0;
	for (;;) {
		r++;
		for (int i = 0; go < r && !quit; i++) if (i > 500) sched_yield();
		if (quit) return NULL;
		if (kcond_try_wait(c, 0)) __sync_add_and_fetch(&taken, 1);
		__sync_add_and_fetch(&arrived, 1);
	}
}
int main()
{
	kasync_init();
	c = kcond_init(true);
	pthread_t t[3];
	time_t end = time(NULL) + 10;
	for (int i = 0; i < 3; i++) pthread_create(&t[i], NULL, th, NULL);
	for (int r = 1; r <= 1000000 && time(NULL) < end; r++) {
		taken = 0; arrived = 0;
		kcond_notice(c);
		go = r;
		for (int i = 0; arrived < 3; i++) if (i > 500) sched_yield();
		CHECK(taken == 1);
	}
	_exit(0);
}
'''
