import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c30-last-answer-wins'; PROP='C30'
NEEDS='two ticks on one loop, where the one registered later answers with a longer time'
BREAKS='the loop sleeps as long as the last positive answer says: a tick that asked to be called soon is called late'
EDITS=[('src/kselector.c','if (next_event_time > 0 && next_event_time < min_event_time) {','if (next_event_time > 0 && next_event_time < SELECTOR_TMO_MSEC) {')]
DEMO=PRE+'''
#include <time.h>
static long ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000 + t.tv_nsec / 1000000; }
static int soon, late;
static int soon_cb(void *, int) { soon++; return 10; }
static int late_cb(void *, int) { late++; return 90; }
static int main_fiber(void *, int)
{
	kselector_register_tick(kselector_new_tick(soon_cb, NULL));
	kselector_register_tick(kselector_new_tick(late_cb, NULL));
	long from = ms();
	kfiber_msleep(2000);
	long took = ms() - from;
	CHECK(took < 20000);
	CHECK(soon >= 40);
	CHECK(late >= 40);
	_exit(0);
}
int main()
{
	kasync_init();
	selector_manager_init(1, true);
	kfiber_create2(get_selector_by_index(0), main_fiber, NULL, 0, 0, NULL);
	selector_manager_start(NULL, false);
	return 0;
}
'''
