import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c10-distance-truncated'; PROP='C10'
NEEDS='a timer set weeks ahead, at a moment when another one is already overdue'
BREAKS='the distance between the two wraps around: the far timer sorts first and the overdue one (and every later one) never fires'
EDITS=[('src/kselector.c','int64_t result = brq->active_msec - tmp->active_msec;','int result = (int)(brq->active_msec - tmp->active_msec);')]
DEMO=PRE+SOCK+'''
static volatile int in_first, fired;
static kev_result near_cb(KOPAQUE, void *, int) { fired++; return kev_ok; }
static kev_result far_cb(KOPAQUE, void *, int) { CHECK(0); return kev_ok; }
static kev_result first(KOPAQUE, void *, int)
{
	kselector_add_timer(kgl_get_tls_selector(), near_cb, NULL, 5, NULL);
	in_first = 1;
	usleep(300000);
	return kev_ok;
}
static kev_result second(KOPAQUE, void *, int)
{
	kselector_add_timer(kgl_get_tls_selector(), far_cb, NULL, 0x7fffffff, NULL);
	return kev_ok;
}
static int main_fiber(void *, int)
{
	kselector *s = get_selector_by_index(1);
	for (int i = 0; i < 3; i++) {
		fired = 0; in_first = 0;
		kgl_selector_module.next(s, NULL, first, NULL, 0);
		while (!in_first) kfiber_msleep(5);
		kgl_selector_module.next(s, NULL, second, NULL, 0);
		int64_t t = real_ms();
		while (!fired && real_ms() - t < 5000) kfiber_msleep(20);
		CHECK(fired == 1);
	}
	_exit(0);
}
'''+MAIN2
