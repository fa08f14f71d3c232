import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c06-callback-wait-keeps-notice'; PROP='C06'
NEEDS='a notice that arrives before a callback wait on a thread-safe auto-reset condition, followed by another wait'
BREAKS='the callback wait does not use up the notice, so one notice releases two waits'
EDITS=[('src/kfiber_sync.c','''	if (fc->ev > 0) {
		fc->ev--;
		kmutex_unlock(&fcs->lock);
		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, 0);''','''	if (fc->ev > 0) {
		if (fc->waiter) fc->ev--;
		kmutex_unlock(&fcs->lock);
		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, 0);''')]
DEMO=PRE+'''
static int cbs;
static kev_result cb(KOPAQUE, void *, int) { cbs++; return kev_ok; }
static int main_fiber(void *, int)
{
	kfiber_cond *c = kfiber_cond_init_ts(true);
	c->f->notice(c, 1);
	c->f->wait_callback(c, NULL, cb, NULL);
	kfiber_msleep(30);
	CHECK(cbs == 1);
	int got;
	CHECK(c->f->try_wait(c, &got) != 0);
	_exit(0);
}
'''+MAIN
