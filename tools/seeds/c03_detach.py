import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c03-notices-detached'; PROP='C03'
NEEDS='a notice posted between the read of the event counter and the detaching of the list'
BREAKS='the notice is detached with the others, but not counted: it is never delivered'
EDITS=[('include/kepoll_selector.h','''	while (value > 0) {
		kmutex_lock(&ast->lock);
		kselector_notice* notice = ast->head;
		kassert(notice != NULL);
		ast->head = notice->next;
		kmutex_unlock(&ast->lock);
		value--;
''','''	kmutex_lock(&ast->lock);
	kselector_notice* head = ast->head;
	ast->head = NULL;
	kmutex_unlock(&ast->lock);
	while (value > 0 && head) {
		kselector_notice* notice = head;
		head = notice->next;
		value--;
''')]
DEMO=PRE+'''
#define N 60000
static volatile int done; 
static kselector *sel;
static kev_result cb(KOPAQUE, void *, int) { done++; return kev_ok; }
static void *th(void *) { for (int i = 0; i < N; i++) kgl_selector_module.next(sel, NULL, cb, NULL, 0); return NULL; }
static int main_fiber(void *, int)
{
	sel = kgl_get_tls_selector();
	pthread_t t[4];
	for (int i = 0; i < 4; i++) pthread_create(&t[i], NULL, th, NULL);
	for (int i = 0; i < 100 && done < 4 * N; i++) kfiber_msleep(100);
	CHECK(done == 4 * N);
	_exit(0);
}
'''+MAIN
