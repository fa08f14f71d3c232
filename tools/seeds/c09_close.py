import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c09-first-send-misses-waiting-receivers'; PROP='C09'
NEEDS='two receivers suspended on the channel and then two sends'
BREAKS='after the first of several suspended receivers is served the channel forgets that others wait, so a later send suspends or aborts'
EDITS=[('src/kfiber_sync.c','''		kfiber_waiter* waiter = ch->waiter;
		ch->waiter = waiter->next;
		if (ch->waiter == NULL) {
			ch->wait_flag = KFIBER_CHAN_NO_WAITER;
		}
		waiter->wait_obj = data;''','''		kfiber_waiter* waiter = ch->waiter;
		ch->waiter = waiter->next;
		if (ch->waiter == NULL || ch->ref > 1) {
			ch->wait_flag = KFIBER_CHAN_NO_WAITER;
			ch->waiter = NULL;
		}
		waiter->wait_obj = data;''')]
DEMO=PRE+'''
static kfiber_chan *C; static int got;
static int r(void *, int) { KOPAQUE d = NULL; if (kfiber_chan_recv(C, &d, NULL) == 0 && d) got++; return 0; }
static int s(void *, int) { kfiber_chan_send(C, (KOPAQUE)C); return 0; }
static int main_fiber(void *, int)
{
	C = kfiber_chan_create();
	kfiber_chan_add_ref(C);
	kfiber_create(r, NULL, 0, 0, NULL); kfiber_create(r, NULL, 0, 0, NULL);
	kfiber_msleep(20);
	kfiber_create(s, NULL, 0, 0, NULL); kfiber_create(s, NULL, 0, 0, NULL);
	kfiber_msleep(50);
	CHECK(got == 2);
	_exit(0);
}
'''+MAIN
