import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c08-reader-backs-off'; PROP='C08'
NEEDS='a reader which arrives just as one writer takes the lock, with another writer spinning for it'
BREAKS='the reader counts itself in before it looks, which makes a held lock look free for a moment: two writers get in'
EDITS=[('include/ksync.h','''		if (katom_cas((void *)mutex, x, x + 1)) {
			//lock success
			break;
		}
	}
	return;
''','''		if ((int32_t)katom_inc((void *)mutex) > 0) {
			//lock success
			break;
		}
		//a writer was faster
		katom_dec((void *)mutex);
	}
	return;
''')]
DEMO=PRE+'''
static krw_mutex m; static volatile int writers, readers, stop;
static void *wr(void *) { while (!stop) { krw_mutex_wlock(&m); CHECK(__sync_add_and_fetch(&writers, 1) == 1); CHECK(readers == 0); for (volatile int i = 0; i < 20; i++) ; CHECK(__sync_sub_and_fetch(&writers, 1) == 0); krw_mutex_wunlock(&m); } return NULL; }
static void *rd(void *) { while (!stop) { krw_mutex_rlock(&m); __sync_add_and_fetch(&readers, 1); CHECK(writers == 0); __sync_sub_and_fetch(&readers, 1); krw_mutex_runlock(&m); } return NULL; }
int main()
{
	krw_mutex_init(&m);
	pthread_t t[8];
	for (int i = 0; i < 4; i++) { pthread_create(&t[i], NULL, wr, NULL); pthread_create(&t[4 + i], NULL, rd, NULL); }
	for (int i = 0; i < 50; i++) { usleep(100000); }
	stop = 1;
	usleep(50000);
	_exit(0);
}
'''
