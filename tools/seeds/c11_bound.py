import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c11-jump-queue-bound'; PROP='C11'
NEEDS='jobs put at the front of a worker whose queue is full'
BREAKS='a job put at the front is not counted against the bound of the queue'
EDITS=[('src/kasync_worker.c','	if (worker->max_queue > 0 && worker->queue > worker->max_queue) {\n		kmutex_unlock(&worker->lock);\n		return false;','	if (worker->max_queue > 0 && !high && worker->queue > worker->max_queue) {\n		kmutex_unlock(&worker->lock);\n		return false;')]
DEMO=PRE+'''
static volatile int stop, ran;
static kev_result cb(void *, int) { while (!stop) usleep(1000); __sync_add_and_fetch(&ran, 1); return kev_ok; }
int main()
{
	kasync_init();
	kasync_worker *w = kasync_worker_init(1, 2);
	int ok = 0;
	for (int i = 0; i < 20; i++) if (kasync_worker_try_start(w, NULL, cb, i % 2 == 1)) ok++;
	CHECK(ok < 6);
	stop = 1;
	for (int i = 0; i < 100 && ran < ok; i++) usleep(20000);
	CHECK(ran == ok);
	_exit(0);
}
'''
