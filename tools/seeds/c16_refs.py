import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c16-server-release-not-atomic'; PROP='C16'
NEEDS='two selectors (or threads) which let go of the same server at the same moment'
BREAKS='one of the two releases is lost: the server and its user data are never released'
EDITS=[('src/kserver.c','	if (katom_dec((void *)&server->refs) == 0) {\n','	if (--server->refs == 0) {\n')]
DEMO=PRE+'''
static volatile int freed, go; static kserver *s;
static void fr(KOPAQUE) { freed++; }
static void *th(void *) { while (!go) ; for (int i = 0; i < 300000; i++) kserver_release(s); return NULL; }
int main()
{
	kasync_init();
	s = kserver_init();
	kserver_set_opaque(s, fr, NULL);
	for (int i = 0; i < 1200000; i++) kserver_refs(s);
	pthread_t t[4];
	for (int i = 0; i < 4; i++) pthread_create(&t[i], NULL, th, NULL);
	go = 1;
	for (int i = 0; i < 4; i++) pthread_join(t[i], NULL);
	CHECK(freed == 0);
	kserver_release(s);
	CHECK(freed == 1);
	_exit(0);
}
'''
