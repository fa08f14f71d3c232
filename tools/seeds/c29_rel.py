import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c29-release-looks-twice'; PROP='C29'
NEEDS='two threads that drop the last two references of a shared string at the same moment'
BREAKS='the count is read again after it was decremented, so that both see zero and both free the string'
EDITS=[('include/kstring.h','''	if (katom_dec((void*)&s->ref) == 0) {
		if (s->data) {''','''	katom_dec((void*)&s->ref);
	if (katom_get((void*)&s->ref) == 0) {
		if (s->data) {''')]
DEMO=PRE+'''
#include "kstring.h"
#include <pthread.h>
// frees are only counted, so that a second one is seen
static int frees;
extern "C" void __real_free(void *);
static kgl_ref_str_t *volatile s; static pthread_barrier_t b;
static char *mem; static kgl_ref_str_t obj;
static void *run(void *)
{
	for (int i = 0; i < 300000; i++) {
		pthread_barrier_wait(&b);
		kstring_release(s);
		pthread_barrier_wait(&b);
	}
	return NULL;
}
extern "C" void free(void *p) { if (p == (void *)&obj) __sync_fetch_and_add(&frees, 1); }
int main()
{
	alarm(200);
	pthread_t t[2]; pthread_barrier_init(&b, NULL, 3);
	for (int i = 0; i < 2; i++) pthread_create(&t[i], NULL, run, NULL);
	for (int i = 0; i < 300000; i++) {
		obj.ref = 2; obj.data = NULL; obj.len = 0; s = &obj; frees = 0;
		pthread_barrier_wait(&b);
		pthread_barrier_wait(&b);
		CHECK(frees == 1);
	}
	_exit(0);
}
'''
