#ifndef COMMON_H
#define COMMON_H
#include "simrt.h"
#include "kfeature.h"
#include "kfiber.h"
#include "kfiber_sync.h"
#include "kselector.h"
#include "kselector_manager.h"
#include "kthread.h"
#include "kasync_worker.h"
#include "ksync.h"
#include "kmalloc.h"
#include "kserver.h"
#include "kconnection.h"
#include "ksocket.h"
#include "kaddr.h"
#include "kudp.h"
#include "kbuf.h"
#include "krbtree.h"
#include "kgl_ssl.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define ATOMIC_INC(x) __sync_add_and_fetch(&(x), 1)
// selectors run on pool threads; the calling thread stays outside
// one loop may also be turned by a thread of the program itself
static void *own_loop(void *) { kselector_step_init(0); for (;;) kselector_step(0); return NULL; }
static inline void boot(int nsel, bool timer = false, bool own = true)
{
	kasync_init();
	selector_manager_init(nsel, timer);
	if (own && nsel == 1 && sim_rnd(4) == 0) {
		pthread_t t; pthread_create(&t, NULL, own_loop, NULL); pthread_detach(t);
	} else selector_manager_start(NULL, true);
	sim_quiesce(0);
}
#endif
