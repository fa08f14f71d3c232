PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <errno.h>
#include "kfeature.h"
#include "kfiber.h"
#include "kfiber_sync.h"
#include "kfiber_internal.h"
#include "kselector.h"
#include "kselector_manager.h"
#include "kasync_worker.h"
#include "kthread.h"
#include "ksync.h"
#include "kmalloc.h"
#include "kserver.h"
#include "kconnection.h"
#include "ksocket.h"
#include "kaddr.h"
#include "kudp.h"
#include "kbuf.h"
#include "krbtree.h"
#include "kgl_ssl.h"
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "FAILED line %d: %s\\n", __LINE__, #x); _exit(1); } } while (0)
'''
MAIN = '''
int main() { kasync_main(main_fiber, NULL, 0); return 0; }
'''
# two selectors, main_fiber on the first one
MAIN2 = '''
int main()
{
	kasync_init();
	selector_manager_init(2, true);
	kfiber_create2(get_selector_by_index(0), main_fiber, NULL, 0, 0, NULL);
	selector_manager_start(NULL, false);
	return 0;
}
'''
# an established connection over a socketpair, bound to the caller's selector
SOCK = '''
#include <sys/socket.h>
#include <fcntl.h>
#include <time.h>
static int64_t real_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000LL + t.tv_nsec / 1000000; }
static kconnection *conn_pair(int *peer, int type = SOCK_STREAM)
{
	int fd[2];
	CHECK(socketpair(AF_UNIX, type, 0, fd) == 0);
	fcntl(fd[0], F_SETFL, O_NONBLOCK);
	kconnection *c = kconnection_new(NULL);
	c->st.fd = fd[0];
	selectable_bind(&c->st, kgl_get_tls_selector());
	*peer = fd[1];
	return c;
}
'''
