import sys; sys.path.insert(0,"/verif/tools"); from seedlib import *
ID='c13-failures-add-up'; PROP='C13'
NEEDS='a name whose refreshes fail now and then, each failure followed by a success'
BREAKS='the failures are never forgotten: the last good answer is dropped after one failed refresh although the ones before succeeded'
EDITS=[('src/kaddr.c','	if (addr) {\n		cn->error_count = 0;\n		cn->addr','	if (addr) {\n		cn->addr')]
DEMO=PRE+'''
#include <dlfcn.h>
#include <netdb.h>
#include <time.h>
static volatile time_t now = 100000; static volatile int fail, asked;
extern "C" time_t time(time_t *t) { if (t) *t = now; return now; }
extern "C" int getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **r)
{
	typedef int (*fn)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
	static fn real = (fn)dlsym(RTLD_NEXT, "getaddrinfo");
	asked++;
	if (fail) return EAI_AGAIN;
	return real("127.0.0.1", s, hi, r);
}
static volatile int answers, good;
static kev_result cb(void *, kgl_addr *a) { answers++; good = a != NULL; return kev_ok; }
static void find()
{
	int n = answers;
	kgl_find_addr("some.name", kgl_addr_ip, cb, NULL, kgl_get_tls_selector());
	while (answers == n) kfiber_msleep(5);
}
static int main_fiber(void *, int)
{
	alarm(20);
	find();
	CHECK(good);
	for (int i = 0; i < 26; i++) {
		fail = i % 2 == 0;
		now += 40;
		int a = asked;
		find();
		CHECK(good);
		while (asked == a) kfiber_msleep(5);
		kfiber_msleep(20);
		find();
		CHECK(good);
	}
	_exit(0);
}
'''+MAIN
