// C18: addresses.
#include "common.h"
#include <sys/un.h>
#include <arpa/inet.h>
#include <netdb.h>
struct A { int fam; unsigned char b[16]; };
static int nb(const A *a) { return a->fam == 4 ? 4 : 16; }
static void pick(A *a)
{
	a->fam = sim_rnd(2) ? 4 : 6;
	int style = sim_rnd(5);
	for (int i = 0; i < 16; i++) a->b[i] = 0;
	if (a->fam == 4) {
		for (int i = 0; i < 4; i++) { static const int v[] = { 0, 1, 9, 10, 99, 100, 127, 128, 200, 254, 255 }; a->b[i] = style < 3 ? v[sim_rnd(11)] : sim_rnd(256); }
		return;
	}
	for (int g = 0; g < 8; g++) {
		static const int v[] = { 0, 0, 0, 1, 0xff, 0x100, 0xfff, 0x1000, 0x8000, 0xffff, 0xabc };
		int x = style == 0 ? sim_rnd(65536) : v[sim_rnd(style == 1 ? 5 : 11)];
		a->b[2 * g] = x >> 8; a->b[2 * g + 1] = x;
	}
	if (style == 3) {	// the forms that hold an IPv4 address
		for (int i = 0; i < 12; i++) a->b[i] = 0;
		if (sim_rnd(2)) a->b[10] = a->b[11] = 255;
		if (sim_rnd(2)) for (int i = 12; i < 16; i++) a->b[i] = sim_rnd(256);
	}
}
static void near(A *a, const A *o)
{
	*a = *o;
	if (sim_rnd(3) == 0) return;
	int i = sim_rnd(nb(a)); a->b[i] ^= 1 << sim_rnd(8);
	if (sim_rnd(6) == 0) a->fam = 10 - a->fam;
}
// one of the spellings of an address
static void spell(const A *a, char *s)
{
	if (a->fam == 4) { sprintf(s, "%d.%d.%d.%d", a->b[0], a->b[1], a->b[2], a->b[3]); return; }
	int emb = sim_rnd(3) == 0, ng = emb ? 6 : 8, up = sim_rnd(2), pad = sim_rnd(3) == 0;
	int from = -1, to = -1;	// the run left out
	if (sim_rnd(4)) {
		int st = sim_rnd(ng);
		for (int k = 0; k < ng && from < 0; k++) { int g = (st + k) % ng; if (!a->b[2 * g] && !a->b[2 * g + 1]) from = g; }
		if (from >= 0) { to = from; int most = sim_rnd(2) ? 8 : 1 + sim_rnd(4); while (to < ng && to - from < most && !a->b[2 * to] && !a->b[2 * to + 1]) to++; }
	}
	char *p = s;
	for (int g = 0; g < ng; g++) {
		if (g == from) { p += sprintf(p, g == 0 ? "::" : ":"); g = to - 1; continue; }
		p += sprintf(p, pad ? (up ? "%04X" : "%04x") : (up ? "%X" : "%x"), a->b[2 * g] << 8 | a->b[2 * g + 1]);
		if (g < ng - 1 || emb) *p++ = ':';
	}
	if (emb) p += sprintf(p, "%d.%d.%d.%d", a->b[12], a->b[13], a->b[14], a->b[15]);
	*p = 0;
}
static void damage(char *s)
{
	static const char cs[] = "0123456789abcdefABCDEF::..gx-%/ ";
	int n = strlen(s), k = sim_rnd(4), i = n ? sim_rnd(n) : 0;
	switch (k) {
	case 0: if (n) memmove(s + i, s + i + 1, n - i); break;
	case 1: memmove(s + i + 1, s + i, n - i + 1); s[i] = cs[sim_rnd(sizeof cs - 1)]; break;
	case 2: if (n) s[i] = cs[sim_rnd(sizeof cs - 1)]; break;
	default: if (n < 100) { memmove(s + i + 1, s + i, n - i + 1); } break;	// a character twice
	}
}
static void bytes(char *o, const unsigned char *b, int n) { char *p = o; *p++ = '['; for (int i = 0; i < n; i++) p += sprintf(p, i ? ",%d" : "%d", b[i]); *p++ = ']'; *p = 0; }
static void to_sock(const A *a, sockaddr_i *s)
{
	memset(s, 0xee, sizeof *s);
	if (a->fam == 4) { memset(&s->v4, 0, sizeof s->v4); s->v4.sin_family = PF_INET; memcpy(&s->v4.sin_addr, a->b, 4); s->v4.sin_port = sim_rnd(65536); }
	else { memset(&s->v6, 0, sizeof s->v6); s->v6.sin6_family = PF_INET6; memcpy(&s->v6.sin6_addr, a->b, 16); s->v6.sin6_port = sim_rnd(65536); }
}
static int fam_of(const sockaddr_i *s) { return s->v4.sin_family == PF_INET ? 4 : s->v4.sin_family == PF_INET6 ? 6 : 0; }
static const unsigned char *bytes_of(const sockaddr_i *s) { return fam_of(s) == 4 ? (unsigned char *)&s->v4.sin_addr : (unsigned char *)&s->v6.sin6_addr; }
static void do_parse()
{
	char s[160]; A a; pick(&a); spell(&a, s);
	if (sim_rnd(3) == 0) damage(s);
	if (sim_rnd(8) == 0) damage(s);
	static const char *odd[] = { "localhost", "", ":", "::", "1.2.3", "1.2.3.4.5", "a.b.c.d", ":::", "1::2::3", "example.com", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "12345::", "::1.2.3", "::1.2.3.4:5", "256.1.1.1", "-1.2.3.4", "1..2.3", "1.2.3.4 ", " 1.2.3.4", "::g", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2:3:4::5:6:7:8" };
	if (sim_rnd(10) == 0) strcpy(s, odd[sim_rnd(sizeof odd / sizeof *odd)]);
	int want = sim_rnd(4) ? 0 : sim_rnd(2) ? 4 : 6, port = sim_rnd(3) ? sim_rnd(65536) : sim_rnd(2) ? 65535 : 0;
	sockaddr_i r; memset(&r, 0xee, sizeof r);
	char b[100];
	if (sim_rnd(4) == 0 && want == 0) {	// the short way
		ip_addr ia; memset(&ia, 0xee, sizeof ia);
		bool ok = ksocket_get_ipaddr(s, &ia);
		int f = !ok ? 0 : ia.sin_family == PF_INET ? 4 : ia.sin_family == PF_INET6 ? 6 : 1;
		bytes(b, ia.addr8, f == 4 ? 4 : f == 6 ? 16 : 0);
		char t[64]; bool tok = ok && ksocket_ipaddr_ip(&ia, t, sizeof t);
		sim_raw("{\"e\":\"parse\",\"s\":\"%s\",\"want\":0,\"fam\":%d,\"b\":%s,\"port\":0,\"gotport\":0,\"len\":%d,\"text\":\"%s\"}", s, f, b, f == 4 ? 16 : 28, tok ? t : "");
		return;
	}
	bool ok = ksocket_getaddr(s, port, want == 0 ? AF_UNSPEC : want == 4 ? AF_INET : AF_INET6, AI_NUMERICHOST, &r);
	int f = ok ? fam_of(&r) : 0;
	bytes(b, f ? bytes_of(&r) : NULL, f == 4 ? 4 : f == 6 ? 16 : 0);
	char t[64]; bool tok = ok && ksocket_sockaddr_ip(&r, t, sizeof t);
	sim_raw("{\"e\":\"parse\",\"s\":\"%s\",\"want\":%d,\"fam\":%d,\"b\":%s,\"port\":%d,\"gotport\":%d,\"len\":%d,\"text\":\"%s\"}", s, want, f, b, port, ok ? ksocket_addr_port(&r) : 0, ok ? ksocket_addr_len(&r) : 0, tok ? t : "");
}
static void do_format()
{
	A a; pick(&a);
	sockaddr_i s; to_sock(&a, &s);
	char b[100]; bytes(b, a.b, nb(&a));
	int room = sim_rnd(3) ? 64 : sim_rnd(46) + 1;
	char *t = (char *)malloc(room + 4); memset(t, '#', room + 4);
	bool ok; int which = sim_rnd(2);
	if (which) ok = ksocket_sockaddr_ip(&s, t, room);
	else { ip_addr ia; memset(&ia, 0xee, sizeof ia); ksocket_ipaddr(&s, &ia); ok = ksocket_ipaddr_ip(&ia, t, room); }
	bool over = false; for (int i = 0; i < 4; i++) over |= t[room + i] != '#';
	sim_raw("{\"e\":\"format\",\"fam\":%d,\"b\":%s,\"room\":%d,\"ok\":%d,\"over\":%d,\"len\":%d,\"text\":\"%s\"}", a.fam, b, room, ok, over, ksocket_addr_len(&s), ok ? t : "");
	free(t);
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void do_compare()
{
	int n = 2 + sim_rnd(5); A a[8]; sockaddr_i s[8]; ip_addr ia[8];
	static char out[6000]; char *p = out;
	for (int i = 0; i < n; i++) {
		if (i && sim_rnd(2)) near(&a[i], &a[sim_rnd(i)]); else pick(&a[i]);
		to_sock(&a[i], &s[i]);
		memset(&ia[i], sim_rnd(256), sizeof ia[i]);
		ksocket_ipaddr(&s[i], &ia[i]);
	}
	p += sprintf(p, "{\"e\":\"cmp\",\"a\":[");
	for (int i = 0; i < n; i++) { char b[100]; bytes(b, a[i].b, nb(&a[i])); p += sprintf(p, "%s{\"fam\":%d,\"b\":%s}", i ? "," : "", a[i].fam, b); }
	p += sprintf(p, "]");
	for (int k = 0; k < 6; k++) {
		static const char *nm[] = { "sock", "ip", "lt", "eq", "h1", "h2" };
		p += sprintf(p, ",\"%s\":[", nm[k]);
		for (int i = 0; i < n; i++) {
			p += sprintf(p, i ? ",[" : "[");
			for (int j = 0; j < n; j++) {
				int v = k == 0 ? sgn(ksocket_addr_compare(&s[i], &s[j])) : k == 1 ? sgn(ksocket_ipaddr_compare(&ia[i], &ia[j]))
					: k == 2 ? (ia[i] < ia[j]) : k == 3 ? (ia[i] == ia[j])
					: k == 4 ? ksocket_addr_hash(&s[i]) == ksocket_addr_hash(&s[j]) : ia[i].get_hash() == ia[j].get_hash();
				p += sprintf(p, j ? ",%d" : "%d", v);
			}
			p += sprintf(p, "]");
		}
		p += sprintf(p, "]");
	}
	sprintf(p, "}");
	sim_raw("%s", out);
}
static void do_mask()
{
	A a, m; pick(&a); near(&m, &a);
	for (int i = 0; i < 16; i++) if (sim_rnd(2)) m.b[i] = sim_rnd(2) ? 255 : sim_rnd(256);
	m.fam = a.fam;
	sockaddr_i s, t; to_sock(&a, &s); to_sock(&m, &t);
	ip_addr x, y, z, w; memset(&x, 0xe1, sizeof x); memset(&y, 0xe2, sizeof y); memset(&z, 0xe3, sizeof z);
	ksocket_ipaddr(&s, &x); ksocket_ipaddr(&t, &y);
	ksocket_ipaddr_and(&x, &y, &z);
	w = x & y;
	char b[4][100]; bytes(b[0], a.b, nb(&a)); bytes(b[1], m.b, nb(&a)); bytes(b[2], z.addr8, nb(&a)); bytes(b[3], w.addr8, nb(&a));
	sim_raw("{\"e\":\"mask\",\"a\":%s,\"m\":%s,\"r\":%s,\"q\":%s,\"same\":%d,\"fams\":%d}", b[0], b[1], b[2], b[3],
		z == w && ksocket_ipaddr_compare(&z, &w) == 0 && z.get_hash() == w.get_hash(), z.sin_family == x.sin_family && w.sin_family == x.sin_family);
}
SCENARIO(addrs)
{
	sim_cfgjson("{}");
	for (int k = 0; k < 12; k++) switch (sim_rnd(6)) {
	case 0: case 1: do_parse(); break;
	case 2: case 3: do_format(); break;
	case 4: do_compare(); break;
	default: do_mask();
	}
	struct sockaddr_un un; memset(&un, 0xee, sizeof un);
	char up[200]; int ul = 1 + sim_rnd(sim_rnd(2) ? 199 : 20);
	if (sim_rnd(3) == 0) ul = (int)sizeof un.sun_path - 2 + sim_rnd(4);
	for (int i = 0; i < ul; i++) up[i] = i == 0 || sim_rnd(9) == 0 ? '/' : 'a' + sim_rnd(26);
	up[ul] = 0;
	int ur = ksocket_unix_addr(up, &un);
	sim_raw("{\"e\":\"unix\",\"len\":%d,\"room\":%d,\"took\":%d,\"ok\":%d}", ul, (int)sizeof un.sun_path, ur == 0, ur != 0 || (un.sun_family == AF_UNIX && !strcmp(ksocket_unix_path(&un), up) && ksocket_addr_len((sockaddr_i *)&un) == (int)sizeof un));
	sim_raw("{\"e\":\"End\",\"live\":%ld}", sim_live_since_mark());
}
