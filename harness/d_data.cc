// C18-C22: the data structures under everything else, driven by random programs.  Every call and
// its result is recorded; the abstract machines in spec/ decide whether the results are right.
#include "common.h"
#include <math.h>
#include <string>
#include <vector>

// ------------------------------------------------------------------ ordered map (C21)
struct ient { int key; int val; };
struct sent { const char *key; int val; };
// key pools: the position in the pool is the rank; equal ranks compare equal
static const char *pool_str[] = { "", "A", "AB", "B", "Z", "Za", "a", "aa", "ab", "b", "ba", "z", "zz", "zzz" };
static const char *pool_case[] = { "", "a", "aB", "b", "bA", "c", "cC", "z", "zz" };
static const char *pool_case2[] = { "", "A", "Ab", "B", "BA", "C", "CC", "Z", "zZ" };
static int map_kind, ncmp;
static comprbt base_cmp;
static int cmp_count(const void *a, const void *b) { ncmp++; return base_cmp(a, b); }
static int map_range;
static int ikey(int rank)
{
	if (map_kind == 1) return (int)(-2147483647LL + rank * (4294967294LL / (map_range > 1 ? map_range - 1 : 1))); // spread over all ints
	return rank - map_range / 2;
}
static struct ient ients[40000]; static struct sent sents[40000]; static int nent;
static void *mk_entry(int rank, int val)
{
	if (map_kind < 2) { struct ient *e = &ients[nent++]; e->key = ikey(rank); e->val = val; return e; }
	struct sent *e = &sents[nent++];
	e->key = map_kind == 2 || map_kind == 4 ? pool_str[rank] : sim_rnd(2) ? pool_case[rank] : pool_case2[rank];
	e->val = val;
	return e;
}
static int ent_val(void *d) { return d == NULL ? 0 : map_kind < 2 ? ((struct ient *)d)->val : ((struct sent *)d)->val; }
static int height(struct krb_node *n) { if (!n) return 0; int l = height(n->rb_left), r = height(n->rb_right); return 1 + (l > r ? l : r); }
static int lbuf_n; static char lbuf[1 << 20];
static void l_start() { lbuf_n = 0; lbuf[0] = 0; }
static void l_add(int v) { lbuf_n += sprintf(lbuf + lbuf_n, "%s%d", lbuf_n ? "," : "", v); }
struct itarg { int n, stop, how, rmask; };
static iterator_ret it_fn(void *data, void *argv)
{
	struct itarg *a = (struct itarg *)argv;
	l_add(ent_val(data));
	int rm = a->rmask && (a->n % (a->rmask + 1)) == 0;
	a->n++;
	if (a->n == a->stop) return a->how ? iterator_remove_break : iterator_break;
	return rm ? iterator_remove_continue : iterator_continue;
}
static struct krb_node nodes2[40000]; static int nnode2, freed2;
static struct krb_node *nn2() { return &nodes2[nnode2++]; }
static void fn2(struct krb_node *n) { freed2 = n->data ? ent_val(n->data) : 0; }
SCENARIO(omap)
{
	map_kind = sim_rnd(5);
	int big = sim_rnd(3);
	map_range = map_kind < 2 ? (big == 0 ? 6 : big == 1 ? 40 : 600) : map_kind == 3 ? 9 : 14;
	comprbt cs[] = { rbtree_int_cmp, rbtree_int_cmp, rbtree_string_cmp, rbtree_string_case_cmp, rbtree_file_cmp };
	base_cmp = cs[map_kind];
	int own = sim_rnd(2); // nodes provided by the caller
	int nops = big == 2 ? 300 : 30 + sim_rnd(60), val = 0, bias = 70;
	sim_cfgjson("{\"kind\":%d}", map_kind);
	struct krb_tree *t = rbtree_create();
	sim_mem_mark();
	static int used[1000]; int nlive = 0;
	memset(used, 0, sizeof used);
	for (int i = 0; i < nops; i++) {
		if (i % 50 == 49) bias = 20 + sim_rnd(70);
		int r = sim_rnd(100), k = sim_rnd(map_range);
		if (map_kind < 2 && big == 2 && sim_rnd(2)) k = (nent * 7 + i) % map_range;
		ncmp = 0;
		if (r < 60) {
			if (sim_rnd(100) < bias) {
				int flag = -1, v = ++val;
				void *e = mk_entry(k, v);
				struct krb_node *n = own ? rbtree_insert2(t, e, &flag, cmp_count, nn2) : rbtree_insert(t, e, &flag, cmp_count);
				int c = ncmp;
				if (flag == 1) { n->data = e; nlive++; }
				sim_raw("{\"e\":\"ins\",\"k\":%d,\"v\":%d,\"new\":%d,\"got\":%d,\"c\":%d}", k, v, flag, n ? ent_val(n->data) : 0, c);
			} else {
				void *e = mk_entry(k, 0);
				struct krb_node *n = rbtree_find(t, e, cmp_count);
				int c = ncmp, g = n ? ent_val(n->data) : 0;
				if (n) { if (own) { freed2 = 0; rbtree_remove2(t, n, fn2); if (freed2 != g) g = -1; } else rbtree_remove(t, n); nlive--; }
				sim_raw("{\"e\":\"del\",\"k\":%d,\"got\":%d,\"c\":%d}", k, g, c);
			}
		} else if (r < 70) {
			struct krb_node *n = rbtree_find(t, mk_entry(k, 0), cmp_count);
			sim_raw("{\"e\":\"find\",\"k\":%d,\"got\":%d,\"c\":%d}", k, n ? ent_val(n->data) : 0, ncmp);
		} else if (r < 76) {
			int res = 99;
			struct krb_node *n = rbtree_find2(t, mk_entry(k, 0), cmp_count, &res);
			sim_raw("{\"e\":\"find2\",\"k\":%d,\"got\":%d,\"res\":%d,\"c\":%d}", k, n ? ent_val(n->data) : 0, n ? (res > 0) - (res < 0) : 0, ncmp);
		} else if (r < 84) {
			struct krb_node *n = rbtree_find_cover(t, mk_entry(k, 0), cmp_count);
			sim_raw("{\"e\":\"cover\",\"k\":%d,\"got\":%d,\"c\":%d}", k, n ? ent_val(n->data) : 0, ncmp);
		} else if (r < 88) {
			l_start(); int c = 0;
			for (struct krb_node *n = rb_first(&t->root); n && c < 5000; n = rb_next(n), c++) l_add(ent_val(n->data));
			sim_raw("{\"e\":\"fwd\",\"l\":[%s]}", lbuf);
		} else if (r < 92) {
			l_start(); int c = 0;
			for (struct krb_node *n = rb_last(&t->root); n && c < 5000; n = rb_prev(n), c++) l_add(ent_val(n->data));
			sim_raw("{\"e\":\"bwd\",\"l\":[%s]}", lbuf);
		} else if (r < 96 && !own) {
			struct itarg a = { 0, sim_rnd(2) ? 1 + sim_rnd(nlive + 2) : 0, sim_rnd(2), sim_rnd(4) };
			l_start();
			rbtree_iterator(t, it_fn, &a);
			sim_raw("{\"e\":\"iter\",\"l\":[%s],\"stop\":%d,\"how\":%d,\"rmask\":%d}", lbuf, a.stop, a.how, a.rmask);
		} else sim_raw("{\"e\":\"shape\",\"h\":%d,\"empty\":%d}", height(t->root.rb_node), rbtree_is_empty(t) ? 1 : 0);
	}
	l_start();
	for (struct krb_node *n = rb_first(&t->root); n; n = rb_next(n)) l_add(ent_val(n->data));
	sim_raw("{\"e\":\"fwd\",\"l\":[%s]}", lbuf);
	sim_raw("{\"e\":\"shape\",\"h\":%d,\"empty\":%d}", height(t->root.rb_node), rbtree_is_empty(t) ? 1 : 0);
	sim_raw("{\"e\":\"End\",\"nodes\":%ld}", own ? -1 : sim_live_since_mark());
}

// ------------------------------------------------------------------ pools (C20)
struct pblk { int id; unsigned char *p; int len; int live; };
static struct pblk blks[4096]; static int nblk;
static kgl_pool_t *PL;
static unsigned char pat(int id, int i) { return (unsigned char)(id * 31 + i * 7 + (i >> 8)); }
static void fillb(struct pblk *b, int from) { for (int i = from; i < b->len; i++) b->p[i] = pat(b->id, i); }
// verify all live blocks: log the ids whose contents changed
static void verify(const char *ev)
{
	l_start();
	for (int i = 0; i < nblk; i++) if (blks[i].live) {
		struct pblk *b = &blks[i];
		if (!sim_is_valid(b->p, b->len)) { l_add(b->id); continue; }
		for (int k = 0; k < b->len; k++) if (b->p[k] != pat(b->id, k)) { l_add(b->id); break; }
	}
	sim_raw("{\"e\":\"%s\",\"bad\":[%s]}", ev, lbuf);
}
static struct pblk *newblk(unsigned char *p, int len)
{
	struct pblk *b = &blks[nblk++]; b->id = nblk; b->p = p; b->len = len; b->live = 1; return b;
}
static void cu(void *d) { verify("chk"); sim_raw("{\"e\":\"cu\",\"id\":%ld}", (long)d); }
static void cu2(void *d) { verify("chk"); sim_raw("{\"e\":\"cu\",\"id\":%ld}", (long)d); }
struct parr { kgl_array_t *a; struct pblk *hdr; int sz, n, live, id; };
static struct parr arrs[16]; static int narr;
static unsigned char apat(struct parr *a, int i, int k) { return (unsigned char)(a->id * 91 + i * 13 + k * 5); }
static void arr_log(struct parr *a)
{
	int ok = (int)a->a->nelts == a->n, cap = (int)(a->a->nalloc * a->a->size);
	if (!sim_is_valid(a->a->elts, a->n * a->sz)) ok = 0;
	else for (int i = 0; i < a->n && ok; i++) for (int k = 0; k < a->sz; k++) if (((unsigned char *)a->a->elts)[i * a->sz + k] != apat(a, i, k)) { ok = 0; break; }
	sim_raw("{\"e\":\"arr\",\"id\":%d,\"off\":%ld,\"len\":%d,\"used\":%d,\"ok\":%d}", a->id, sim_off(a->a->elts), cap, a->n * a->sz, ok);
}
SCENARIO(pool)
{
	kasync_init();
	sim_quiesce(0);
	if (sim_rnd(2)) kgl_pagesize = 4096;
	sim_cfgjson("{}");
	sim_mem_mark();
	int rounds = 1 + sim_rnd(2), nid = 0;
	for (int rd = 0; rd < rounds; rd++) {
		int sizes[] = { 128, 256, 200 + sim_rnd(100), 1024, 1000 + sim_rnd(48), 4096, 16384, 8192 };
		int ps = sizes[sim_rnd(8)];
		PL = kgl_create_pool(ps);
		nblk = 0; narr = 0;
		sim_raw("{\"e\":\"create\",\"size\":%d}", ps);
		int nops = 10 + sim_rnd(60);
		for (int i = 0; i < nops; i++) {
			int r = sim_rnd(100);
			if (sim_rnd(30) == 0) sim_fail_malloc_big(ps / 4 + 1, 1);
			if (r < 55) {
				int kind = sim_rnd(5) == 0 ? 2 : sim_rnd(2), al = kind == 2 ? 8 << sim_rnd(7) : kind ? 8 : 1;
				int sz = sim_rnd(4) == 0 ? sim_rnd(ps + ps / 2) : sim_rnd(3) == 0 ? 1 + sim_rnd(8) : sim_rnd(ps / 6);
				unsigned char *p = (unsigned char *)(kind == 2 ? kgl_pmemalign(PL, sz, al) : kind ? kgl_palloc(PL, sz) : kgl_pnalloc(PL, sz));
				if (p) { struct pblk *b = newblk(p, sz); int v = sim_is_valid(p, sz);
					sim_raw("{\"e\":\"alloc\",\"id\":%d,\"kind\":%d,\"off\":%ld,\"len\":%d,\"al\":%d,\"valid\":%d}", b->id, kind, sim_off(p), sz, al, v);
					if (v) fillb(b, 0); }
				else sim_raw("{\"e\":\"nomem\"}");
			} else if (r < 65) {
				int id = ++nid;
				kgl_cleanup_t *c = kgl_cleanup_add(PL, cu, (void *)(long)id);
				sim_raw("{\"e\":\"cleanup\",\"id\":%d,\"ok\":%d,\"off\":%ld,\"len\":%d}", id, c != NULL, c ? sim_off(c) : 0, (int)sizeof *c);
			} else if (r < 68) {
				kgl_cleanup_t *c = kgl_cleanup_insert(PL, cu2);
				int old = c ? (int)(long)kgl_cleanup_get_data(c) : 0, id = old;
				if (c && !old) { id = ++nid; kgl_cleanup_set_data(c, (void *)(long)id); }
				sim_raw("{\"e\":\"once\",\"id\":%d,\"old\":%d,\"ok\":%d,\"off\":%ld,\"len\":%d}", id, old, c != NULL, c ? sim_off(c) : 0, (int)sizeof *c);
			} else if (r < 76 && nblk) {
				struct pblk *b = &blks[sim_rnd(nblk)];
				if (!b->live) continue;
				bool f = kgl_pfree(PL, b->p);
				if (f) b->live = 0;
				sim_raw("{\"e\":\"pfree\",\"id\":%d,\"freed\":%d,\"valid\":%d}", b->id, f ? 1 : 0, sim_is_valid(b->p, b->len ? b->len : 1));
			} else if (r < 80 && narr < 16) {
				struct parr *a = &arrs[narr];
				a->sz = 1 + sim_rnd(24); a->n = 0; a->id = 1000 + narr; int n0 = sim_rnd(6);
				a->a = kgl_array_create(PL, n0, a->sz);
				if (a->a == NULL) { sim_raw("{\"e\":\"nomem\"}"); continue; }
				narr++; a->live = 1;
				sim_raw("{\"e\":\"acreate\",\"id\":%d,\"hoff\":%ld,\"hlen\":%d}", a->id, sim_off(a->a), (int)sizeof(kgl_array_t));
				arr_log(a);
			} else if (r < 92 && narr) {
				struct parr *a = &arrs[sim_rnd(narr)];
				if (!a->live) continue;
				int n = sim_rnd(3) ? 1 : 1 + sim_rnd(5), multi = n > 1 || sim_rnd(2);
				unsigned char *e = (unsigned char *)(multi ? kgl_array_push_n(a->a, n) : kgl_array_push(a->a));
				if (e == NULL) { sim_raw("{\"e\":\"nomem\"}"); arr_log(a); continue; }
				if (e == (unsigned char *)a->a->elts + a->n * a->sz && sim_is_valid(e, n * a->sz))
					for (int j = 0; j < n; j++) for (int k = 0; k < a->sz; k++) e[j * a->sz + k] = apat(a, a->n + j, k);
				a->n += n;
				arr_log(a);
			} else if (r < 94 && narr) {
				struct parr *a = &arrs[sim_rnd(narr)];
				if (!a->live) continue;
				arr_log(a);
				a->live = 0;
				kgl_array_destroy(a->a);
				sim_raw("{\"e\":\"adestroy\",\"id\":%d}", a->id);
			} else if (r < 97) {
				verify("chk");
				for (int k = 0; k < narr; k++) if (arrs[k].live) arr_log(&arrs[k]);
			} else if (sim_rnd(3) == 0) {
				sim_fail_malloc_big(1, 0);
				for (int k = 0; k < narr; k++) if (arrs[k].live) arr_log(&arrs[k]);
				sim_raw("{\"e\":\"reset\"}");
				kgl_reset_pool(PL);
				nblk = narr = 0;
				sim_raw("{\"e\":\"emptied\"}");
			}
		}
		sim_fail_malloc_big(1, 0);
		verify("chk");
		for (int k = 0; k < narr; k++) if (arrs[k].live) arr_log(&arrs[k]);
		sim_raw("{\"e\":\"destroy\"}");
		kgl_destroy_pool(PL);
		sim_raw("{\"e\":\"gone\",\"live\":%ld}", sim_live_since_mark());
	}
	sim_raw("{\"e\":\"End\"}");
}

// ------------------------------------------------------------------ stream buffers (C19)
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._";
static uint64_t bseq;
static char nextbyte() { bseq = bseq * 6364136223846793005ULL + 1442695040888963407ULL; return AL[bseq >> 58]; }
static char tb[1 << 20]; static int tbn;
static void t_reset() { tbn = 0; tb[0] = 0; }
static void t_put(const char *p, long n)
{
	for (long i = 0; i < n && tbn < (int)sizeof tb - 2; i++) tb[tbn++] = (p[i] && strchr(AL, p[i])) || p[i] == '-' ? p[i] : '?';
	tb[tbn] = 0;
}
static kbuf *mk_kbuf(int n)
{
	kbuf *b = (kbuf *)xmalloc(sizeof(kbuf));
	b->flags = 0; b->next = NULL; b->used = n; b->data = (char *)xmalloc(n ? n : 1);
	t_reset();
	for (int i = 0; i < n; i++) b->data[i] = nextbyte();
	t_put(b->data, n);
	return b;
}
SCENARIO(rwbuf)
{
	bseq = sim_rand() * 977ULL + 3;
	int chunk = sim_rnd(3) == 0 ? 1 + sim_rnd(8) : sim_rnd(2) ? 16 : 40;
	int zeros = sim_rnd(3) == 0, nops = 10 + sim_rnd(60);
	sim_cfgjson("{\"chunk\":%d}", chunk);
	sim_mem_mark();
	krw_buffer *b = krw_buffer_new(chunk);
	char buf[400];
	for (int i = 0; i < nops; i++) {
		int r = sim_rnd(100), len;
		if (r < 20) {
			int n = sim_rnd(3) ? sim_rnd(chunk + 3) : sim_rnd(3 * chunk + 5);
			for (int k = 0; k < n; k++) buf[k] = nextbyte();
			t_reset(); t_put(buf, n);
			krw_write_str(b, buf, n);
			sim_raw("{\"e\":\"put\",\"d\":\"%s\",\"tl\":%d}", tb, b->total_len);
		} else if (r < 26) {
			int64_t v = sim_rnd(2) ? (int)sim_rand() : (int64_t)(((uint64_t)sim_rand() << 32) | sim_rand());
			if (sim_rnd(2)) { v = (int)v; krw_write_int(b, (int)v); } else krw_write_int64(b, v);
			sim_raw("{\"e\":\"put\",\"d\":\"%lld\",\"tl\":%d}", (long long)v, b->total_len);
		} else if (r < 40) {
			char *p = krw_get_write_buffer(b, &len);
			int n = sim_rnd(4) == 0 ? 0 : sim_rnd(3) == 0 ? len : 1 + sim_rnd(len);
			t_reset();
			for (int k = 0; k < n; k++) p[k] = nextbyte();
			t_put(p, n);
			if (n || sim_rnd(2)) krw_write_success(b, n);
			sim_raw("{\"e\":\"put\",\"d\":\"%s\",\"tl\":%d,\"room\":%d}", tb, b->total_len, len);
		} else if (r < 47) {
			kbuf *k = mk_kbuf(zeros ? sim_rnd(6) : 1 + sim_rnd(20));
			krw_append(b, k);
			sim_raw("{\"e\":\"put\",\"d\":\"%s\",\"tl\":%d}", tb, b->total_len);
		} else if (r < 54) {
			kbuf *k = mk_kbuf(zeros ? sim_rnd(6) : 1 + sim_rnd(20));
			krw_insert(b, k);
			sim_raw("{\"e\":\"unget\",\"d\":\"%s\",\"tl\":%d}", tb, b->total_len);
		} else if (r < 72) {
			int n = sim_rnd(3) ? sim_rnd(chunk + 3) : sim_rnd(3 * chunk + 5);
			int got = krw_read(b, buf, n);
			t_reset(); t_put(buf, got < 0 ? 0 : got);
			sim_raw("{\"e\":\"read\",\"n\":%d,\"got\":%d,\"d\":\"%s\",\"tl\":%d}", n, got, tb, b->total_len);
		} else if (r < 84) {
			char *p = krw_get_read_buffer(b, &len);
			t_reset();
			if (p) t_put(p, len);
			sim_raw("{\"e\":\"peek\",\"v\":%d,\"max\":1,\"d\":\"%s\",\"z\":%d}", p != NULL, tb, p != NULL && len <= 0);
			if (p && len > 0) {
				int n = sim_rnd(3) == 0 ? len : 1 + sim_rnd(len);
				bool more = krw_read_success(b, n);
				sim_raw("{\"e\":\"skip\",\"n\":%d,\"more\":%d,\"tl\":%d}", n, more ? 1 : 0, b->total_len);
			}
		} else if (r < 98) {
			WSABUF v[12];
			int max = 1 + sim_rnd(12), c = krw_get_read_buffers(b, v, max), z = 0, tot = 0;
			t_reset();
			for (int k = 0; k < c; k++) { t_put((char *)v[k].iov_base, v[k].iov_len); if (v[k].iov_len == 0) z = 1; tot += v[k].iov_len; }
			sim_raw("{\"e\":\"peek\",\"v\":%d,\"max\":%d,\"d\":\"%s\",\"z\":%d}", c, max, tb, z);
			if (tot > 0 && sim_rnd(2)) {
				int n = 1 + sim_rnd(tot);
				bool more = krw_read_success(b, n);
				sim_raw("{\"e\":\"skip\",\"n\":%d,\"more\":%d,\"tl\":%d}", n, more ? 1 : 0, b->total_len);
			}
		} else { krw_buffer_clean(b); krw_buffer_init(b, chunk); sim_raw("{\"e\":\"clean\",\"tl\":%d}", b->total_len); }
	}
	if (sim_rnd(2)) {
		// drain
		t_reset();
		for (int k = 0; k < 500; k++) { char *p = krw_get_read_buffer(b, &nops); if (!p) break; t_put(p, nops); if (nops > 0) krw_read_success(b, nops); else break; }
		sim_raw("{\"e\":\"read\",\"n\":100000,\"got\":%d,\"d\":\"%s\",\"tl\":%d}", tbn, tb, b->total_len);
	}
	krw_buffer_destroy(b);
	sim_raw("{\"e\":\"End\",\"live\":%ld}", sim_live_since_mark());
}
static void flat_log(const char *e, ks_buffer *b, const char *d, int n)
{
	static char w[1 << 16];
	strcpy(w, d);
	t_reset(); t_put(b->buf, b->used);
	sim_raw("{\"e\":\"%s\",\"d\":\"%s\",\"n\":%d,\"all\":\"%s\",\"fit\":%d}", e, w, n, tb, b->used <= b->buf_size && sim_is_valid(b->buf, b->buf_size));
}
SCENARIO(flatbuf)
{
	bseq = sim_rand() * 977ULL + 5;
	int size = 1 + sim_rnd(sim_rnd(2) ? 40 : 1500), big = sim_rnd(3) == 0, nops = 5 + sim_rnd(big ? 12 : 40);
	sim_cfgjson("{\"size\":%d}", size);
	sim_mem_mark();
	ks_buffer *b = ks_buffer_new(size);
	static char buf[4096];
	for (int i = 0; i < nops; i++) {
		int r = sim_rnd(100), len;
		if (r < 30) {
			int n = big ? sim_rnd(1500) : sim_rnd(30);
			t_reset(); for (int k = 0; k < n; k++) buf[k] = nextbyte();
			bool ok = ks_write_str(b, buf, n);
			buf[n] = 0;
			flat_log(ok ? "put" : "nomem", b, buf, 0);
		} else if (r < 40) {
			int64_t v = sim_rnd(2) ? (int)sim_rand() : (int64_t)(((uint64_t)sim_rand() << 32) | sim_rand());
			if (sim_rnd(2)) { v = (int)v; ks_write_int(b, (int)v); } else ks_write_int64(b, v);
			sprintf(buf, "%lld", (long long)v);
			flat_log("put", b, buf, 0);
		} else if (r < 75) {
			char *p = ks_get_write_buffer(b, &len);
			if (sim_rnd(2)) { WSABUF v; ks_get_write_buffers(b, &v, 1); p = (char *)v.iov_base; len = v.iov_len; }
			if (len <= 0 || !sim_is_valid(p, len)) { sim_raw("{\"e\":\"noroom\",\"len\":%d}", len); continue; }
			int n = sim_rnd(4) == 0 ? len : 1 + sim_rnd(len);
			if (n > 1500) n = 1500;
			if (!big && n > 40) n = 40;
			for (int k = 0; k < n; k++) buf[k] = p[k] = nextbyte();
			buf[n] = 0;
			ks_write_success(b, n);
			flat_log("put", b, buf, 0);
		} else {
			int n = sim_rnd(4) == 0 ? 0 : sim_rnd(4) == 0 ? b->used : sim_rnd(b->used + 1);
			ks_save_point(b, b->buf + n);
			flat_log("drop", b, "", n);
		}
	}
	// read it back
	ks_buffer_switch_read(b);
	for (int k = 0; k < 50; k++) {
		int len = 0; char *p;
		WSABUF v; ks_get_read_buffers(b, &v, 1); p = (char *)v.iov_base; len = v.iov_len;
		if (len <= 0) break;
		int n = sim_rnd(3) == 0 ? len : 1 + sim_rnd(len);
		if (k == 49) n = len;
		t_reset(); t_put(p, n);
		bool more = ks_read_success(b, n);
		sim_raw("{\"e\":\"take\",\"d\":\"%s\",\"more\":%d}", tb, more ? 1 : 0);
	}
	ks_buffer_destroy(b);
	sim_raw("{\"e\":\"End\",\"live\":%ld}", sim_live_since_mark());
}
SCENARIO(seek)
{
	// skipping part of a gathered vector or of a chain of buffers
	bseq = sim_rand() * 977ULL + 7;
	int n = 1 + sim_rnd(6), kind = sim_rnd(2), tot = 0, zeros = sim_rnd(2);
	sim_cfgjson("{\"kind\":%d}", kind);
	static char data[4096]; kgl_iovec v[8]; kbuf kb[8];
	for (int i = 0; i < n; i++) {
		int l = zeros ? sim_rnd(8) : 1 + sim_rnd(20);
		for (int k = 0; k < l; k++) data[tot + k] = nextbyte();
		v[i].iov_base = data + tot; v[i].iov_len = l;
		kb[i].data = data + tot; kb[i].used = l; kb[i].next = i + 1 < n ? &kb[i + 1] : NULL; kb[i].flags = 0;
		tot += l;
	}
	t_reset(); t_put(data, tot);
	sim_raw("{\"e\":\"put\",\"d\":\"%s\",\"tl\":%d}", tb, tot);
	int left = tot;
	if (kind == 0) {
		int bc = n; kgl_iovec *b = v;
		while (left > 0) {
			int o = sim_rnd(5) == 0 ? left : sim_rnd(left + 1);
			b = kgl_iovec_seek(b, &bc, o);
			left -= o;
			t_reset(); for (int i = 0; i < bc; i++) t_put((char *)b[i].iov_base, b[i].iov_len);
			sim_raw("{\"e\":\"sought\",\"n\":%d,\"d\":\"%s\"}", o, tb);
		}
	} else {
		for (int k = 0; k < 4; k++) {
			kbuf h; memset(&h, 0, sizeof h);
			int o = sim_rnd(5) == 0 ? tot : sim_rnd(tot + 1);
			t_reset(); for (const kbuf *b = kbuf_seek(kb, o, &h); b; b = b->next) t_put(b->data, b->used);
			sim_raw("{\"e\":\"view\",\"n\":%d,\"d\":\"%s\"}", o, tb);
		}
	}
	sim_raw("{\"e\":\"End\",\"live\":0}");
}

// ------------------------------------------------------------------ linked lists, counters, shared strings (C29)
#include "klist.h"
#include "kstring.h"
struct LItem { char pad[8]; kgl_list link; int id; kgl_forward_list fl; int where; bool pushed; };
static std::string ids(const std::vector<short> &v)
{
	std::string s = "[";
	for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
	return s + "]";
}
SCENARIO(links)
{
	int nh = 1 + sim_rnd(3), nf = 1 + sim_rnd(2), ni = 1 + sim_rnd(7), nops = 10 + sim_rnd(60);
	sim_cfgjson("{\"h\":%d,\"f\":%d}", nh, nf);
	sim_mem_mark();
	kgl_list heads[3]; kgl_forward_list fh[2];
	struct LItem *it = (struct LItem *)calloc(ni, sizeof *it);
	for (int i = 0; i < ni; i++) { it[i].id = i + 1; memset(&it[i].link, 0xdd, sizeof it[i].link); }
	for (int h = 0; h < nh; h++) klist_init(&heads[h]);
	for (int h = 0; h < nf; h++) kforward_list_init(&fh[h]);
	for (int n = 0; n < nops; n++) {
		struct LItem *x = &it[sim_rnd(ni)], *y = &it[sim_rnd(ni)];
		int h = sim_rnd(nh), g = sim_rnd(nf);
		switch (sim_rnd(9)) {
		case 0: case 1: if (!x->where) { sim_raw("{\"e\":\"app\",\"h\":%d,\"x\":%d}", h + 1, x->id); if (sim_rnd(2)) klist_append(&heads[h], &x->link); else klist_insert_tail(&heads[h], &x->link); x->where = h + 1; } break;
		case 2: if (!x->where && y->where) { sim_raw("{\"e\":\"before\",\"y\":%d,\"x\":%d}", y->id, x->id); klist_insert(&y->link, &x->link); x->where = y->where; } break;
		case 3: if (x->where) { sim_raw("{\"e\":\"rem\",\"x\":%d}", x->id); klist_remove(&x->link); x->where = 0; memset(&x->link, 0xdd, sizeof x->link); } break;
		case 4: if (!x->pushed) { sim_raw("{\"e\":\"push\",\"h\":%d,\"x\":%d}", g + 1, x->id); kforward_list_append(&fh[g], &x->fl); x->pushed = true; } break;
		case 5: { bool was = kfoward_list_remove(&fh[g], &x->fl); sim_raw("{\"e\":\"pull\",\"h\":%d,\"x\":%d,\"was\":%d}", g + 1, x->id, was); if (was) { x->pushed = false; memset(&x->fl, 0xdd, sizeof x->fl); } break; }
		case 6: if (sim_rnd(6) == 0) { sim_raw("{\"e\":\"clear\",\"h\":%d}", h + 1); klist_init(&heads[h]); for (int i = 0; i < ni; i++) if (it[i].where == h + 1) it[i].where = 0; } break;
		case 7: {
			std::vector<short> a, b; kgl_list *p;
			klist_foreach(p, &heads[h]) { struct LItem *q = kgl_list_data(p, struct LItem, link); a.push_back(q->id); if (a.size() > 20) break; }
			klist_rforeach(p, &heads[h]) { struct LItem *q = kgl_list_data(p, struct LItem, link); b.push_back(q->id); if (b.size() > 20) break; }
			kgl_list *f = klist_head(&heads[h]); kgl_list *l = klist_end(&heads[h]);
			int fi = f == &heads[h] ? 0 : (kgl_list_data(f, struct LItem, link))->id, li = l == &heads[h] ? 0 : (kgl_list_data(l, struct LItem, link))->id;
			sim_raw("{\"e\":\"show\",\"h\":%d,\"there\":%s,\"back\":%s,\"empty\":%d,\"first\":%d,\"last\":%d}", h + 1, ids(a).c_str(), ids(b).c_str(), klist_empty(&heads[h]) ? 1 : 0, fi, li);
			break; }
		case 8: {
			std::vector<short> a;
			for (kgl_forward_list *p = fh[g].next; p != &fh[g] && a.size() < 20; p = p->next) a.push_back((kgl_list_data(p, struct LItem, fl))->id);
			sim_raw("{\"e\":\"fshow\",\"h\":%d,\"there\":%s,\"empty\":%d}", g + 1, ids(a).c_str(), kforward_list_empty(&fh[g]) ? 1 : 0);
			break; }
		}
	}
	free(it);
	sim_raw("{\"e\":\"End\",\"live\":%ld}", sim_live_since_mark());
}
static struct { uint64_t c8[2]; uint32_t c4[3]; uint16_t c2[4]; } cells;	// neighbours
static const int cw[9] = { 4, 4, 2, 2, 2, 1, 1, 1, 1 };
static void *cell(int v) { return v < 2 ? (void *)&cells.c8[v] : v < 5 ? (void *)&cells.c4[v - 2] : (void *)&cells.c2[v - 5]; }
static const char *limbs(uint64_t x, int w, char *b)
{
	char *p = b;
	for (int i = 0; i < w; i++) p += sprintf(p, "%c%d", i ? ',' : '[', (int)(x >> (16 * i) & 0xffff));
	strcpy(p, "]");
	return b;
}
static uint64_t pick_val(int w)
{
	static const uint64_t v[] = { 0, 1, 2, 0xffff, 0x10000, 0x7fff, 0x8000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x1ffffffffull, 0x7fffffffffffffffull, ~0ull, ~0ull - 1, 0x12345678abcdull };
	return v[sim_rnd(sim_rnd(2) ? 3 : 16)];
}
static volatile int at_pending; static int at_vars[3], at_nv, at_ops;
static void cell_op(int th, int v, int w, const char *force = NULL)
{
	char b1[64], b2[64], b3[64];
	static const char *all[] = { "inc", "dec", "add", "sub", "set", "get", "cas", "cas" }, *small[] = { "inc", "dec", "set", "cas" };
	const char *op = force ? force : w == 1 ? small[sim_rnd(4)] : all[sim_rnd(8)];
	uint64_t a = pick_val(w), b = pick_val(w), r = 0; int rw = w; void *p = cell(v);
	if (op[0] == 'c' && sim_rnd(4)) a = w == 4 ? *(volatile uint64_t *)p : w == 2 ? *(volatile uint32_t *)p : *(volatile uint16_t *)p;
	sim_raw("{\"e\":\"call\",\"th\":%d,\"op\":\"%s\",\"v\":%d,\"a\":%s,\"b\":%s}", th, op, v + 1, limbs(a, w, b1), limbs(b, w, b2));
	switch (op[0] * 256 + op[1]) {
	case 'i' * 256 + 'n': r = w == 4 ? katom_inc64(p) : w == 2 ? katom_inc(p) : (uint16_t)katom_inc16(p); break;
	case 'd' * 256 + 'e': r = w == 4 ? katom_dec64(p) : w == 2 ? katom_dec(p) : (uint16_t)katom_dec16(p); break;
	case 'a' * 256 + 'd': r = w == 4 ? katom_add64(p, a) : katom_add(p, (int32_t)a); break;
	case 's' * 256 + 'u': r = w == 4 ? katom_sub64(p, a) : katom_sub(p, (int32_t)a); break;
	case 's' * 256 + 'e': r = w == 4 ? katom_set64(p, a) : w == 2 ? katom_set(p, (uint32_t)a) : katom_set16(p, (uint16_t)a); break;
	case 'g' * 256 + 'e': r = w == 4 ? katom_get64(p) : w == 2 ? katom_get(p) : *(uint16_t *)p; break;
	default: rw = 1; r = w == 4 ? katom_cas64(p, a, b) : w == 2 ? katom_cas(p, (int32_t)a, (int32_t)b) : katom_cas16(p, (int16_t)a, (int16_t)b);
	}
	sim_raw("{\"e\":\"back\",\"th\":%d,\"r\":%s}", th, limbs(r, rw, b3));
}
static kgl_ref_str_t *strs[4]; static int shold[4][4], ns, max_s, str_part;
static void drop(int th, int s)
{
	sim_atomic_begin(); shold[th][s]--; sim_raw("{\"e\":\"drop\",\"th\":%d,\"s\":%d}", th, s); sim_atomic_end();
	kstring_release(strs[s]);
}
static void str_op(int th)
{
	int s = sim_rnd(max_s);
	if (s >= ns) {	// a new one
		sim_atomic_begin();
		bool mine = s == ns; if (mine) ns++;
		sim_atomic_end();
		if (!mine) return;
		char b[20]; int l = sim_rnd(12);
		for (int i = 0; i < l; i++) b[i] = 'a' + sim_rnd(26);
		b[l] = 0;
		if (l == 0) { strcpy(b, "x"); l = 1; }
		kgl_ref_str_t *r = sim_rnd(2) ? kstring_from(b) : kstring_from2(b, l);
		if (sim_rnd(3) == 0) { kstring_release(r); char *c = strdup(b); r = convert_refs_string(c, l); }
		sim_atomic_begin();
		strs[s] = r; shold[th][s] = 1;
		sim_raw("{\"e\":\"make\",\"th\":%d,\"s\":%d,\"d\":\"%s\"}", th, s, b);
		sim_atomic_end();
		return;
	}
	if (!strs[s] || !shold[th][s]) return;
	switch (sim_rnd(4)) {
	case 0:
		sim_atomic_begin(); shold[th][s]++; sim_raw("{\"e\":\"take\",\"th\":%d,\"s\":%d}", th, s); sim_atomic_end();
		if (kstring_refs(strs[s]) != strs[s]) abort();
		break;
	case 1: {
		int u = 1 + sim_rnd(3);
		sim_atomic_begin(); shold[th][s]--; shold[u][s]++; sim_raw("{\"e\":\"give\",\"th\":%d,\"u\":%d,\"s\":%d}", th, u, s); sim_atomic_end();
		break; }
	case 2: drop(th, s); break;
	case 3: {
		std::string d(strs[s]->data, strs[s]->len);
		if (strs[s]->data[strs[s]->len]) d += "?";
		sim_raw("{\"e\":\"look\",\"th\":%d,\"s\":%d,\"d\":\"%s\"}", th, s, d.c_str());
		break; }
	}
}
static int at_meet, at_nt; static volatile int at_there;
static int at_all(void *) { return at_there == at_nt; }
static void *at_thread(void *arg)
{
	int th = (int)(intptr_t)arg;
	for (int i = 0; i < at_ops; i++) {
		if (sim_rnd(4) < str_part) str_op(th);
		else { int v = at_vars[sim_rnd(at_nv)]; cell_op(th, v, cw[v]); }
	}
	if (at_meet) { ATOMIC_INC(at_there); sim_wait(at_all, 0, 1000); }
	if (sim_rnd(4)) for (int s = 0; s < 4; s++) while (shold[th][s] > 0) drop(th, s);
	__sync_sub_and_fetch(&at_pending, 1);
	return NULL;
}
static int at_over(void *) { return at_pending == 0; }
SCENARIO(atoms)
{
	for (int i = 0; i < 9; i++) { uint64_t x = pick_val(4); memcpy(cell(i), &x, 2 * cw[i]); }
	std::string v; char b[64];
	for (int i = 0; i < 9; i++) { uint64_t x = 0; memcpy(&x, cell(i), 2 * cw[i]); v += (i ? "," : "") + std::string(limbs(x, cw[i], b)); }
	sim_cfgjson("{\"v\":[%s],\"s\":3,\"t\":3}", v.c_str());
	v.clear(); v.shrink_to_fit();
	at_nv = 1 + sim_rnd(3);
	int first = sim_rnd(9);
	for (int i = 0; i < at_nv; i++) at_vars[i] = sim_rnd(2) ? (first + i) % 9 : sim_rnd(9);
	at_ops = 1 + sim_rnd(sim_rnd(2) ? 6 : 16); max_s = sim_rnd(2) ? 1 : 1 + sim_rnd(4); str_part = sim_rnd(5);
	if (sim_rnd(4)) sim_turns(1 + sim_rnd(12));
	long mem = sim_live_total();
	int nt = at_nt = 1 + sim_rnd(3);
	at_meet = sim_rnd(2);
	if (at_meet) at_ops = sim_rnd(4);
	if (sim_rnd(3)) {	// they begin with a string that all hold
		ns = 1; strs[0] = kstring_from("all"); shold[0][0] = 1;
		sim_raw("{\"e\":\"make\",\"th\":0,\"s\":0,\"d\":\"all\"}");
		for (int i = 1; i <= nt; i++) {
			sim_raw("{\"e\":\"take\",\"th\":0,\"s\":0}"); kstring_refs(strs[0]);
			sim_raw("{\"e\":\"give\",\"th\":0,\"u\":%d,\"s\":0}", i); shold[i][0]++;
		}
		drop(0, 0);
	}
	for (int i = 1; i <= nt; i++) { ATOMIC_INC(at_pending); pthread_t t; pthread_create(&t, NULL, at_thread, (void *)(intptr_t)i); pthread_detach(t); }
	sim_wait(at_over, 0, 1000);
	for (int i = 0; i < 9; i++) cell_op(0, i, cw[i], "get");
	for (int s = 0; s < 4; s++) {
		int n = 0;
		for (int t = 0; t < 4; t++) n += shold[t][s];
		if (n) sim_raw("{\"e\":\"count\",\"s\":%d,\"n\":%d}", s, (int)kstring_get_ref(strs[s]));
		for (int t = 0; t < 4; t++) while (shold[t][s]-- > 0) { sim_raw("{\"e\":\"drop\",\"th\":%d,\"s\":%d}", t, s); kstring_release(strs[s]); }
	}
	sim_raw("{\"e\":\"End\",\"live\":%ld}", sim_live_total() - mem);
}
