// C17: files of the asynchronous file interface.
#include "common.h"
#include "net.h"
#include "kasync_file.h"
#include <linux/aio_abi.h>
#include <fcntl.h>
#include <string>
#define NF 3
#define NH 12
extern "C" { extern int (*sim_iosubmit_hook)(struct iocb *); extern int (*sim_ioexec_hook)(struct iocb *); extern void (*sim_iodone_hook)(struct iocb *, long); }
static int rootfd[NF]; static int falign;
struct H { kfiber_file *f; int fd, file, open, direct, sel; int cut; };
static H hs[NH]; static int faults, running, dirty;
static int by_fd(int fd) { for (int i = 0; i < NH; i++) if (hs[i].open && hs[i].fd == fd) return i; return -1; }
static int fails[] = { -EIO, -ENOSPC, -EINTR, -EBADF };
static int on_submit(struct iocb *cb)
{
	if (!faults || sim_rnd(12)) return 0;
	sim_raw("{\"e\":\"io\",\"h\":%d,\"res\":-1,\"cut\":1}", by_fd(cb->aio_fildes));
	return -EAGAIN;
}
static int on_exec(struct iocb *cb)
{
	int h = by_fd(cb->aio_fildes);
	if (h < 0) return 0;
	hs[h].cut = 0;
	if (!faults || sim_rnd(5)) return 0;
	hs[h].cut = 1;
	int r = sim_rnd(3);
	if (r == 0) return fails[sim_rnd(4)];
	if (cb->aio_nbytes == 0) { hs[h].cut = 0; return 0; }
	if (hs[h].direct) cb->aio_nbytes = sim_rnd(cb->aio_nbytes / falign + 1) * falign;
	else cb->aio_nbytes = r == 1 && cb->aio_lio_opcode == IOCB_CMD_PREAD ? sim_rnd(cb->aio_nbytes) : 1 + sim_rnd(cb->aio_nbytes);
	return 0;
}
static void on_done(struct iocb *cb, long res)
{
	int h = by_fd(cb->aio_fildes);
	sim_raw("{\"e\":\"io\",\"h\":%d,\"res\":%ld,\"cut\":%d}", h, res < 0 ? -1 : res, h >= 0 ? hs[h].cut : 0);
}
// run-length form of a byte string
static std::string runs(const char *b, int n)
{
	std::string s = "["; char t[32];
	for (int i = 0; i < n;) {
		int k = i; while (k < n && b[k] == b[i]) k++;
		if (b[i] >= 'a' && b[i] <= 'z') snprintf(t, sizeof t, "[%d,\"%c\"]", k - i, b[i]); else snprintf(t, sizeof t, "[%d,\"%d\"]", k - i, (unsigned char)b[i]);
		if (i) s += ",";
		s += t; i = k;
	}
	return s + "]";
}
static void fill(char *b, int n) { char last = 0; for (int i = 0; i < n;) { int k = 1 + sim_rnd(sim_rnd(2) ? 9 : 300); char c; do c = 'a' + sim_rnd(26); while (c == last); last = c; while (k-- && i < n) b[i++] = c; } }
static void mklen(int *len, H *h, bool w)
{
	int r = sim_rnd(8);
	*len = r == 0 ? 0 : r == 1 ? falign : r == 2 ? falign + 1 : r < 6 ? 1 + sim_rnd(40) : 1 + sim_rnd(3 * falign);
	if (w && h->direct) *len = *len / falign * falign;
}
static const char *models[] = { "r", "a", "m", "w", "rw", "wr" };
static fileModel fm[] = { fileRead, fileAppend, fileModify, fileWrite, fileReadWrite, fileWriteRead };
static void do_open(int i, int file)
{
	char p[64]; H *h = &hs[i];
	int m = sim_rnd(6); if (file == 0) m = 0;
	snprintf(p, sizeof p, "/proc/self/fd/%d", rootfd[file]);
	kfiber_file *f;
	if (sim_rnd(2)) f = kfiber_file_open(p, fm[m], 0);
	else { FILE_HANDLE fd = kfopen(p, fm[m], KFILE_ASYNC); f = kflike(fd) ? kfiber_file_bind(fd) : NULL; }
	int d = 0;
	if (f && m != 1 && sim_rnd(3) == 0) d = kasync_file_direct(f, true);
	sim_raw("{\"e\":\"open\",\"h\":%d,\"file\":%d,\"m\":\"%s\",\"d\":%d,\"ok\":%d}", i, file, models[m], d, f != NULL);
	if (!f) return;
	h->f = f; h->fd = f->st.fd; h->file = file; h->direct = d; h->open = 1; h->sel = sim_rnd(1);
}
static void do_close(int i) { H *h = &hs[i]; h->open = 0; kfiber_file_close(h->f); h->f = NULL; sim_raw("{\"e\":\"close\",\"h\":%d}", i); }
// where a step may be carried out: by its own fiber, or from another loop through the safe forms
static void do_op(int i, bool own)
{
	H *h = &hs[i]; int len, off;
	int k = own ? sim_rnd(9) : sim_rnd(2) * 2;
	char *raw = (char *)aio_alloc_buffer(8 * falign + 64), *b = raw;
	if (!h->direct && sim_rnd(2)) b += sim_rnd(20);
	memset(raw, '#', 8 * falign);
	switch (k) {
	case 0: case 1: {	// read
		mklen(&len, h, false);
		int form = own ? (k == 1 && !h->direct ? 1 : sim_rnd(2) ? 0 : 2) : 2, want = len;
		sim_raw("{\"e\":\"begin\",\"h\":%d,\"k\":\"%s\",\"len\":%d,\"data\":[],\"far\":%d}", i, form == 1 ? "rf" : "r", len, !own);
		if (form == 1) {
			bool ok = kfiber_file_read_full(h->f, b, &len);
			sim_raw("{\"e\":\"end\",\"h\":%d,\"ok\":%d,\"got\":%d,\"left\":%d,\"data\":%s}", i, ok, 0, len, runs(b, want - len).c_str());
		} else {
			if (!own && faults && sim_rnd(3) == 0) { sim_raw("{\"e\":\"nofiber\",\"h\":%d}", i); sim_fail_malloc_big(40000, 1); }
			int n = form == 2 ? kfiber_file_safe_read(h->f, b, len) : kfiber_file_read(h->f, b, len);
			sim_raw("{\"e\":\"end\",\"h\":%d,\"ok\":0,\"got\":%d,\"left\":0,\"data\":%s}", i, n < 0 ? -1 : n, n > 8 * falign ? "[[1,\"!\"]]" : runs(h->direct ? kfiber_file_adjust(h->f, b) : b, n < 0 ? 0 : n).c_str());
		}
		break; }
	case 2: case 3: {	// write
		mklen(&len, h, true);
		if (h->direct && h->f->st.offset % falign) break;
		int form = own ? sim_rnd(3) : 2, want = len;
		fill(b, len);
		sim_raw("{\"e\":\"begin\",\"h\":%d,\"k\":\"%s\",\"len\":%d,\"data\":%s,\"far\":%d}", i, form ? "wf" : "w", len, runs(b, len).c_str(), !own);
		if (form) {
			if (h->direct) {	// a shortened direct write cannot be continued at once: its buffer would no longer be aligned
				int n = 1; bool ok = true;
				if (form == 1 || want == 0) { int save = faults; faults = 0; ok = kfiber_file_write_full(h->f, b, &len); faults = save; }
				else { int save = faults; faults = 0; ok = kfiber_file_safe_write_full(h->f, b, &len); faults = save; }
				(void)n;
				sim_raw("{\"e\":\"end\",\"h\":%d,\"ok\":%d,\"got\":0,\"left\":%d,\"data\":[]}", i, ok, len);
			} else {
				if (!own && faults && sim_rnd(3) == 0) { sim_raw("{\"e\":\"nofiber\",\"h\":%d}", i); sim_fail_malloc_big(40000, 1); }
				bool ok = form == 1 ? kfiber_file_write_full(h->f, b, &len) : kfiber_file_safe_write_full(h->f, b, &len);
				sim_raw("{\"e\":\"end\",\"h\":%d,\"ok\":%d,\"got\":0,\"left\":%d,\"data\":[]}", i, ok, len);
			}
		} else {
			int n = kfiber_file_write(h->f, b, len);
			sim_raw("{\"e\":\"end\",\"h\":%d,\"ok\":0,\"got\":%d,\"left\":0,\"data\":[]}", i, n < 0 ? -1 : n);
		}
		break; }
	case 4: case 5: case 6: {	// seek
		seekPosion p = (seekPosion[]){ seekBegin, seekCur, seekEnd }[sim_rnd(10) % 3];
		off = p == seekCur ? sim_rnd(600) - 300 : sim_rnd(2) ? falign * sim_rnd(4) : sim_rnd(3 * falign);
		if (p == seekCur && h->f->st.offset + off < 0) off = 0;
		int r = kfiber_file_seek(h->f, p, off);
		sim_raw("{\"e\":\"seek\",\"h\":%d,\"p\":\"%s\",\"off\":%d,\"ok\":%d}", i, p == seekBegin ? "set" : p == seekCur ? "cur" : "end", off, r == 0);
		break; }
	case 7: sim_raw("{\"e\":\"tell\",\"h\":%d,\"r\":%lld}", i, (long long)kfiber_file_tell(h->f)); break;
	case 8: sim_raw("{\"e\":\"size\",\"h\":%d,\"r\":%lld}", i, (long long)kfiber_file_size(h->f)); break;
	}
	aio_free_buffer(raw);
	if (own && sim_rnd(12) == 0) kfiber_msleep(sim_rnd(5));
}
struct Far { int h; int done; };
static int far_fiber(void *arg, int) { Far *f = (Far *)arg; int n = 1 + sim_rnd(2); while (n--) do_op(f->h, false); f->done = 1; return 0; }
// file 0 is only read, by everybody; every other file belongs to one fiber
static int user(void *arg, int id)
{
	int mine[2] = { id * 3, id * 3 + 1 }, rd = id * 3 + 2, file = 1 + id, nsel = get_selector_count();
	int steps = 2 + sim_rnd(9);
	while (steps--) {
		int i = sim_rnd(3) ? mine[sim_rnd(2)] : rd;
		if (!hs[i].open) { do_open(i, i == rd ? 0 : file); continue; }
		if (sim_rnd(10) == 0) { do_close(i); continue; }
		if (nsel > 1 && sim_rnd(6) == 0) {
			Far f = { i, 0 }; kfiber *fb = NULL; int cur = 0;
			for (int k = 0; k < nsel; k++) if (get_selector_by_index(k) != kgl_get_tls_selector()) cur = k;
			if (kfiber_create2(get_selector_by_index(cur), far_fiber, &f, 0, 0, &fb)) abort();
			kfiber_join(fb, NULL);
			continue;
		}
		do_op(i, true);
	}
	for (int k = 0; k < 3; k++) if (hs[id * 3 + k].open) do_close(id * 3 + k);
	__sync_sub_and_fetch(&running, 1);
	return 0;
}
static int none_runs(void *) { return running == 0; }
SCENARIO(file)
{
	int nsel = 1 + sim_rnd(2), nu = 1 + sim_rnd(2);
	faults = sim_rnd(3) == 0;
	sim_iosubmit_hook = on_submit; sim_ioexec_hook = on_exec; sim_iodone_hook = on_done;
	boot(nsel);
	net_begin();
	kgl_aio_align_size = falign = kgl_aio_align_size > 512 || sim_rnd(4) == 0 ? 4096 : 512;
	std::string init;
	char *b = (char *)malloc(3 * falign);
	for (int i = 0; i < NF; i++) {
		int f = open("/tmp", O_TMPFILE | O_RDWR, 0600);
		if (f < 0) f = open("/dev/shm", O_TMPFILE | O_RDWR, 0600);
		if (f < 0) abort();
		rootfd[i] = fcntl(f, F_DUPFD, 100 + i); close(f);
		int n = sim_rnd(4) == 0 ? 0 : sim_rnd(4) == 0 ? falign * sim_rnd(3) : sim_rnd(3 * falign);
		fill(b, n);
		if (pwrite(rootfd[i], b, n, 0) != n) abort();
		init += (i ? "," : "") + runs(b, n);
	}
	free(b);
	sim_cfgjson("{\"align\":%d,\"files\":[%s]}", falign, init.c_str());
	running = nu;
	for (int i = 0; i < nu; i++) if (kfiber_create2(get_selector_by_index(sim_rnd(nsel)), user, NULL, i, 0, NULL)) abort();
	sim_wait(none_runs, NULL, -1);
	sim_quiesce(10);
	for (int i = 0; i < NF; i++) {
		char *c = (char *)malloc(400000); int n = pread(rootfd[i], c, 400000, 0);
		sim_raw("{\"e\":\"content\",\"file\":%d,\"data\":%s}", i, runs(c, n).c_str()); free(c); close(rootfd[i]);
	}
	net_end(nsel, 0, true);
}
