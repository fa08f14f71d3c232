// C28: the blocking file calls.
#include "common.h"
#include "kfile.h"
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
#define NH 4
#define NN 5	// names: 0-2 files, 3 a symbolic link to name 0, 4 a directory
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._";
static char root[200];
static FILE_HANDLE fd[NH]; static int inuse[NH];
static std::string path(int n) { return std::string(root) + "/" + (char)('a' + n); }
static const char *show(const char *b, long n) { static char t[8192]; for (long i = 0; i < n; i++) t[i] = b[i] == 0 ? '~' : strchr(AL, b[i]) ? b[i] : '?'; t[n < 0 ? 0 : n] = 0; return t; }
static const char *models[] = { "r", "a", "m", "w", "rw", "wr" };
static fileModel fm[] = { fileRead, fileAppend, fileModify, fileWrite, fileReadWrite, fileWriteRead };
static int slot(int want) { int i = sim_rnd(NH); for (int k = 0; k < NH; k++, i = (i + 1) % NH) if (inuse[i] == want) return i; return -1; }
static int length() { return sim_rnd(8) == 0 ? 0 : sim_rnd(5) == 0 ? 1 + sim_rnd(200) : 1 + sim_rnd(12); }
static void step()
{
	int h = slot(1), k = sim_rnd(16);
	if (h < 0 || (k < 2 && slot(0) >= 0)) {
		h = slot(0);
		int n = sim_rnd(NN), m = n == 4 ? 1 + sim_rnd(5) : sim_rnd(6), nf = sim_rnd(3) == 0, fl = nf ? KFILE_NOFOLLOW : 0;
		if (sim_rnd(6) == 0) fl |= KFILE_DSYNC;
		if (sim_rnd(6) == 0) fl |= KFILE_NOATIME;
		if (sim_rnd(6) == 0) fl |= KFILE_SEQUENTIAL | KFILE_ASYNC;
		FILE_HANDLE f = kfopen(path(n).c_str(), fm[m], fl);
		int ok = kflike(f);
		int gl = ok ? fcntl(f, F_GETFL) : 0;
		int ds = (fl & KFILE_DSYNC) && ok ? (gl & O_DSYNC) != 0 : 1, na = (fl & KFILE_NOATIME) && ok ? (gl & O_NOATIME) != 0 : 1;
		struct stat st; int rights = stat(path(n).c_str(), &st) == 0 ? st.st_mode & 0777 : 0;
		sim_raw("{\"e\":\"open\",\"h\":%d,\"n\":%d,\"m\":\"%s\",\"nf\":%d,\"ok\":%d,\"kept\":%d,\"as\":%d,\"rights\":%d}", h, n, models[m], nf, ok, ok ? !(fcntl(f, F_GETFD) & FD_CLOEXEC) : 0, ds && na, rights == 0755 || rights == 0 ? 0644 : rights);
		if (ok) { fd[h] = f; inuse[h] = 1; }
		return;
	}
	char b[8192]; memset(b, '#', sizeof b);
	switch (k) {
	case 2: case 3: { int l = length(); long r = kfread(fd[h], b, l); sim_raw("{\"e\":\"read\",\"h\":%d,\"l\":%d,\"r\":%ld,\"d\":\"%s\"}", h, l, r, show(b, r)); break; }
	case 4: case 5: {
		int l = length(); bool r = kfread_all(fd[h], b, l); int over = 0, n = l;
		for (int i = l; i < (int)sizeof b; i++) if (b[i] != '#') over = 1;
		while (n > 0 && b[n - 1] == '#') n--;
		sim_raw("{\"e\":\"readall\",\"h\":%d,\"l\":%d,\"ok\":%d,\"over\":%d,\"d\":\"%s\"}", h, l, r, over, show(b, n)); break; }
	case 6: case 7: case 8: { int l = length(); for (int i = 0; i < l; i++) b[i] = AL[sim_rnd(64)]; long r = kfwrite(fd[h], b, l); b[l] = 0; sim_raw("{\"e\":\"write\",\"h\":%d,\"l\":%d,\"r\":%ld,\"d\":\"%s\"}", h, l, r, b); break; }
	case 9: case 10: {
		static const seekPosion sp[] = { seekBegin, seekCur, seekEnd }; static const char *nm[] = { "set", "cur", "end" };
		int p = sim_rnd(3), o = p == 0 ? sim_rnd(40) - 4 : sim_rnd(40) - 20;
		int64_t at = o; int far = p == 0 && sim_rnd(10) == 0;
		if (far) at = (1LL << 32) + o;
		bool r = kfseek(fd[h], at, sp[p]);
		if (far) { long long q = lseek(fd[h], 0, SEEK_CUR); sim_raw("{\"e\":\"far\",\"h\":%d,\"ok\":%d}", h, r && q == at); kfseek(fd[h], 0, seekBegin); }
		else sim_raw("{\"e\":\"seek\",\"h\":%d,\"p\":\"%s\",\"o\":%d,\"ok\":%d}", h, nm[p], o, r);
		break; }
	case 11: sim_raw("{\"e\":\"size\",\"h\":%d,\"r\":%ld}", h, (long)kfsize(fd[h])); break;
	case 12: {
		int t = 1000000 + sim_rnd(1000000);
		bool r = kfutime(fd[h], t);
		sim_raw("{\"e\":\"utime\",\"h\":%d,\"t\":%d,\"ok\":%d}", h, t, r); break; }
	case 13: {
		if (sim_rnd(2)) { time_t t = kftime(fd[h]); sim_raw("{\"e\":\"ftime\",\"h\":%d,\"t\":%ld}", h, t > 1000000000 ? 1L : (long)t); }
		else { int n = sim_rnd(NN + 1); time_t t = kfile_last_modified(path(n).c_str()); sim_raw("{\"e\":\"mtime\",\"n\":%d,\"t\":%ld}", n, t > 1000000000 ? 1L : (long)t); }
		break; }
	case 14: kfclose(fd[h]); inuse[h] = 0; sim_raw("{\"e\":\"close\",\"h\":%d}", h); break;
	case 15:
		if (sim_rnd(2)) { int n = sim_rnd(3); int r = unlink(path(n).c_str()); sim_raw("{\"e\":\"unlink\",\"n\":%d,\"ok\":%d}", n, r == 0); }
		else { int r = kfseek(-1, 0, seekBegin) || kfsize(-1) != 0 || kftime(-1) != 0 || kfutime(-1, 5) || kfread_all(-1, b, 3); sim_raw("{\"e\":\"none\",\"r\":%d}", r); }
		break;
	}
}
SCENARIO(plain)
{
	sim_cfgjson("{}");
	int fds = sim_live_fds();
	snprintf(root, sizeof root, "%s/pfXXXXXX", sim_param("dir", "/tmp"));
	if (!mkdtemp(root)) abort();
	umask(022);
	if (symlink("a", path(3).c_str()) || mkdir(path(4).c_str(), 0755)) abort();
	sim_file_short = sim_rnd(2);
	for (int n = 5 + sim_rnd(40); n > 0; n--) step();
	for (int i = 0; i < NH; i++) if (inuse[i]) { kfclose(fd[i]); sim_raw("{\"e\":\"close\",\"h\":%d}", i); }
	for (int i = 0; i < 4; i++) unlink(path(i).c_str());
	rmdir(path(4).c_str()); rmdir(root);
	sim_raw("{\"e\":\"End\",\"fds\":%d}", sim_live_fds() - fds);
}
