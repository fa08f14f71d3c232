#ifndef NET_H
#define NET_H
// what is left over at the end of a run with sockets
static int sum_counts, counted;
static kev_result count_cb(KOPAQUE, void *, int) { __sync_add_and_fetch(&sum_counts, (int)kgl_get_tls_selector()->count); ATOMIC_INC(counted); return kev_ok; }
static int allcounted(void *p) { return counted == *(int *)p; }
static int base_fds; static long base_live;
static inline int now_ms() { return (int)(sim_now_us() / 1000); }
static inline void net_begin() { sim_mem_mark(); base_fds = sim_live_fds(); base_live = sim_live_total(); }
static inline void net_end(int nsel, int n, bool longrun)
{
	sim_quiesce(200);
	for (int i = 0; i < nsel; i++) kgl_selector_module.next(get_selector_by_index(i), NULL, count_cb, NULL, 0);
	sim_wait(allcounted, &nsel, 1000);
	// the notice being handled is the only thing registered while a loop looks at its own count
	if (getenv("DUMP")) sim_dump_live();
	sim_raw("{\"e\":\"End\",\"n\":%d,\"live\":%ld,\"badclose\":%ld,\"leakfd\":%d,\"counts\":%d}", n, longrun ? sim_live_total() - base_live : sim_live_since_mark(), sim_bad_close, sim_live_fds() - base_fds, sum_counts);
}
#endif
