From 2696924947a5e51851e0f2b0a45a863fc19b6888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 01/48] fix: kfiber_mutex_set_limit wakes waiters when raised
 and throttles hand-off when lowered

---
 include/kfiber_sync.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index 5ee8ea5..bd6495c 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -74,9 +74,19 @@ INLINE void kfiber_mutex_set_limit(kfiber_mutex* mutex, int limit) {
 	if (limit < 1) {
 		limit = 1;
 	}
+	kfiber_waiter* granted = NULL;
 	kmutex_lock(&mutex->lock);
 	mutex->limit = limit;
+	/* new slots go to the fibers waiting for one */
+	while (mutex->waiter && mutex->worker < mutex->limit) {
+		kfiber_waiter* waiter = mutex->waiter;
+		mutex->waiter = waiter->next;
+		waiter->next = granted;
+		granted = waiter;
+		mutex->worker++;
+	}
 	kmutex_unlock(&mutex->lock);
+	kfiber_wakeup_all_waiter(granted, 0);
 }
 INLINE int kfiber_mutex_get_worker(kfiber_mutex* mutex) {
 	int worker;
@@ -110,7 +120,8 @@ INLINE int kfiber_mutex_unlock(kfiber_mutex* mutex) {
 	assert(mutex->count > 0);
 	mutex->count--;
 	kfiber_waiter* waiter = mutex->waiter;
-	if (waiter == NULL) {
+	if (waiter == NULL || mutex->worker > mutex->limit) {
+		/* nobody waits, or the limit was lowered below the number of holders */
 		assert(mutex->worker > 0);
 		mutex->worker--;
 		kmutex_unlock(&mutex->lock);
-- 
2.43.0


From f5bffbbf5ad3b5ce03596475ef672c338bf85f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 02/48] fix: kfiber_mutex_lock2 counts its request and can be
 called from a selector

---
 src/kfiber_sync.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 0ab8567..88ba40a 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -10,8 +10,9 @@
 //mutext
 kev_result kfiber_mutex_lock2(kfiber_mutex* mutex, KOPAQUE data, result_callback notice, void* arg)
 {
-	kassert(kfiber_self2() == NULL);
+	kassert(kfiber_is_main());
 	kmutex_lock(&mutex->lock);
+	mutex->count++;
 	if (mutex->worker < mutex->limit) {
 		mutex->worker++;
 		kmutex_unlock(&mutex->lock);
-- 
2.43.0


From b619fc5560e903b69e444c72b0eb5d66e1b9301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 03/48] fix: kfiber_rwlock_wunlock admits waiting readers
 before waking them outside the lock

---
 include/kfiber_sync.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index bd6495c..ca4d6a1 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -206,13 +206,12 @@ INLINE int kfiber_rwlock_wunlock(kfiber_rwlock* mutex) {
 	if (mutex->reader) {
 		kfiber_waiter* waiter = mutex->reader;
 		mutex->reader = NULL;
-		while (waiter) {
+		/* all of them hold the lock before the first one runs */
+		for (kfiber_waiter* reader = waiter; reader; reader = reader->next) {
 			mutex->cnt++;
-			kfiber_waiter* next = waiter->next;
-			kfiber_wakeup_waiter(waiter, 0);
-			waiter = next;
 		}
 		kmutex_unlock(&mutex->lock);
+		kfiber_wakeup_all_waiter(waiter, 0);
 		return 0;
 	}
 	return __kfiber_rwlock_try_wakeup_writer(mutex);
-- 
2.43.0


From beb9d0813513fdda43f2b5b7b618d4f17af03395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 04/48] fix: kcond waits end only for a notice and manual-reset
 events stay signalled

---
 include/ksync.h | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/ksync.h b/include/ksync.h
index c34a859..06098f3 100644
--- a/include/ksync.h
+++ b/include/ksync.h
@@ -22,6 +22,9 @@ typedef void kcond;
 typedef struct {
 	bool ev;
 	bool auto_reset;
+	/* tickets of waiting threads, those before released_ticket may go */
+	uint32_t next_ticket;
+	uint32_t released_ticket;
 	kmutex  mutex;
 	pthread_cond_t cond;
 } kcond;
@@ -56,13 +59,15 @@ INLINE void kcond_wait(kcond *cond)
 #else
 	kmutex_lock(&cond->mutex);
 	if (cond->ev) {
-		cond->ev = false;
+		if (cond->auto_reset) {
+			cond->ev = false;
+		}
 		kmutex_unlock(&cond->mutex);
 		return;
 	}
-	pthread_cond_wait(&cond->cond, &cond->mutex);
-	if (cond->auto_reset) {
-		cond->ev = false;
+	uint32_t ticket = cond->next_ticket++;
+	while ((int32_t)(ticket - cond->released_ticket) >= 0) {
+		pthread_cond_wait(&cond->cond, &cond->mutex);
 	}
 	kmutex_unlock(&cond->mutex);
 #endif
@@ -73,7 +78,9 @@ INLINE bool kcond_try_wait(kcond* cond, int msec) {
 #else
 	kmutex_lock(&cond->mutex);
 	if (cond->ev) {
-		cond->ev = false;
+		if (cond->auto_reset) {
+			cond->ev = false;
+		}
 		kmutex_unlock(&cond->mutex);
 		return true;
 	}
@@ -94,12 +101,16 @@ INLINE void kcond_notice(kcond *cond)
 	SetEvent(cond);
 #else
 	kmutex_lock(&cond->mutex);
-	cond->ev = true;
-	if (cond->auto_reset) {
-		pthread_cond_signal(&cond->cond);
+	if (!cond->auto_reset) {
+		cond->ev = true;
+		cond->released_ticket = cond->next_ticket;
+	} else if (cond->released_ticket != cond->next_ticket) {
+		/* goes to the thread waiting longest */
+		cond->released_ticket++;
 	} else {
-		pthread_cond_broadcast(&cond->cond);
+		cond->ev = true;
 	}
+	pthread_cond_broadcast(&cond->cond);
 	kmutex_unlock(&cond->mutex);
 #endif
 }
-- 
2.43.0


From 661198a78ff4658d9f4d15f175c50c541236d9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 05/48] fix: kfiber_new returns NULL when the stack cannot be
 allocated

---
 src/kfiber.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kfiber.c b/src/kfiber.c
index 84f1c20..8357970 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -245,6 +245,9 @@ kfiber* kfiber_new(kfiber_start_func start, void* start_arg, int stk_size) {
 #else
 	fiber = (kfiber*)malloc(sizeof(kfiber) + stk_size + 2 * KFIBER_REDZONE);
 #endif
+	if (fiber == NULL) {
+		return NULL;
+	}
 	//printf("new fiber [%p] stk_size=[%d]\n", fiber, stk_size);
 	memset(fiber, 0, sizeof(kfiber));
 	fiber->base.st_flags = STF_FIBER;
-- 
2.43.0


From 8590d7591b31605da10fa71a8801c9af4d52cea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 06/48] fix: kfiber_thread_init forgets the main fiber it
 frees, so a thread can run kasync_main again

---
 src/kfiber.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kfiber.c b/src/kfiber.c
index 8357970..86009fe 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -178,6 +178,7 @@ kev_result kfiber_thread_init(KOPAQUE data, void* arg, int got) {
 		//exit
 		kfiber* fiber = kfiber_main();
 		if (fiber) {
+			pthread_setspecific(kgl_main_fiber_key, NULL);
 			xfree(fiber);
 		}
 		return kev_ok;
-- 
2.43.0


From 8653bd583dcf8ee0e76060c8bab342ec95dd1776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 07/48] fix: the end of a fiber completes every exit callback
 and join, not just one

---
 src/kfiber.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index 86009fe..b48a7ae 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -337,7 +337,7 @@ int kfiber_exit_callback(KOPAQUE data, result_callback notice, void* arg) {
 	kfiber* fiber = kfiber_self2();
 	CHECK_FIBER(fiber);
 	if (fiber->close_cond == NULL) {
-		fiber->close_cond = kfiber_cond_init(true);
+		fiber->close_cond = kfiber_cond_init(false);
 	}
 	return fiber->close_cond->f->wait_callback(fiber->close_cond, data, notice, arg);
 }
@@ -346,9 +346,9 @@ kfiber* kfiber_ref_self(bool thread_safe) {
 	assert(fiber && !kfiber_is_main_fiber(fiber));
 	if (fiber->close_cond == NULL) {
 		if (thread_safe) {
-			fiber->close_cond = kfiber_cond_init_ts(true);
+			fiber->close_cond = kfiber_cond_init_ts(false);
 		} else {
-			fiber->close_cond = kfiber_cond_init(true);
+			fiber->close_cond = kfiber_cond_init(false);
 		}
 	}
 	katom_inc((void*)&fiber->base.ref);
-- 
2.43.0


From 627c6b5bd233594b6f80a92816015298bf9d06e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 08/48] fix: joining an ended fiber by callback delivers its
 value

---
 include/kfiber_internal.h | 1 +
 src/kfiber_sync.c         | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kfiber_internal.h b/include/kfiber_internal.h
index 4e4890d..016727e 100644
--- a/include/kfiber_internal.h
+++ b/include/kfiber_internal.h
@@ -100,6 +100,7 @@ struct _kfiber_cond {
 	kfiber_cond_function* f;
 	kfiber_waiter* waiter;
 	volatile int32_t ev;
+	int got; /* value of the last notice, for callbacks that come after it */
 };
 typedef struct _kfiber_event_waiter {
 	kgl_base_selectable base;
diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 88ba40a..6f57cfc 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -49,7 +49,7 @@ kev_result kfiber_cond_wait_callback_ar(kfiber_cond* fc, KOPAQUE data, result_ca
 kev_result kfiber_cond_wait_callback(kfiber_cond * fc, KOPAQUE data, result_callback notice, void* arg)
 {
 	if (fc->ev>0) {
-		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, 0);
+		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, fc->got);
 		return kev_ok;		
 	}
 	kfiber_add_ev_waiter(&fc->waiter, kgl_get_tls_selector(), data, notice, arg);
@@ -75,8 +75,9 @@ kev_result kfiber_cond_wait_callback_ts(kfiber_cond* fc, KOPAQUE data, result_ca
 	kfiber_cond_ts* fcs = (kfiber_cond_ts*)fc;
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
+		int got = fc->got;
 		kmutex_unlock(&fcs->lock);
-		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, 0);
+		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, got);
 		return kev_ok;
 	}
 	kfiber_add_ev_waiter(&fc->waiter, kgl_get_tls_selector(), data, notice, arg);
@@ -114,6 +115,7 @@ int kfiber_cond_notice_ts(kfiber_cond* fc,int got)
 	kfiber_cond_ts* fcs = (kfiber_cond_ts*)fc;
 	kmutex_lock(&fcs->lock);
 	fc->ev = 1;
+	fc->got = got;
 	kfiber_waiter* waiter = fc->waiter;
 	fc->waiter = NULL;
 	kmutex_unlock(&fcs->lock);
@@ -124,6 +126,7 @@ int kfiber_cond_notice_ts(kfiber_cond* fc,int got)
 int kfiber_cond_notice(kfiber_cond* fc,int got)
 {
 	fc->ev = 1;
+	fc->got = got;
 	kfiber_waiter* waiter = fc->waiter;
 	fc->waiter = NULL;
 	kfiber_wakeup_all_waiter(waiter,got);
-- 
2.43.0


From 3d2c167f32d86c5b8cdd9be872ae845cb810d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 09/48] fix: every loop moves its timers back itself when the
 system clock is stepped back

---
 include/kselectable.h   |  2 +-
 include/kselector.h     |  2 ++
 src/kselector.c         | 39 ++++++++++++++++++++-------------------
 src/kselector_manager.c | 22 +++++++++++-----------
 4 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/include/kselectable.h b/include/kselectable.h
index 64ebd4b..2938c2f 100644
--- a/include/kselectable.h
+++ b/include/kselectable.h
@@ -96,7 +96,7 @@ INLINE void kselector_add_list(kselector* selector, kselectable* st, int list) {
 	st->base.tmo_left = st->base.tmo;
 	kassert(st->base.selector == selector);
 	if (list != KGL_LIST_READY) {
-		st->active_msec = kgl_current_msec;
+		st->active_msec = kselector_now(selector);
 	}
 	kassert(list >= 0 && list < KGL_LIST_COUNT);
 	if (st->base.queue.next) {
diff --git a/include/kselector.h b/include/kselector.h
index 94d61d9..9b3dbce 100644
--- a/include/kselector.h
+++ b/include/kselector.h
@@ -118,6 +118,7 @@ struct kselector_s
 	kgl_list tick;
 	struct krb_root block;
 	struct krb_node* block_first;
+	int64_t last_msec;
 	kfiber* current;
 #ifdef MALLOCDEBUG
 	volatile
@@ -135,6 +136,7 @@ INLINE bool kselector_is_same_thread(kselector* selector) {
 void kselector_update_time();
 int kselector_check_timeout(kselector* selector, int event_number);
 int kselector_add_timer(kselector* selector, result_callback result, void* arg, int msec, KOPAQUE data);
+int64_t kselector_now(kselector* selector);
 void kselector_adjust_time(kselector* selector, int64_t diff_time);
 void kselector_default_bind(kselector* selector, kselectable* st);
 bool kselector_default_readhup(kselector* selector, kselectable* st, result_callback result, void* arg);
diff --git a/src/kselector.c b/src/kselector.c
index e48d8d4..d163e27 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -45,13 +45,6 @@ static inline int gettimeofday(struct timeval *tp, void *tzp)
 	return (0);
 }
 #endif
-static kev_result next_adjust_time(KOPAQUE data, void *arg, int got)
-{
-	int64_t *diff_time = (int64_t *)arg;
-	kselector_adjust_time(kgl_get_tls_selector(), *diff_time);
-	xfree(diff_time);
-	return kev_ok;
-}
 static INLINE struct krb_node *kgl_insert_block_queue(struct krb_root *root, kgl_block_queue *brq, bool *is_first)
 {
 	struct krb_node **n = &(root->rb_node), *parent = NULL;
@@ -110,12 +103,7 @@ void kselector_next(kselector *selector, KOPAQUE data, result_callback result, v
 }
 void kselector_adjust_time(kselector *selector, int64_t diff_time)
 {
-	if (!kselector_is_same_thread(selector)) {
-		int64_t *param = xmemory_new(int64_t);
-		*param = diff_time;
-		kgl_selector_module.next(selector,NULL, next_adjust_time, param,0);
-		return;
-	}
+	kassert(kselector_is_same_thread(selector));
 	struct krb_node *node = selector->block_first;
 	while (node) {
 		kgl_block_queue *brq = (kgl_block_queue *)node->data;
@@ -131,6 +119,17 @@ void kselector_adjust_time(kselector *selector, int64_t diff_time)
 		}
 	}
 }
+int64_t kselector_now(kselector *selector)
+{
+	int64_t now = kgl_current_msec;
+	int64_t diff_msec = now - selector->last_msec;
+	selector->last_msec = now;
+	if (unlikely(diff_msec < 0)) {
+		//the system clock was stepped back, everything pending moves with it
+		kselector_adjust_time(selector, diff_msec);
+	}
+	return now;
+}
 void kselector_update_time()
 {	
 	struct timeval   tv;
@@ -169,14 +168,15 @@ int kselector_check_timeout(kselector *selector,int event_number)
 				selectable_shutdown(st);
 			}
 #endif
-			if ((kgl_current_msec - st->active_msec) < (time_t)selector->timeout[i]) {
+			int64_t now = kselector_now(selector);
+			if ((now - st->active_msec) < (time_t)selector->timeout[i]) {
 				break;
 			}
 			klist_remove(l);
 			memset(l, 0, sizeof(kgl_list));
 			if (st->base.tmo_left > 0) {
 				st->base.tmo_left--;
-				st->active_msec = kgl_current_msec;
+				st->active_msec = now;
 				klist_append(&selector->list[i], l);
 				continue;
 			}
@@ -188,7 +188,7 @@ int kselector_check_timeout(kselector *selector,int event_number)
 			if (KBIT_TEST(st->base.st_flags, STF_RTIME_OUT) && KBIT_TEST(st->base.st_flags,STF_READ)>0) {
 				//set read time out
 				klist_append(&selector->list[i], l);
-				st->active_msec = kgl_current_msec;
+				st->active_msec = now;
 				kassert(st->e[OP_READ].result);
 				st->e[OP_READ].result(st->data, st->e[OP_READ].arg, ST_ERR_TIME_OUT);
 				continue;
@@ -198,15 +198,16 @@ int kselector_check_timeout(kselector *selector,int event_number)
 		}
 	}
 
+	int64_t now = kselector_now(selector);
 	while (selector->block_first) {
 		kgl_block_queue *rq = (kgl_block_queue *)selector->block_first->data;
 		kassert(rq);
 #ifdef MALLOCDEBUG
 		if (selector->shutdown) {
-			rq->active_msec = kgl_current_msec - 1;
+			rq->active_msec = now - 1;
 		}
 #endif
-		if (kgl_current_msec < rq->active_msec) {
+		if (now < rq->active_msec) {
 			break;
 		}
 		struct krb_node *next = rb_next(selector->block_first);
@@ -298,7 +299,7 @@ int kselector_add_timer(kselector *selector, result_callback result, void *arg,
 #endif
 	kgl_block_queue *brq = (kgl_block_queue *)xmalloc(sizeof(kgl_block_queue));
 	memset(brq, 0, sizeof(kgl_block_queue));
-	brq->active_msec = kgl_current_msec + msec;
+	brq->active_msec = kselector_now(selector) + msec;
 	brq->func = result;
 	brq->arg = arg;
 	brq->data = data;
diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 34e34fb..6ef3cf6 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -103,7 +103,9 @@ void kselector_add_block_queue(kselector *selector, kgl_block_queue *bq);
 static kev_result next_add_timer(KOPAQUE data, void *arg, int got)
 {
 	kgl_block_queue *brq = (kgl_block_queue *)arg;
-	kselector_add_block_queue(kgl_get_tls_selector(),brq);
+	kselector *selector = kgl_get_tls_selector();
+	brq->active_msec += kselector_now(selector);
+	kselector_add_block_queue(selector, brq);
 	return kev_ok;
 }
 static kev_result add_timer_on_ready(KOPAQUE data, void* arg, int got)
@@ -116,7 +118,7 @@ static kev_result add_timer_on_ready(KOPAQUE data, void* arg, int got)
 void selector_manager_add_timer(result_callback timer, void *arg, int msec, KOPAQUE data)
 {
 	kgl_block_queue *brq = xmemory_new(kgl_block_queue);
-	brq->active_msec = kgl_current_msec + msec;
+	brq->active_msec = msec;
 	brq->func = timer;
 	brq->arg = arg;
 	brq->data = data;
@@ -128,16 +130,17 @@ void selector_manager_add_timer(result_callback timer, void *arg, int msec, KOPA
 }
 void kselector_add_timer_ts(kselector *selector,result_callback timer, void *arg, int msec, KOPAQUE data)
 {
-	kgl_block_queue *brq = xmemory_new(kgl_block_queue);
-	brq->active_msec = kgl_current_msec + msec;
-	brq->func = timer;
-	brq->arg = arg;
-	brq->data = data;
 	kassert(is_selector_manager_init());
 	if (kselector_is_same_thread(selector)) {
-		kselector_add_block_queue(selector, brq);
+		kselector_add_timer(selector, timer, arg, msec, data);
 		return;
 	}
+	kgl_block_queue *brq = xmemory_new(kgl_block_queue);
+	//made absolute by the selector's own clock
+	brq->active_msec = msec;
+	brq->func = timer;
+	brq->arg = arg;
+	brq->data = data;
 	kgl_selector_module.next(selector, NULL, next_add_timer, brq, 0);		
 }
 int get_selector_count()
@@ -182,9 +185,6 @@ void selector_manager_adjust_time(int64_t diff_msec)
 {
 	klog(KLOG_ERR, "WARNING!! adjust system time diff_msec=[" INT64_FORMAT "]\n",diff_msec);
 	kgl_program_start_sec += (diff_msec / 1000);
-	for (int i = 0; i < kgl_selector_count; i++) {
-		kselector_adjust_time(kgl_selectors[i], diff_msec);
-	}
 }
 static kev_result kthread_flush_timer(KOPAQUE data, void *arg, int got)
 {
-- 
2.43.0


From c294c1426eba446f257b067d2f54a57b4aea04d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:31 +0000
Subject: [PATCH 10/48] fix: a worker that cannot start a thread withdraws the
 job instead of corrupting its counts

---
 src/kasync_worker.c | 48 +++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/kasync_worker.c b/src/kasync_worker.c
index 23b4767..a5f4716 100644
--- a/src/kasync_worker.c
+++ b/src/kasync_worker.c
@@ -85,8 +85,21 @@ bool kasync_worker_thread_start(void *param, kasync_worker_callback cb)
 	xfree(p);
 	return false;
 }
-static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bool high)
+//false: no thread works for the worker and none can be started, rq is not queued
+static bool kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bool high)
 {
+	if (worker->worker < worker->max_worker) {
+		worker->worker++;
+		kasync_worker_refs(worker);
+		if (!kthread_pool_start(kasync_worker_worker_thread,worker)) {
+			worker->worker--;
+			kasync_worker_release(worker);
+			if (worker->worker <= 0) {
+				return false;
+			}
+		}
+	}
+
 	worker->queue++;
 	if (worker->last == NULL) {
 		kassert(worker->head == NULL);
@@ -103,16 +116,7 @@ static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bo
 			worker->last = rq;
 		}
 	}
-	if (worker->worker >= worker->max_worker) {
-		return;
-	}
-	worker->worker++;
-	kasync_worker_refs(worker);
-	if (!kthread_pool_start(kasync_worker_worker_thread,worker)) {
-		worker--;
-		kasync_worker_release(worker);
-	}
-	return;
+	return true;
 }
 bool kasync_worker_try_start(kasync_worker *worker, void *data, kasync_worker_callback cb, bool high)
 {
@@ -128,9 +132,12 @@ bool kasync_worker_try_start(kasync_worker *worker, void *data, kasync_worker_ca
 	rq->data = data;
 	rq->next = NULL;
 	rq->wait = NULL;
-	kasync_worker_add(worker,rq, high);
+	bool result = kasync_worker_add(worker,rq, high);
 	kmutex_unlock(&worker->lock);
-	return true;
+	if (!result) {
+		kasync_worker_param_destroy(rq);
+	}
+	return result;
 }
 bool kasync_worker_empty(kasync_worker *worker)
 {
@@ -152,8 +159,19 @@ void kasync_worker_start(kasync_worker *worker, void *data, kasync_worker_callba
 		wait = kcond_init(true);
 	}
 	rq->wait = wait;
-	kasync_worker_add(worker, rq, false);
-	kmutex_unlock(&worker->lock);
+	if (!kasync_worker_add(worker, rq, false)) {
+		//the caller works itself, nobody else does so the queue is empty
+		kassert(worker->head == NULL);
+		worker->worker++;
+		kasync_worker_refs(worker);
+		worker->queue++;
+		worker->head = rq;
+		worker->last = rq;
+		kmutex_unlock(&worker->lock);
+		kasync_worker_worker_thread(worker);
+	} else {
+		kmutex_unlock(&worker->lock);
+	}
 	if (wait != NULL) {
 		kcond_wait(wait);
 		kcond_destroy(wait);
-- 
2.43.0


From f474a2cdfd55754f532bf551d750b64180781a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 11/48] fix: host lookups ask for the canonical name, ignore a
 refresh of a host that is being looked up anew and hold their answer while
 delivering it

---
 src/kaddr.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 69ed9f3..97b4ac5 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -108,6 +108,7 @@ bool get_addr(const char *hostname, kgl_addr_type addr_type, struct addrinfo **r
 	case kgl_addr_cname:
 		f.ai_family = PF_INET;
 		f.ai_flags = AI_CANONNAME;
+		break;
 	default:
 		f.ai_family = PF_UNSPEC;
 		f.ai_flags = 0;
@@ -150,6 +151,14 @@ static void update_addr_cache(kgl_addr_key *key, struct addrinfo *addr) {
 		node->data = cn;
 	} else {
 		cn = (kgl_addr_node *)node->data;
+		if (cn->prev == NULL) {
+			//flushed meanwhile and looked up again, that query has its own answer
+			kmutex_unlock(&addr_lock);
+			if (addr) {
+				freeaddrinfo(addr);
+			}
+			return;
+		}
 		klist_remove(cn);
 	}
 	if (cn->addr != NULL) {
@@ -229,9 +238,14 @@ static void find_addr_result(kgl_addr_node *cn, struct addrinfo *addr, bool succ
 	kgl_addr *addr2 = NULL;
 	if (addr) {
 		addr2 = kgl_addr_new(addr);
+		//the cache may drop it as soon as it is there
+		kgl_addr_refs(addr2);
 	}
 	queue = update_addr_node_cache(cn, addr2);
 	addr_result(queue, addr2);
+	if (addr2) {
+		kgl_addr_release(addr2);
+	}
 }
 
 kev_result async_addr_worker(void *data, int msec)
-- 
2.43.0


From 5ee731cb2f0a7579d7632674de6e70fa6d87f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 12/48] fix: a pool block never hands out memory past its end
 when aligning

---
 src/kmalloc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kmalloc.c b/src/kmalloc.c
index beb0b3e..0a6c411 100644
--- a/src/kmalloc.c
+++ b/src/kmalloc.c
@@ -54,7 +54,8 @@ static INLINE void* kgl_palloc_small(kgl_pool_t* pool, size_t size, size_t align
 			m = (char*)kgl_align_ptr(m, KGL_ALIGNMENT);
 		}
 
-		if ((size_t)(p->d.end - m) >= size) {
+		/* aligning may have moved m past the end of the block */
+		if (m <= p->d.end && (size_t)(p->d.end - m) >= size) {
 			p->d.last = m + size;
 
 			return m;
-- 
2.43.0


From 8aa1d6c7d3324cbde7df13883660dabcf981acb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 13/48] fix: a pool array created empty gets room when it has
 to move

---
 src/kmalloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kmalloc.c b/src/kmalloc.c
index 0a6c411..c87ac88 100644
--- a/src/kmalloc.c
+++ b/src/kmalloc.c
@@ -287,14 +287,16 @@ void* kgl_array_push(kgl_array_t* a) {
 		} else {
 			/* allocate a new array */
 
-			new_elt = kgl_palloc(p, 2 * size);
+			size_t nalloc = a->nalloc > 0 ? 2 * a->nalloc : 1;
+
+			new_elt = kgl_palloc(p, nalloc * a->size);
 			if (new_elt == NULL) {
 				return NULL;
 			}
 
 			kgl_memcpy(new_elt, a->elts, size);
 			a->elts = new_elt;
-			a->nalloc *= 2;
+			a->nalloc = nalloc;
 		}
 	}
 
-- 
2.43.0


From d5624a0a2ff232e288490761905e83954d378604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 14/48] fix: rbtree_int_cmp orders keys that lie further apart
 than an int

---
 src/krbtree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/krbtree.c b/src/krbtree.c
index cb7c9ea..87269f9 100644
--- a/src/krbtree.c
+++ b/src/krbtree.c
@@ -33,7 +33,8 @@ int rbtree_int_cmp(const void *key1, const void *key2)
 {
 	int *k1 = (int *)key1;
 	int *k2 = (int *)key2;
-	return *k1 - *k2;
+	/* a difference would overflow for keys that lie far apart */
+	return (*k1 > *k2) - (*k1 < *k2);
 }
 static inline void rb_set_parent(struct krb_node *rb, struct krb_node *p)
 {
-- 
2.43.0


From 96f28f01f2e38be692ade819b374ea899e2c4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 15/48] fix: krw_insert keeps the place already read in the old
 head

---
 src/kbuf.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kbuf.c b/src/kbuf.c
index c839c5b..5e43f0b 100644
--- a/src/kbuf.c
+++ b/src/kbuf.c
@@ -36,7 +36,17 @@ void krw_insert(krw_buffer* rw_buffer, kbuf* buf) {
 		krw_append(rw_buffer, buf);
 		return;
 	}
-	buf->next = rw_buffer->head;
+	/* what was already read of the old head must not be read again */
+	kbuf* head = rw_buffer->head;
+	int readed = (int)(rw_buffer->read_hot - head->data);
+	if (readed > 0) {
+		head->used -= readed;
+		kgl_memcpy(head->data, head->data + readed, head->used);
+		if (head == rw_buffer->write_hot_buf && rw_buffer->write_hot) {
+			rw_buffer->write_hot -= readed;
+		}
+	}
+	buf->next = head;
 	rw_buffer->head = buf;
 	rw_buffer->total_len += buf->used;
 	rw_buffer->read_hot = rw_buffer->head->data;
-- 
2.43.0


From c468d5c98434ccdffba630dbb946c3bc0817600a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 16/48] fix: an empty chunk in a krw_buffer hides no data and
 is not data

---
 src/kbuf.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/kbuf.c b/src/kbuf.c
index 5e43f0b..1da7563 100644
--- a/src/kbuf.c
+++ b/src/kbuf.c
@@ -87,16 +87,21 @@ int krw_get_read_buffers(krw_buffer* rw_buffer, LPWSABUF buffer, int buffer_coun
 	}
 	kassert(rw_buffer->head);
 	kbuf* tmp = rw_buffer->head;
-	buffer[0].iov_base = rw_buffer->read_hot;
-	buffer[0].iov_len = (int)(rw_buffer->head->used - (rw_buffer->read_hot - rw_buffer->head->data));
-	int i;
-	for (i = 1; i < buffer_count; i++) {
+	char* hot = rw_buffer->read_hot;
+	int i = 0;
+	while (i < buffer_count) {
+		int len = (int)(tmp->used - (hot - tmp->data));
+		if (len > 0) {
+			/* an empty chunk offers nothing to read */
+			buffer[i].iov_base = hot;
+			buffer[i].iov_len = len;
+			i++;
+		}
 		tmp = tmp->next;
 		if (tmp == NULL) {
 			break;
 		}
-		buffer[i].iov_base = tmp->data;
-		buffer[i].iov_len = tmp->used;
+		hot = tmp->data;
 	}
 	return i;
 }
@@ -130,7 +135,7 @@ bool krw_read_success(krw_buffer* rw_buffer, int got) {
 			rw_buffer->read_hot = rw_buffer->head->data;
 		}
 	}
-	return true;
+	return rw_buffer->total_len > 0;
 }
 char* krw_get_write_buffer(krw_buffer* rw_buffer, int* len) {
 	if (rw_buffer->write_hot_buf == NULL) {
@@ -189,7 +194,7 @@ int krw_read(krw_buffer* rw_buffer, char* buf, int len) {
 		int length;
 		char* read_data = krw_get_read_buffer(rw_buffer, &length);
 		if (read_data == NULL) {
-			return 0;
+			break;
 		}
 		length = KGL_MIN(length, len);
 		if (length <= 0) {
-- 
2.43.0


From 43b8477df2309825b48ca088dbae17a889326f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 17/48] fix: event loops added later use the configured time
 limits

---
 src/kselector_manager.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 6ef3cf6..4af29a7 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -259,6 +259,9 @@ bool selector_manager_grow(int  new_size) {
 	for (int i = kgl_selector_count; i < new_size; i++) {
 		kgl_selectors[i] = kselector_new(NULL);
 		kgl_selectors[i]->sid = i;
+		for (int j = 0; j < KGL_LIST_COUNT; j++) {
+			kgl_selectors[i]->timeout[j] = kgl_selectors[0]->timeout[j];
+		}
 		kselector_start(kgl_selectors[i]);
 	}
 	kgl_selector_count = new_size;
-- 
2.43.0


From f79dd9d448ad9cffc8e18e4ed058f84eb921aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:35 +0000
Subject: [PATCH 18/48] fix: a turn taken with selectable_next_read is over
 once it was delivered

---
 src/kselectable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 9c3a704..f2b6e9d 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -459,8 +459,8 @@ kev_result selectable_event_read(kselectable* st, result_callback result, buffer
 kev_result selectable_read_event(kselectable* st)
 {
 #ifdef STF_ET
-	/* epoll notice fd read event use LT model other use ET model */
-	if (KBIT_TEST(st->base.st_flags, STF_ET))
+	/* epoll notice fd read event use LT model other use ET model, a turn asked for by selectable_next_read is always over */
+	if (KBIT_TEST(st->base.st_flags, STF_ET | STF_RREADY2))
 #endif
 		KBIT_CLR(st->base.st_flags, STF_READ);
 	if (unlikely(KBIT_TEST(st->base.st_flags, STF_UDP))) {
-- 
2.43.0


From 4c3b00eb18ed295b75f3bc86b28df53fdb63bcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:35 +0000
Subject: [PATCH 19/48] fix: kfiber_net_writev_full counts empty vectors as
 complete

---
 include/kfiber.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/kfiber.h b/include/kfiber.h
index 27ba431..3628421 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -211,6 +211,12 @@ INLINE bool kfiber_sendfile_full(kconnection * cn, kfiber_file * fp, int* len) {
 INLINE size_t kfiber_net_writev_full(kconnection * cn, kgl_iovec * buf, int* bc) {
 	size_t total_length = 0;
 	while (*bc > 0) {
+		if (buf->iov_len == 0) {
+			//nothing to write in this one, it is complete
+			buf++;
+			(*bc)--;
+			continue;
+		}
 		int got = kfiber_net_writev(cn, buf, *bc);
 		if (got <= 0) {
 			return total_length;
-- 
2.43.0


From 4336c47deaa718e149519927de0b8f32c2af4229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:46 +0000
Subject: [PATCH 20/48] fix: a read repeated after a read timeout uses its own
 buffer

---
 include/kfiber.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kfiber.h b/include/kfiber.h
index 3628421..9c15a7c 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -262,6 +262,8 @@ INLINE int kfiber_net_readv(kconnection * cn, kgl_iovec * buf, int bc) {
 		assert(cn->st.e[OP_READ].result == kfiber_result_callback);
 		//assert(cn->st.e[OP_READ].buffer == kfiber_buffer_callback);
 		assert(cn->st.e[OP_READ].arg == fiber);
+		//the buffer of the call that timed out is gone
+		cn->st.e[OP_READ].buffer = &iovec_buf;
 		return __kfiber_wait(fiber, cn->st.data);
 	}
 	return kfiber_wait_result(fiber, selectable_read(&cn->st, kfiber_result_callback, &iovec_buf, fiber), cn->st.data);
-- 
2.43.0


From b3f9595fa9af2a2fb8c7d83064f898240830cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 21/48] fix: a connect that was ended by its time limit or by
 shutdown fails

---
 src/kepoll_selector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 995c1d6..409d3e7 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -378,6 +378,10 @@ static int epoll_selector_select(kselector *selector,int tmo) {
 		//if (KBIT_TEST(ev, EPOLLHUP | EPOLLERR)) {
 		//	KBIT_SET(st->base.st_flags, STF_ERR);
 		//}
+		if (KBIT_TEST(ev, EPOLLERR)) {
+			//a connect ended by shutdown reports no hang-up of the peer
+			KBIT_SET(st->base.st_flags, STF_ERR);
+		}
 #ifdef EPOLLRDHUP
 		if (KBIT_TEST(ev,EPOLLRDHUP|EPOLLIN)==(EPOLLRDHUP|EPOLLIN)) {
 			KBIT_SET(st->base.st_flags, STF_ERR);
-- 
2.43.0


From 8fddf07ffaa1c59270c50bb37448ed1a5556b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:03 +0000
Subject: [PATCH 22/48] fix: comparing IPv4 addresses is a total order

---
 include/ksocket.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ksocket.h b/include/ksocket.h
index 434bdd2..7f67353 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -151,7 +151,7 @@ INLINE int ksocket_addr_compare(const sockaddr_i *a, const sockaddr_i *b)
 	}
 	if (a->v4.sin_family == PF_INET)
 #endif
-	return (int)a->v4.sin_addr.s_addr - (int)b->v4.sin_addr.s_addr;
+	return a->v4.sin_addr.s_addr < b->v4.sin_addr.s_addr ? -1 : a->v4.sin_addr.s_addr > b->v4.sin_addr.s_addr;
 #ifdef KSOCKET_IPV6
 	return memcmp(&a->v6.sin6_addr, &b->v6.sin6_addr, sizeof(a->v6.sin6_addr));
 #endif
@@ -191,11 +191,11 @@ INLINE int ksocket_ipaddr_compare(ip_addr *a, ip_addr *b)
 		return ret;
 	}
 	if (a->sin_family == PF_INET) {
-		return (int)a->addr32[0] - (int)b->addr32[0];
+		return a->addr32[0] < b->addr32[0] ? -1 : a->addr32[0] > b->addr32[0];
 	}
 	return memcmp(a->addr8, b->addr8, sizeof(a->addr8));
 #else
-	return (int)*a - (int)*b;
+	return *a < *b ? -1 : *a > *b;
 #endif
 }
 INLINE int ksocket_addr_len(const sockaddr_i *addr) {
-- 
2.43.0


From db301279c344392ff29bfceebd04ea83ff090a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:03 +0000
Subject: [PATCH 23/48] fix: an IPv4 ip_addr has no undefined words, equal
 addresses have equal hashes

---
 include/ksocket.h | 2 ++
 src/ksocket.c     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/ksocket.h b/include/ksocket.h
index 7f67353..a200ae4 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -97,6 +97,7 @@ struct ip_addr_s {
 		b.sin_family = sin_family;
 		if (sin_family == PF_INET) {
 			b.addr32[0] = addr32[0] & a.addr32[0];
+			b.addr32[1] = b.addr32[2] = b.addr32[3] = 0;
 			return b;
 		}
 		for (int i = 0; i < 4; i++) {
@@ -161,6 +162,7 @@ INLINE void ksocket_ipaddr_and(ip_addr *a, ip_addr *mask,ip_addr *ret)
 	ret->sin_family = a->sin_family;
 	if (ret->sin_family == PF_INET) {
 		ret->addr32[0] = a->addr32[0] & mask->addr32[0];
+		ret->addr32[1] = ret->addr32[2] = ret->addr32[3] = 0;
 		return;
 	}
 	for (int i = 0; i < 4; i++) {
diff --git a/src/ksocket.c b/src/ksocket.c
index 3231654..dac00c7 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -114,6 +114,7 @@ void ksocket_ipaddr(const sockaddr_i* addr, ip_addr* to) {
 	to->sin_family = addr->v4.sin_family;
 	if (addr->v4.sin_family == PF_INET) {
 		to->addr32[0] = addr->v4.sin_addr.s_addr;
+		to->addr32[1] = to->addr32[2] = to->addr32[3] = 0;
 	} else {
 		kgl_memcpy(&to->data, &addr->v6.sin6_addr, KGL_MIN(sizeof(to->data), sizeof(addr->v6.sin6_addr)));
 	}
-- 
2.43.0


From 4d9feb0fd0ed95c944c6496a64012daa43b8a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:23 +0000
Subject: [PATCH 24/48] fix: the address of a unix client has the room that
 kconnection_new copies

---
 include/kserver.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/kserver.h b/include/kserver.h
index b704511..62cd9ac 100644
--- a/include/kserver.h
+++ b/include/kserver.h
@@ -68,7 +68,14 @@ struct kserver_selectable_s{
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 	volatile int32_t hold_by_next_shutdown_refs;
 #endif
+#ifdef KSOCKET_UNIX
+	union {
+		sockaddr_i accept_addr;
+		struct sockaddr_un accept_un_addr;
+	};
+#else
 	sockaddr_i accept_addr;
+#endif
 	socklen_t addr_len;
 #ifdef _WIN32
 	char *tmp_addr_buf;
-- 
2.43.0


From 7645d6bd71f7d0bd0bc74715a1eeaea7064a4cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:23 +0000
Subject: [PATCH 25/48] fix: kfiber_net_accept fails when there is no
 connection

---
 src/kfiber.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index b48a7ae..4b8324c 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -426,9 +426,10 @@ int kfiber_net_accept(kserver_selectable * ss, kconnection * *c) {
 	//printf("accept filber=[%p] ss=[%p]\n", fiber, ss);
 	__kfiber_wait(fiber, (void*)ss->st.data);
 	*c = accept_result_new_connection(ss, fiber->retval);
-	if (*c) {
-		selectable_bind(&(*c)->st, ss->st.base.selector);
+	if (*c == NULL) {
+		return -1;
 	}
+	selectable_bind(&(*c)->st, ss->st.base.selector);
 	return 0;
 }
 int kfiber_net_getaddr(const char* hostname, kgl_addr * *addr) {
-- 
2.43.0


From 3de61172c9e5f6ad83db74d6a7bff79e7acf0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 26/48] fix: kserver_close does not shut down a socket number
 that was closed meanwhile

---
 src/kserver.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index d1d2e43..58215fb 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -351,12 +351,13 @@ void kserver_release(kserver *server)
 
 void kserver_selectable_destroy(kserver_selectable *ss)
 {
+	assert(ss->server);
+	kmutex_lock(&ss->server->ss_lock);
+	//under the lock, kserver_close may be shutting it down
 	if (ksocket_opened(ss->st.fd)) {
 		ksocket_close(ss->st.fd);
 		ksocket_init(ss->st.fd);
 	}
-	assert(ss->server);
-	kmutex_lock(&ss->server->ss_lock);
 	if (ss->queue.next) {
 		assert(!klist_empty(&ss->server->ss));
 		klist_remove(&ss->queue);
-- 
2.43.0


From b93ed1a9e40527f51d3da98552b8be5525a5cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 27/48] fix: direct reads at the end of file and failed direct
 transfers report it instead of aborting

---
 include/kasync_file.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/kasync_file.h b/include/kasync_file.h
index 3146bbb..11df59a 100644
--- a/include/kasync_file.h
+++ b/include/kasync_file.h
@@ -75,9 +75,12 @@ INLINE int kasync_file_adjust_result(kasync_file *fp,int got)
 	if (!fp->st.direct_io) {
 		return got;
 	}	
-	assert(got>fp->st.direct_io_offset);
-	if (got < fp->st.direct_io_offset) {
-		return -1;
+	if (got < 0) {
+		return got;
+	}
+	if (got <= fp->st.direct_io_offset) {
+		//end of file at or before the position
+		return 0;
 	}
 	got -= fp->st.direct_io_offset;
 	return KGL_MIN(got,fp->st.direct_io_orig_length);
-- 
2.43.0


From 16eeae8c4157bbd2c51a659ac9acc2a8aec449e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:32 +0000
Subject: [PATCH 28/48] fix: kfiber_file_safe_read fails when its fiber cannot
 be created

---
 src/kfiber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index 4b8324c..252d19c 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -691,7 +691,7 @@ int kfiber_file_safe_read(kfiber_file * fp, char* buf, int length) {
 	kfiber* ret_fiber = NULL;
 	int ret = 0;
 	if (kfiber_create2(selector, kfiber_file_safe_read_func, &param, 0, 0, &ret_fiber) != 0) {
-		return false;
+		return -1;
 	}
 	assert(ret_fiber);
 	kfiber_join(ret_fiber, &ret);
-- 
2.43.0


From 14c8589d47f15e0a93be24160b5d1d85532902cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 29/48] fix: a receive on a datagram socket that is shut down
 completes

---
 src/kselectable.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index f2b6e9d..6c565b9 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -4,6 +4,8 @@
 #include <stdio.h>
 #ifdef LINUX
 #include <sys/sendfile.h>
+#include <sys/epoll.h>
+#include <poll.h>
 #endif
 #ifdef BSD_OS
 //#include <sys/types.h>
@@ -178,6 +180,16 @@ int selectable_recvmsg(kselectable* st)
 	return recvmsg(st->fd, &msg, 0);
 }
 #endif
+#ifdef EPOLLRDHUP
+static inline bool selectable_is_hup(kselectable* st)
+{
+	struct pollfd pfd;
+	pfd.fd = st->fd;
+	pfd.events = POLLIN;
+	pfd.revents = 0;
+	return poll(&pfd, 1, 0) > 0 && KBIT_TEST(pfd.revents, POLLHUP);
+}
+#endif
 static inline kev_result selectable_udp_read_event(kselectable* st, result_callback result, buffer_callback buffer, void* arg)
 {
 #ifndef _WIN32
@@ -189,6 +201,12 @@ static inline kev_result selectable_udp_read_event(kselectable* st, result_callb
 	switch(errno) {
 	case EAGAIN:
 	case EINTR:
+#ifdef EPOLLRDHUP
+		if (KBIT_TEST(st->base.st_flags, STF_ERR) && selectable_is_hup(st)) {
+			//a datagram socket which is shut down has no end of file, recvmsg only finds nothing
+			return result(st->data, arg, ST_ERR_RESULT);
+		}
+#endif
 		KBIT_CLR(st->base.st_flags, STF_RREADY);
 		return kgl_selector_module.read(st->base.selector, st, result, buffer, arg);
 	case ENOMEM:
-- 
2.43.0


From 58a82f2c96f329d427aab584ebad7b64c47f4a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:19 +0000
Subject: [PATCH 30/48] fix: the local address of IPv6 datagrams is reported

---
 src/kselectable.c | 4 ++--
 src/kudp.c        | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 6c565b9..a03f7d0 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -172,10 +172,10 @@ int selectable_recvmsg(kselectable* st)
 	msg.msg_namelen = ksocket_addr_len((sockaddr_i *)msg.msg_name);
 	msg.msg_iov = (struct iovec *)st->e[OP_READ].buffer->iov_base;
 	msg.msg_iovlen = st->e[OP_READ].buffer->iov_len;
-	msg.msg_control = c->udp->pktinfo;
 	if (c->udp) {
 		memset(c->udp, 0, sizeof(kudp_extend));
-		msg.msg_controllen = sizeof(c->udp->pktinfo);
+		msg.msg_control = c->udp;
+		msg.msg_controllen = sizeof(kudp_extend);
 	}
 	return recvmsg(st->fd, &msg, 0);
 }
diff --git a/src/kudp.c b/src/kudp.c
index 9502dcf..f3cfd63 100644
--- a/src/kudp.c
+++ b/src/kudp.c
@@ -83,7 +83,12 @@ kconnection* kudp_new2(int flags, kselector* st)
 #else
 		setsockopt(uc->st.fd, IPPROTO_IP, IP_PKTINFO, (const char*)&n, sizeof(int));
 #endif
-		uc->udp = xmemory_new(kudp_extend);
+#ifdef IPV6_RECVPKTINFO
+		if (domain == PF_INET6) {
+			setsockopt(uc->st.fd, IPPROTO_IPV6, IPV6_RECVPKTINFO, (const char*)&n, sizeof(int));
+		}
+#endif
+		uc->udp = (kudp_extend*)xmemory_newz(sizeof(kudp_extend));
 	}
 	selectable_bind(&uc->st, st);
 	return uc;
-- 
2.43.0


From a360ca4ba50bc04dc8b09efbe088bc3d5ae262d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:57 +0000
Subject: [PATCH 31/48] fix: a TLS record that could not be flushed is written
 again

---
 src/kselectable.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index a03f7d0..b73272e 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -58,6 +58,12 @@ static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 			got += this_len;
 			break;
 		}
+#ifndef ENABLE_KSSL_BIO
+		if (got > 0) {
+			//a record which cannot be flushed must be written again, so it has to be the first of a call
+			return got;
+		}
+#endif
 	}
 	return got;
 }
-- 
2.43.0


From b06b5cd23e9824813a6c75e220288ed37550680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:57 +0000
Subject: [PATCH 32/48] fix: a TLS shutdown is not mistaken for failed after
 another connection's error

---
 src/kgl_ssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index f94e225..fd8ea51 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -818,6 +818,8 @@ kssl_status kgl_ssl_handshake(SSL* ssl) {
 	return ret_ok;
 }
 kssl_status kgl_ssl_shutdown(SSL* ssl) {
+	//the error of another connection would be taken for the result of this call
+	ERR_clear_error();
 	int n = SSL_shutdown(ssl);
 	if (n == 1) {
 		return ret_ok;
-- 
2.43.0


From dad32811699590b6846170563b6147750d6ae36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:57 +0000
Subject: [PATCH 33/48] fix: kfiber_ssl_shutdown keeps the opaque data of the
 connection

---
 src/kfiber.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index 252d19c..a6e1017 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -518,16 +518,15 @@ int kfiber_ssl_handshake(kconnection * cn) {
 }
 int kfiber_ssl_shutdown(kconnection * c) {
 	if (kconnection_is_ssl_handshake(c) && !c->st.ssl->shutdown) {
+		c->st.ssl->shutdown = 1;
 		if (c->st.base.selector != NULL) {
 			kfiber* fiber = kfiber_self(&c->st.base);
 			CHECK_FIBER(fiber);
-			c->st.data = NULL;
 			if (!KBIT_TEST(c->st.base.st_flags, STF_ERR)) {
 				fiber->arg = &c->st;
-				kfiber_wait_result(fiber, kselectable_ssl_shutdown((kselectable*)fiber->arg, result_fiber_ssl_shutdown, fiber), NULL);
+				kfiber_wait_result(fiber, kselectable_ssl_shutdown((kselectable*)fiber->arg, result_fiber_ssl_shutdown, fiber), c->st.data);
 			}
 		}
-		c->st.ssl->shutdown = 1;
 	}
 	return 0;
 }
-- 
2.43.0


From f5626c7558428f9bb3a933106a3987c38d35551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:57 +0000
Subject: [PATCH 34/48] fix: a TLS shutdown does not replace a pending read or
 write

---
 src/kconnection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kconnection.c b/src/kconnection.c
index 915f9c7..0d573f0 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -131,11 +131,19 @@ kev_result kselectable_ssl_shutdown(kselectable* st, result_callback cb, void* a
 #endif
 	switch (status) {
 	case SSL_ERROR_WANT_READ:
+		if (KBIT_TEST(st->base.st_flags, STF_READ | STF_RREADY2)) {
+			//somebody is reading, nobody can wait for the peer here
+			return cb(st->data, arg, 1);
+		}
 #ifndef ENABLE_KSSL_BIO
 		selectable_clear_flags(st, STF_RREADY);
 #endif
 		return selectable_read(st, cb, NULL, arg);
 	case SSL_ERROR_WANT_WRITE:
+		if (KBIT_TEST(st->base.st_flags, STF_WRITE | STF_WREADY2)) {
+			//somebody is still writing, it cannot be told in an orderly way any more
+			return cb(st->data, arg, 1);
+		}
 #ifndef ENABLE_KSSL_BIO
 		selectable_clear_flags(st, STF_WREADY);
 #endif
-- 
2.43.0


From 64ea3458a7b258e9373c3434efe007942a491e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 35/48] fix: a TLS read that finds no early data yet is not the
 end of the connection

---
 src/kselectable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index b73272e..f2daa95 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -92,7 +92,7 @@ static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 					continue;
 				}
 				if (n != SSL_READ_EARLY_DATA_SUCCESS) {
-					return got;
+					return got > 0 ? got : -1;
 				}
 				got += (int)read_bytes;
 				len -= (int)read_bytes;
-- 
2.43.0


From 9d0bfcd5c2b43fd746e052f0d9f937968fc97977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:59 +0000
Subject: [PATCH 36/48] fix: a TLS context update reached a listener that was
 already destroyed

---
 src/kserver.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index 58215fb..d3f0ad4 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -16,7 +16,7 @@
 #ifdef KSOCKET_SSL
 typedef struct {
 	kserver_selectable *ss;
-	kgl_ssl_ctx *ssl_ctx;
+	kserver *server;
 } kserver_update_ssl_ctx_param;
 #endif
 
@@ -426,8 +426,23 @@ static void kserver_selectable_update_ssl_ctx(kserver_selectable *ss, kgl_ssl_ct
 static kev_result kserver_ssl_ctx_next_update(KOPAQUE data, void *arg, int got)
 {
 	kserver_update_ssl_ctx_param *param = (kserver_update_ssl_ctx_param *)arg;
-	kserver_selectable_update_ssl_ctx(param->ss, param->ssl_ctx);
+	kserver *server = param->server;
+	kgl_list* pos;
+	//the listener may be gone meanwhile
+	kmutex_lock(&server->ss_lock);
+	klist_foreach(pos, &server->ss) {
+		kserver_selectable* ss = kgl_list_data(pos, kserver_selectable, queue);
+		if (ss == param->ss) {
+			if (server->ssl_ctx) {
+				kgl_add_ref_ssl_ctx(server->ssl_ctx);
+			}
+			kserver_selectable_update_ssl_ctx(ss, server->ssl_ctx);
+			break;
+		}
+	}
+	kmutex_unlock(&server->ss_lock);
 	xfree(param);
+	kserver_release(server);
 	return kev_ok;
 }
 void kserver_set_ssl_ctx(kserver *server, kgl_ssl_ctx *ssl_ctx)
@@ -436,23 +451,24 @@ void kserver_set_ssl_ctx(kserver *server, kgl_ssl_ctx *ssl_ctx)
 		//cann't set ssl_ctx to NULL
 		return;
 	}
+	kmutex_lock(&server->ss_lock);
 	if (server->ssl_ctx) {
 		kgl_release_ssl_ctx(server->ssl_ctx);
 	}
 	server->ssl_ctx = ssl_ctx;
-	kmutex_lock(&server->ss_lock);
 	kgl_list* pos;
 	klist_foreach(pos, &server->ss) {
 		kserver_selectable* ss = kgl_list_data(pos, kserver_selectable, queue);	
-		if (ssl_ctx) {
-			kgl_add_ref_ssl_ctx(ssl_ctx);
-		}
 		if (!KBIT_TEST(server->flags,KGL_SERVER_START)) {
+			if (ssl_ctx) {
+				kgl_add_ref_ssl_ctx(ssl_ctx);
+			}
 			kserver_selectable_update_ssl_ctx(ss, ssl_ctx);
 		} else {
 			kserver_update_ssl_ctx_param *param = xmemory_new(kserver_update_ssl_ctx_param);
 			param->ss = ss;
-			param->ssl_ctx = ssl_ctx;
+			param->server = server;
+			kserver_refs(server);
 			selectable_next(&ss->st, kserver_ssl_ctx_next_update, param, 0);
 		}
 	}
-- 
2.43.0


From dd8b6d0384fe587d56492656412ea122ba6f352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:32 +0000
Subject: [PATCH 37/48] fix: a certificate loaded from memory was never freed

---
 src/kgl_ssl.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index fd8ea51..57eb56b 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -629,14 +629,8 @@ int kgl_ssl_certificate(SSL_CTX* ctx, const kgl_ref_str_t* cert, const kgl_ref_s
 		sk_X509_pop_free(chain, X509_free);
 		return -1;
 	}
-	/*
-	 * Note that x509 is not freed here, but will be instead freed in
-	 * ngx_ssl_cleanup_ctx().  This is because we need to preserve all
-	 * certificates to be able to iterate all of them through exdata
-	 * (ngx_ssl_certificate_index, ngx_ssl_next_certificate_index),
-	 * while OpenSSL can free a certificate if it is replaced with another
-	 * certificate of the same type.
-	 */
+	//the context holds its own reference
+	X509_free(x509);
 
 #ifdef SSL_CTX_set0_chain
 	if (SSL_CTX_set0_chain(ctx, chain) == 0) {
-- 
2.43.0


From b204561c2c3d123a8532cac720693603ed9e4a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:32 +0000
Subject: [PATCH 38/48] fix: a TLS context without a certificate of its own
 dereferenced it

---
 src/kgl_ssl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 57eb56b..e13b935 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -747,6 +747,9 @@ SSL_CTX* kgl_ssl_ctx_new_server2(const kgl_ref_str_t* cert_buffer, const kgl_ref
 		fprintf(stderr, "cann't init_ctx\n");
 		return NULL;
 	}
+	if (!cert_buffer || *cert_buffer->data == '\0') {
+		cert_buffer = key_buffer;
+	}
 	if (kgl_ssl_certificate(ctx, cert_buffer, key_buffer, NULL) != 0) {
 		SSL_CTX_free(ctx);
 		return NULL;
-- 
2.43.0


From ac6afa56165ee5de050dfd97de84de838c7b4f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:29 +0000
Subject: [PATCH 39/48] fix: a unix socket path too long for an address was
 silently shortened

---
 src/kserver.c | 9 ++++++++-
 src/ksocket.c | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index d3f0ad4..83b414d 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -221,7 +221,14 @@ bool kserver_bind(kserver *server, const char *ip, uint16_t port, kgl_ssl_ctx *s
 #endif
 	if (*ip=='/') {
 #ifdef KSOCKET_UNIX	
-		ksocket_unix_addr(ip,&server->un_addr);
+		if (ksocket_unix_addr(ip,&server->un_addr) != 0) {
+#ifdef KSOCKET_SSL
+			if (ssl_ctx) {
+				kgl_release_ssl_ctx(ssl_ctx);
+			}
+#endif
+			return false;
+		}
 #endif
 	} else if (!ksocket_getaddr(ip, port, 0, AI_NUMERICHOST, &server->addr)) {
 #ifdef KSOCKET_SSL
diff --git a/src/ksocket.c b/src/ksocket.c
index dac00c7..afa8c0a 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -243,7 +243,12 @@ SOCKET ksocket_listen(const sockaddr_i* addr, int flag) {
 int ksocket_unix_addr(const char* path, struct sockaddr_un* addr) {
 	memset(addr, 0, sizeof(struct sockaddr_un));
 	addr->sun_family = AF_UNIX;
-	strncpy(addr->sun_path, path, sizeof(addr->sun_path));
+	size_t len = strlen(path);
+	if (len >= sizeof(addr->sun_path)) {
+		//a shortened path would be another one
+		return -1;
+	}
+	memcpy(addr->sun_path, path, len);
 	return 0;
 }
 #endif
-- 
2.43.0


From fc61dc4e101c53853a779870833e26c535e4839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:16 +0000
Subject: [PATCH 40/48] fix: a TLS handshake that times out on a connection
 that asks to be told crashed

The connection's time limit called the handshake with ST_ERR_TIME_OUT while
its read was still pending, and the handshake started another one.
---
 src/kconnection.c | 4 ++++
 src/kfiber.c      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/kconnection.c b/src/kconnection.c
index 0d573f0..ee5661b 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -215,6 +215,10 @@ static kev_result result_ssl_handshake(KOPAQUE data, void *arg, int got)
 		return ssl_handshake_result(sh, false);
 	case 1:
 		return ssl_handshake_result(sh, true);
+	case ST_ERR_TIME_OUT:
+		//the read is still pending, it fails when the connection is shut down
+		selectable_shutdown(&sh->c->st);
+		return kev_ok;
 	default:
 		return kselectable_ssl_handshake(&sh->c->st, result_ssl_handshake, sh);
 	}
diff --git a/src/kfiber.c b/src/kfiber.c
index a6e1017..f840f15 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -504,6 +504,10 @@ kev_result result_fiber_ssl_handshake(KOPAQUE data, void* arg, int got) {
 	case 1:
 		kfiber_wakeup(fiber, data, 0);
 		return kev_fiber_ok;
+	case ST_ERR_TIME_OUT:
+		//the read is still pending, it fails when the connection is shut down
+		selectable_shutdown((kselectable*)fiber->arg);
+		return kev_fiber_ok;
 	default:
 		return kselectable_ssl_handshake((kselectable*)fiber->arg, result_fiber_ssl_handshake, fiber);
 	}
-- 
2.43.0


From 55ff294afc9a1d83332e8ac7b7fcf3fcabf1baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:32 +0000
Subject: [PATCH 41/48] fix: a wait on a condition that was notified before
 gets the value of the notice

It got the value that the waiting fiber was last woken up with.
---
 src/kfiber_sync.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 6f57cfc..2fce194 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -208,7 +208,7 @@ int kfiber_cond_wait_ts(kfiber_cond* fc, int *got)
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		kmutex_unlock(&fcs->lock);
 		return 0;
@@ -229,7 +229,7 @@ int kfiber_cond_try_wait_ts(kfiber_cond* fc, int* got) {
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		kmutex_unlock(&fcs->lock);
 		return 0;
@@ -271,7 +271,7 @@ int kfiber_cond_wait(kfiber_cond* fc, int *got)
 	CHECK_FIBER(fiber);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		return 0;
 	}
@@ -287,7 +287,7 @@ int kfiber_cond_try_wait(kfiber_cond* fc, int* got) {
 	CHECK_FIBER(fiber);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		return 0;
 	}
-- 
2.43.0


From a77ea4f3dcf487766808b5024aacee1398ab9f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:24 +0000
Subject: [PATCH 42/48] fix: a turn asked for by selectable_next_write is over
 when the connection failed

Its flag stayed set, and the next write of the connection tripped an assertion.
---
 src/kselectable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index f2daa95..ef09ec1 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -508,6 +508,7 @@ kev_result selectable_write_event(kselectable* st)
 #endif
 	KBIT_CLR(st->base.st_flags, STF_WRITE | STF_RDHUP);
 	if (KBIT_TEST(st->base.st_flags, STF_ERR) > 0) {
+		KBIT_CLR(st->base.st_flags, STF_WREADY2);
 		return st->e[OP_WRITE].result(st->data, st->e[OP_WRITE].arg, -1);
 	}
 #ifdef ENABLE_KSSL_BIO
-- 
2.43.0


From 364703550233a806e1f63dc21d1c486508d591a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:26 +0000
Subject: [PATCH 43/48] fix: a fiber's listen that failed was reported as a
 success

---
 src/kfiber.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index f840f15..70a1bd3 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -409,9 +409,10 @@ int kfiber_net_listen(kserver * server, int flag, kserver_selectable * *ss) {
 	kfiber* fiber = kfiber_self2();
 	CHECK_FIBER(fiber);
 	*ss = kserver_listen(server, flag, result_fiber_accept);
-	if (*ss) {
-		KBIT_SET(server->flags, KGL_SERVER_START);
+	if (*ss == NULL) {
+		return -1;
 	}
+	KBIT_SET(server->flags, KGL_SERVER_START);
 	return 0;
 }
 int kfiber_net_accept(kserver_selectable * ss, kconnection * *c) {
-- 
2.43.0


From ef19b31ca5d86c166647ec4abe70ce1d310fd895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:48 +0000
Subject: [PATCH 44/48] fix: a connection aborted before it was accepted ended
 the listener

---
 src/kserver.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index 83b414d..b0eb9c1 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -33,10 +33,14 @@ kev_result kselector_event_accept(KOPAQUE data, void *arg,int got)
 		//printf("ksocket_accept=[%d]\n",sockfd);
 		return ss->st.e[OP_WRITE].result(data, ss->st.e[OP_WRITE].arg,(int)sockfd);
 	}
-	if (errno==EAGAIN && !KBIT_TEST(ss->st.base.st_flags,STF_ERR)) {
+	int err = errno;
+	//a connection that was aborted before it was accepted is no failure of the listener
+	if ((err==EAGAIN || err==ECONNABORTED || err==EINTR || err==EPROTO) && !KBIT_TEST(ss->st.base.st_flags,STF_ERR)) {
 		//printf("try again\n");
 		assert(!KBIT_TEST(ss->st.base.st_flags, STF_RREADY2));
-		KBIT_CLR(ss->st.base.st_flags,STF_RREADY);
+		if (err==EAGAIN) {
+			KBIT_CLR(ss->st.base.st_flags,STF_RREADY);
+		}
 		if (kgl_selector_module.accept(ss, ss->st.e[OP_WRITE].arg)) {
 			return kev_ok;
 		}
-- 
2.43.0


From 2b6fe73182b6a2cc4130d4e61ca97ec9d82fc2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:48 +0000
Subject: [PATCH 45/48] fix: a write while the end of a TLS stream is still to
 be sent tripped an assertion

---
 src/kselectable.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index ef09ec1..03151d1 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -571,6 +571,13 @@ kev_result selectable_read(kselectable* st, result_callback result, kgl_iovec* b
 }
 kev_result selectable_write(kselectable* st, result_callback result, kgl_iovec *buffer, void* arg)
 {
+#ifdef KSOCKET_SSL
+	if (unlikely(buffer && st->ssl && st->ssl->shutdown && KBIT_TEST(st->base.st_flags, STF_WRITE | STF_WREADY2))) {
+		//the end of the stream is still to be sent, nothing can be written behind it
+		errno = EPIPE;
+		return result(st->data, arg, -1);
+	}
+#endif
 	kassert(KBIT_TEST(st->base.st_flags, STF_WRITE | STF_WREADY2) == 0);
 #ifdef ENABLE_KSSL_BIO
 	if (selectable_is_ssl_handshake(st)) {
-- 
2.43.0


From 4f42c9fafae13630d3af1395de98cc34b7d99a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:51 +0000
Subject: [PATCH 46/48] fix: a loop that was destroyed kept its descriptor and
 context for files

---
 src/kepoll_selector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 409d3e7..1243fca 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -169,8 +169,10 @@ static void epoll_selector_init(kselector *selector)
 static void epoll_selector_destroy(kselector *selector)
 {
 	kepoll_selector *es = (kepoll_selector *)selector->ctx;
+	io_destroy(es->aio_st.aio_ctx);
 	close(es->kdpfd);
 	close(es->notice_st.st.fd);
+	close(es->aio_st.st.fd);
 	xfree(es);
 }
 
-- 
2.43.0


From 6c4667ce86d7e87ad79a59a26a9a45f0b44f217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:44 +0000
Subject: [PATCH 47/48] fix: sending a file over TLS took the error of another
 connection for its own

---
 src/kselectable.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index 03151d1..71087d4 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -326,6 +326,8 @@ static inline kev_result selectable_event_sendfile(kselectable* st, result_callb
 	if (st->ssl) {
 		assert(kgl_ssl_support_sendfile(st->ssl));
 #if defined(BIO_get_ktls_send)
+		//the error of another connection would be taken for the result of this call
+		ERR_clear_error();
 		got = SSL_sendfile(st->ssl->ssl, file->st.fd, offset, buffer->iov_len, 0);
 		if (got >= 0) {
 			return result(st->data, arg, got);
-- 
2.43.0


From 8748c57f7ac98c14ed83bdbc35ab1baa91962c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:44 +0000
Subject: [PATCH 48/48] fix: a file sent while the end of a TLS stream is still
 to be sent tripped an assertion

---
 include/kselectable.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/kselectable.h b/include/kselectable.h
index 2938c2f..34f6063 100644
--- a/include/kselectable.h
+++ b/include/kselectable.h
@@ -166,6 +166,13 @@ void selectable_next_write(kselectable* st, result_callback result, void* arg);
 kev_result selectable_read(kselectable* st, result_callback result, kgl_iovec *buffer, void* arg);
 kev_result selectable_write(kselectable* st, result_callback result, kgl_iovec *buffer, void* arg);
 INLINE kev_result selectable_sendfile(kselectable* st, result_callback result, kgl_iovec* buffer, void* arg) {
+#ifdef KSOCKET_SSL
+	if (unlikely(st->ssl && st->ssl->shutdown && KBIT_TEST(st->base.st_flags, STF_WRITE | STF_WREADY2))) {
+		//the end of the stream is still to be sent, nothing can be written behind it
+		errno = EPIPE;
+		return result(st->data, arg, -1);
+	}
+#endif
 	return kgl_selector_module.sendfile(st, result, buffer, arg);
 }
 INLINE bool selectable_readhup(kselectable* st, result_callback result, void* arg)
-- 
2.43.0

