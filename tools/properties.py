import json
P=[]
def p(id,title,stmt,over,qt,why,files,state,mech,obs,hook=False):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=s,where=mech[0][1]) for s in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook or None)))

p("C01","Every created fiber runs exactly once, joins with its value, is reclaimed",
 "A fiber whose creation succeeds starts exactly once, on the selector it was created for, with the arguments it was given, and a fiber whose creation fails never starts. Joining it in any way its creation allows - blocking, polling, by callback or through its exit callback, from the same or another selector or from an outside thread, before or after it ends - completes once the fiber has ended and never before, and delivers exactly the value its start function returned. Once it has ended and every holder has joined, its stack and descriptor are reclaimed once, and the live-fiber count returns to where it was.",
 ["schedules","programs","fault_sequences"],"All fork/join programs over several selectors and threads, all orders of exit and join, all interleavings, and allocation failures at creation.",
 "The tests create a handful of fibers on one schedule; exit/join races, cross-selector joins and creation failures are never forced.",
 ["src/kfiber.c","include/kfiber.h","src/kfiber_sync.c"],["kfiber.base.ref","kfiber.close_cond","kfiber.retval","live fiber counter"],
 [("create/start","src/kfiber.c kfiber_new/kfiber_start/kfiber_create2"),("exit","src/kfiber.c result_fiber_exit"),("join","src/kfiber.c kfiber_join/kfiber_try_join/kfiber_join2")],
 ["kfiber_create2","kfiber_join","kfiber_try_join","kfiber_join2","kfiber_get_count","kasync_main"])
p("C02","A fiber wait returns exactly the value of its one wakeup, locals intact",
 "When a fiber suspends, it resumes exactly once for the one wakeup posted for it, whether that wakeup is given by the fiber itself before it waits, by another fiber of its selector, by a callback, or by any other thread, and the wait returns exactly the value the wakeup carried. No wakeup is lost, delivered twice, or delivered to another fiber. Everything the fiber had on its stack and in callee-saved and floating-point control state is the same after the wait as before it, however many switches happened in between.",
 ["schedules","programs"],"All nestings of switches between fibers of a selector, all waker threads, all timings of wakeup relative to wait.",
 "Tests wake a few fibers through I/O in one order; cross-thread wakeups racing with the suspension and deep nesting are not exercised.",
 ["include/kfiber.h","src/kfiber.c","fcontext/src/fcontext.c","fcontext/src/asm/jump_x86_64_sysv_elf_gas.S"],["kfiber.retval","kfiber.switch_from","selector current fiber"],
 [("wakeup/wait","include/kfiber.h kfiber_wakeup/kfiber_wakeup_ts/kfiber_wait"),("switch","src/kfiber.c __kfiber_switch")],["kfiber_wakeup_ts","kfiber_wait"])
p("C03","A callback posted to a selector runs exactly once, on that selector's thread",
 "Every callback posted to a selector, from its own thread, from another selector's thread or from a plain thread, runs exactly once, on the thread of that selector and with the data, argument and value that were posted. No burst of posts from any number of threads loses, duplicates or misroutes one, and a selector that sleeps in its event wait is always woken for a post.",
 ["schedules"],"All interleavings of any number of posting threads with the receiving event loop, including posts that race with the loop going to sleep.",
 "The existing tests post little across threads and cannot force a post to fall between the drain of the notice queue and the sleep.",
 ["src/kepoll_selector.c","src/kselector.c","include/kselector.h"],["notice queue","eventfd counter","ready list"],
 [("post","src/kepoll_selector.c epoll_selector_next/kepoll_notice"),("drain","src/kepoll_selector.c notice event handler")],["kgl_selector_module.next","kselector_next"])
p("C04","Fiber mutex: at most its limit of holders, none forgotten",
 "At any time no more fibers hold a fiber mutex than its limit allows, and a bounded try-lock fails exactly when the number of holders plus waiters has reached the given bound. Every lock request that is accepted is granted exactly once and, as long as holders unlock, no waiter stays suspended while a slot is free, including after the limit is raised. The reported holder and request counts return to zero when everyone has unlocked.",
 ["schedules","programs"],"All programs of lock, try-lock, callback lock, unlock and limit changes by fibers on any selectors, in all interleavings.",
 "The mutex is not tested at all, and hand-off races between selectors depend on the schedule.",
 ["include/kfiber_sync.h","src/kfiber_sync.c"],["holder count","request count","waiter list","limit"],
 [("lock","include/kfiber_sync.h __kfiber_mutex_lock"),("unlock","include/kfiber_sync.h kfiber_mutex_unlock"),("limit","include/kfiber_sync.h kfiber_mutex_set_limit"),("callback lock","src/kfiber_sync.c kfiber_mutex_lock2")],
 ["kfiber_mutex_lock","kfiber_mutex_try_lock","kfiber_mutex_unlock","kfiber_mutex_set_limit","kfiber_mutex_lock2"])
p("C05","Fiber reader-writer lock: exclusive writers, shared readers, no lost waiter",
 "While a fiber holds the write lock no other fiber holds the lock in either mode, and readers may share it. Every request is granted exactly once, and when the holders release the lock no waiter stays suspended although its request could be granted; releasing never blocks or deadlocks the releasing thread. While readers hold the lock and a writer waits, readers that arrive then are not admitted before it.",
 ["schedules","programs"],"All programs of read and write locking by fibers of the same and of different selectors, in all interleavings.",
 "Not covered by a test; exclusion and lost wakeups only show under particular interleavings and same-selector nesting.",
 ["include/kfiber_sync.h"],["cnt","reader waiters","writer waiters"],
 [("lock/unlock","include/kfiber_sync.h kfiber_rwlock_*")],["kfiber_rwlock_rlock","kfiber_rwlock_wlock","kfiber_rwlock_runlock","kfiber_rwlock_wunlock"])
p("C06","Fiber conditions: no lost, spurious or duplicated notice",
 "A wait on a fiber condition, in any of its variants (single-selector, thread-safe, shared with a plain thread) and forms (blocking, polling, callback), completes only because of a notice and at most one completion is produced per wait. On an auto-reset condition each notice releases exactly one wait, present or future; notices with no wait in between may merge into one. On a manual-reset condition a notice releases every present and future wait; a wait receives the value given to the notice that released it; one that begins afterwards, that of the latest notice.",
 ["schedules","programs"],"All programs of wait, try-wait, callback wait and notice over fibers, selectors and plain threads, in all interleavings.",
 "Tests use conditions only indirectly, one waiter at a time.",
 ["src/kfiber_sync.c","include/kfiber_sync.h","include/kfiber_internal.h"],["ev flag","waiter list"],
 [("variants","src/kfiber_sync.c kfiber_cond_*")],["kfiber_cond.f->notice","kfiber_cond.f->wait","kfiber_cond.f->try_wait","kfiber_cond.f->wait_callback"])
p("C07","Thread events: a wait returns only for a notice and no notice is lost",
 "A blocking wait on a thread event returns only if a notice was given that no other wait has used up, also when the operating system wakes the thread spuriously, and it returns eventually once such a notice is given. An auto-reset event releases exactly one wait per notice (notices nobody waited for merge into one); a manual-reset event stays signalled for every present and future wait until it is reset. The polling form reports exactly whether the event was signalled, without blocking.",
 ["schedules","fault_sequences"],"All interleavings of waiters, notifiers and resets, with spurious wakeups.",
 "No test uses the event with more than one waiter, and spurious wakeups cannot be provoked by a test.",
 ["include/ksync.h"],["ev flag"],[("event","include/ksync.h kcond_wait/kcond_try_wait/kcond_notice/kcond_reset")],["kcond_wait","kcond_try_wait","kcond_notice","kcond_reset"])
p("C08","Spinning reader-writer locks exclude writers and always make progress",
 "For the spinning reader-writer lock and its writer-preferring variant, a writer never holds the lock together with any other holder, concurrent readers may hold it together, and when all holders release it every requester eventually acquires it. In the writer-preferring variant a normal-priority reader that arrives while readers hold the lock and a writer is already waiting does not enter before a waiting writer has; a high-priority reader may. After all have released, the lock is free again.",
 ["schedules"],"All interleavings of any number of readers and writers at every memory access.",
 "The locks are not tested; violations need preemption between single instructions.",
 ["include/ksync.h","include/katom.h"],["lock word","writer-pending word"],[("spin locks","include/ksync.h krw_mutex_*/kwr_mutex_*"),("atomics","include/katom.h")],["krw_mutex_rlock","krw_mutex_wlock","kwr_mutex_rlock","kwr_mutex_wlock"])
p("C09","Channel: every received value was sent once, close releases everybody",
 "Each successful receive on a channel returns the data of exactly one send and no send is received twice; a send completes, with the value the receiver reports, only after its data was received. Closing the channel releases every suspended sender and receiver with a failure and makes later operations fail at once. The channel's memory lives until its last reference is dropped and is freed exactly then.",
 ["programs","schedules"],"All programs of fibers sending, receiving, closing and dropping references on one selector.",
 "Channels have no test.",
 ["src/kfiber_sync.c"],["waiter list","wait_flag","closed","ref"],[("channel","src/kfiber_sync.c kfiber_chan_*")],["kfiber_chan_send","kfiber_chan_recv","kfiber_chan_wakeup","kfiber_chan_close","kfiber_chan_release"])
p("C10","Timers fire exactly once, never early, in due order, on the right thread",
 "A timer - set by a callback or fiber on its selector, from another thread, or by a fiber sleep - fires exactly once, on the thread of the selector it was set for, with the data it was given, and never before its delay has passed on the loop's clock. Timers of one selector fire in order of their due times, and a due timer fires in the loop's next pass, however many timers are pending or are added while others fire. Stepping the system clock backwards neither loses pending timers nor postpones them by the size of the step.",
 ["histories","schedules","fault_sequences"],"All histories of additions (including from timer callbacks and other threads), delays, loop passes and clock steps.",
 "The tests use one or two sleeps; ordering among many timers, cross-thread additions and clock steps are not reached.",
 ["src/kselector.c","src/kselector_manager.c","src/kepoll_selector.c","src/krbtree.c"],["block tree","kgl_current_msec"],
 [("add","src/kselector.c kselector_default_add_timer"),("fire","src/kselector.c kselector_check_timeout"),("cross-thread","src/kselector_manager.c kselector_add_timer_ts"),("clock","src/kselector.c kselector_update_time")],
 ["kselector_add_timer","kselector_add_timer_ts","kfiber_msleep"])
p("C11","Worker queue runs each accepted job once, within its limits",
 "A job accepted by an asynchronous worker runs exactly once, and a rejected job never runs; a job is rejected only when the number of queued jobs exceeds the configured queue limit or no thread can be started for it. At most the configured number of jobs run at the same time, and as long as threads can be had no accepted job stays queued while fewer than that run. Ordinary jobs start in submission order, a high-priority job starts before those queued ahead of it, a blocking submission always gets its job run and waits only if the queue is over its limit, and the worker object is freed exactly once, after the last reference is dropped.",
 ["schedules","fault_sequences","programs"],"All interleavings of submitters and pool threads, all limits, failures of thread creation, spurious wakeups.",
 "Tests never fill a queue, and thread creation failure cannot be provoked by them.",
 ["src/kasync_worker.c","include/kasync_worker.h"],["queue","worker count","refs"],[("submit","src/kasync_worker.c kasync_worker_add"),("thread","src/kasync_worker.c worker thread")],["kasync_worker_try_start","kasync_worker_start","kasync_worker_empty","kasync_worker_release"])
p("C12","Thread pool and fiber thread calls run every job once and account threads",
 "Every function handed to the thread pool with success runs exactly once on a thread other than the caller's with the given argument, and never when starting failed; jobs are neither lost nor duplicated when idle threads are reused or retired at the same moment. The reported counts of working and idle threads match reality when the pool is quiet, and retiring idle threads never interrupts a job. An idle thread is reused before a thread is created; it is sent away only after a minute of idleness (and by an explicit flush never below the requested minimum) or when all idle threads are closed, and then it really goes and its memory is given back. A fiber that calls a function on a pool thread stays suspended until it has run and then gets exactly its return value on its own selector.",
 ["schedules","fault_sequences"],"All interleavings of submitters, pool threads, idle-thread retirement, and thread creation failures.",
 "Pool races (reuse against retirement) need particular interleavings, which no test forces.",
 ["src/kthread.c","src/kfiber.c"],["idle thread list","working and idle counts"],[("pool","src/kthread.c kthread_pool_start/kthread_worker"),("retire","src/kthread.c kthread_flush/kthread_close_all_free"),("call","src/kfiber.c kfiber_thread_call")],["kthread_pool_start","kthread_flush","kthread_close_all_free","kthread_get_count","kfiber_thread_call"])
p("C13","Host lookups answer every caller once, with an address for its own host",
 "Every lookup is answered exactly once, and a successful answer is an address set the resolver returned for that very host name and address family; a failure is reported only when the resolver failed or could not be asked. Lookups of one host that overlap share one resolver query, an answer younger than the refresh interval is served from the cache, and after a failed refresh the last good answer is kept until it has failed repeatedly. An answer stays valid while its user holds it, whatever the cache does meanwhile, and is freed once when nobody uses it.",
 ["schedules","histories","fault_sequences"],"All histories of lookups, resolver answers and failures, cache refresh and expiry, clock advances and cache flushes, in all interleavings.",
 "The tests resolve at most a numeric address; caching, sharing, refresh and expiry need long times and a controlled resolver.",
 ["src/kaddr.c","include/kaddr.h"],["address cache tree","LRU list","pending waiters","refs"],[("lookup","src/kaddr.c kgl_find_addr"),("answer","src/kaddr.c resolver worker"),("flush","src/kaddr.c kgl_flush_addr_cache")],["kgl_find_addr","kfiber_net_getaddr","kgl_addr_release"])
p("C14","Byte streams arrive complete and in order, each operation completes once",
 "On a connection the bytes read at one end are a prefix of the bytes written at the other, in order and without loss or duplication, for any sizes, buffer vectors and partial transfers; reads and writes report exactly how much they transferred, and the 'full' forms transfer everything unless an error occurs. Every read, write or shutdown completes exactly once: with data, with end of stream after the peer has finished and all data has been read, or with an error, which writes may also report once the peer has finished writing. Someone who waits for the peer's hang-up is told it promptly, once, and only then. A closed or shut down connection releases its suspended operations, and its descriptor is closed exactly once.",
 ["inputs","schedules","fault_sequences"],"All message sizes and vectors, all partial reads and writes and would-block results, all orders of reading, writing, half-closing and closing.",
 "Tests echo small messages that always transfer at once; short transfers and blocked writes are not forced.",
 ["src/kselectable.c","src/kepoll_selector.c","src/kconnection.c","include/kfiber.h","src/ksocket.c"],["event flags","pending read and write events"],[("read/write","src/kselectable.c selectable_read/selectable_write"),("events","src/kepoll_selector.c"),("full forms","include/kfiber.h")],["kfiber_net_readv","kfiber_net_writev","kfiber_net_writev_full","kfiber_net_read_full","kfiber_net_shutdown","kfiber_net_close"])
p("C15","Idle connections time out, active ones do not, and nothing completes twice",
 "A connection with a pending read or write, or a TLS handshake that is not over, on which nothing happens for the configured time is ended: by a timeout result to a reader that asked for one, which may go on waiting for the same data with the same or another buffer, and by shutting the connection down otherwise. It is never ended before an operation has been pending for that time, counting the configured extra rounds. A timeout racing with arriving data produces exactly one completion and loses no data.",
 ["histories","schedules"],"All timings of data arrival, timeouts and loop passes, and all timeout settings.",
 "Tests set a two-second limit but never let a connection hit it.",
 ["src/kselector.c","src/kselectable.c","src/kselector_manager.c"],["timeout lists","active time","tmo_left"],[("timeout scan","src/kselector.c kselector_check_timeout"),("connection timeout","src/kselectable.c")],["selector_manager_set_timeout","kfiber_net_read","kfiber_net_write","kconnection_set_timeout"])
p("C16","A server hands out every accepted connection once and closes cleanly",
 "Each client connection that a server accepts is handed to exactly one handler, on the selector the connection is bound to (that of its listener when the server listens on several), with the client's address. After the server is closed no new connection is accepted, every listener is closed and every suspended accept ends with a failure, while connections already accepted go on working. A server given a TLS context hands out connections that speak TLS with it; a context set later takes its place for new connections without disturbing those already accepted, and a context is released once nothing uses it. The server object and its user data are released exactly once, after the last listener and the last connection are gone, never before.",
 ["schedules","programs"],"All interleavings of clients connecting, handlers running and ending, replacing the TLS context and closing the server, on one or several selectors.",
 "Tests open and close a server in one order only.",
 ["src/kserver.c","src/kconnection.c","src/kselectable.c"],["server refs","listening sockets","closed flag"],[("open/close","src/kserver.c kserver_open_exsit/kserver_close"),("accept","src/kserver.c kserver_selectable_accept"),("release","src/kserver.c kserver_release")],["kserver_open","kserver_accept","kserver_close","kserver_release","kfiber_net_accept"])
p("C17","Asynchronous file I/O moves exactly the requested bytes at the right offset",
 "A fiber's file read returns exactly the file's bytes at the file position, limited by the length and the end of file (and, for direct I/O, by the aligned buffer), and a write stores exactly the given bytes at the position (at the end for files opened to append); both report the true count and advance the position by it, and end of file reads zero. This also holds for the forms that may be called from another selector, for direct (unbuffered) I/O and for short and failed transfers. Seek, tell and size agree with the file; each operation completes exactly once, and concurrent operations on different files do not mix up their results.",
 ["inputs","programs","fault_sequences"],"All sequences of reads, writes and seeks with any lengths and offsets, any transfer results, and concurrent files.",
 "One test writes and reads one short string.",
 ["src/kasync_file.c","src/kfiber.c","src/kepoll_selector.c","src/kfile.c","include/kasync_file.h"],["file offset","aio requests"],[("submit","src/kepoll_selector.c epoll aio read/write"),("complete","src/kasync_file.c"),("fiber API","src/kfiber.c kfiber_file_*")],["kfiber_file_read","kfiber_file_write","kfiber_file_seek","kfiber_file_tell","kfiber_file_size","kfiber_file_safe_read","kfiber_file_safe_write_full"])
p("C18","Address text, equality and order helpers agree with each other",
 "Parsing a numeric IPv4 or IPv6 address and port and formatting the result yields the canonical text and the same port; strings that are not numeric addresses are rejected by the numeric parser. Comparing two addresses is equal exactly when family and address bytes (and, where it is compared, the port) are equal, and gives a total order consistent with that. Address length always matches the family. A unix path is taken whole, or refused when an address has no room for it.",
 ["inputs"],"All IPv4 and IPv6 addresses, ports and strings.",
 "Tests use one address.",
 ["src/ksocket.c","include/ksocket.h","include/kserver.h"],["sockaddr"],[("helpers","src/ksocket.c")],["ksocket_getaddr","ksocket_sockaddr_ip","ksocket_addr_compare","ksocket_addr_len"])
p("C19","Stream buffers return exactly what was put in, in order",
 "A read-write buffer behaves as a queue of bytes: reading any amounts returns exactly the bytes written so far that were not yet read, in order, the length it reports is always their number, and data put back in front is read next. This holds across chunk boundaries, direct access to write and read space, vectors for gathering output, and clearing. The growable flat buffer keeps its bytes intact and in order through every growth and removal, and no access ever leaves the allocated memory.",
 ["inputs","programs"],"All sequences of writes, reads, inserts, appends, direct accesses and clears of any sizes.",
 "No test uses the buffers.",
 ["src/kbuf.c","include/kbuf.h"],["chunk list","read and write positions","total length"],[("krw buffer","src/kbuf.c krw_*"),("ks buffer","src/kbuf.c ks_*")],["krw_write_str","krw_read","krw_insert","krw_append","krw_get_read_vectors","ks_write_str","ks_save_point"])
p("C20","Memory pools give disjoint memory that lives exactly as long as the pool",
 "Every block allocated from a pool is at least as large as asked for, suitably aligned, disjoint from every other live block and keeps its contents until the pool is destroyed. Destroying the pool runs every registered cleanup exactly once, in reverse order of registration, before any pool memory is freed, and returns all memory. Pool arrays keep all pushed elements in order through growth.",
 ["programs","inputs","fault_sequences"],"All sequences of allocations of any size, cleanups, arrays and destruction.",
 "No test covers the pools.",
 ["src/kmalloc.c","include/kmalloc.h"],["pool chain","large list","cleanup list"],[("pool","src/kmalloc.c kgl_pnalloc/kgl_palloc"),("cleanup","src/kmalloc.c kgl_pool_cleanup_add"),("array","src/kmalloc.c kgl_array_*")],["kgl_create_pool","kgl_pnalloc","kgl_pool_cleanup_add","kgl_destroy_pool","kgl_array_push"])
p("C21","The ordered map is an exact, balanced, sorted dictionary",
 "After any sequence of insertions and deletions the ordered map contains exactly the inserted and not yet deleted keys; finding a key returns its entry or nothing, inserting an existing key returns the existing entry marked as not new, and iterating forward or backward visits every entry exactly once in comparison order. First and last agree with the iteration. The tree stays balanced, so every operation is logarithmic.",
 ["histories","inputs"],"All sequences of inserts, deletes, finds and iterations over any keys.",
 "No test covers the map.",
 ["src/krbtree.c","include/krbtree.h"],["tree nodes and colours"],[("rbtree","src/krbtree.c rb_*/krbtree_*")],["rbtree_insert","rbtree_find","rbtree_remove","rb_first","rb_next","rb_prev","rb_last"])
p("C22","The selector manager places work on valid selectors and keeps count",
 "The number of event loops is always the largest power of two not above the requested size, at least one and at most 64, and never shrinks; growing, possible from a single loop's own thread, keeps that loop, its work and the configured time limits. Choosing a loop for new work always returns one of them and spreads load: repeated choices cover all loops evenly, unless one is clearly busier than the next. The count of items registered on each loop is exact and returns to zero when they are gone.",
 ["histories","configurations","schedules"],"All requested sizes, growth at any time, and all histories of load.",
 "Tests run with a single loop.",
 ["src/kselector_manager.c","src/kselector.c"],["selector array","selector_count","per-loop count"],[("choose","src/kselector_manager.c get_perfect_selector"),("grow","src/kselector_manager.c selector_manager_grow")],["selector_manager_init","selector_manager_grow","get_perfect_selector","get_selector_count","get_selector_by_index"])
p("C23","TLS streams carry the same bytes, and handshake and shutdown finish once",
 "On a TLS connection the decrypted bytes read at one end are a prefix of the bytes written at the other, in order and complete for any sizes, buffer vectors and record boundaries, also when the sockets transfer only a few bytes at a time. The handshake completes exactly once, successfully for matching ends and with an error when the peer disappears or talks something else, and data that arrived with the handshake is not lost. Data sent early, with the first message of a resumed session, is part of the stream when the server accepts it, and never seen when it does not. An orderly shutdown delivers all data before end of stream, an error on one connection does not disturb another, and the connection's TLS state is freed once.",
 ["inputs","schedules","fault_sequences"],"All sizes and vectors, all fragmentations of the encrypted stream, all points of disconnection.",
 "One test makes one small exchange.",
 ["src/kgl_ssl.c","src/kselectable.c","src/kconnection.c"],["SSL state","pending flags"],[("TLS","src/kgl_ssl.c kgl_ssl_*"),("events","src/kselectable.c")],["kfiber_ssl_handshake","kfiber_net_read","kfiber_net_writev","kfiber_net_shutdown"])
p("C24","A UDP receive returns one whole datagram and its sender's address",
 "Each completed receive on a datagram socket returns exactly one datagram: its bytes, its length (limited by the buffer offered) and the address of its sender, and each datagram is received at most once and never mixed with another. A sent datagram carries exactly the given bytes to the given address, and success is reported only then. A socket that asked for it knows, for IPv4 and IPv6, the local address the received datagram was sent to. A receive that finds nothing waits and completes exactly once, when a datagram arrives or the socket is shut down.",
 ["inputs","schedules"],"All datagram sizes and vectors, all arrival orders relative to the receive.",
 "No test covers UDP.",
 ["src/kudp.c","src/kselectable.c","src/kconnection.c"],["udp state","local and remote address"],[("udp","src/kudp.c"),("recv","src/kselectable.c selectable_recvmsg")],["kudp_new2","kudp_send","kudp_send_to","kudp_get_recvaddr","kfiber_net_readv"])
p("C25","Sending a file transfers exactly the file's bytes from its position",
 "Sending a file range over a connection transfers exactly the file's bytes starting at the file's position, in order, as many as were asked for or remain in the file, and advances the position by the amount reported. The 'full' form sends the whole range or fails, through any number of short transfers and would-block results. The result is the same on plain connections and on TLS connections that report support for it (kernel TLS).",
 ["inputs","fault_sequences"],"All ranges, offsets, short transfers and would-block results.",
 "No test sends a file.",
 ["src/kfiber.c","src/kepoll_selector.c","src/kselectable.c"],["file offset","write event"],[("sendfile","src/kepoll_selector.c epoll_selector_sendfile"),("API","src/kfiber.c kfiber_sendfile")],["kfiber_sendfile","kfiber_sendfile_full"])
p("C26","A connect completes once, with success exactly when it is connected",
 "Every connect attempt completes exactly once: with success exactly when the connection is established, and with a failure when the peer refuses or has gone again, the attempt is aborted or the connect time limit passes, never hanging and never before one of these happened. After success the connection can transfer data at once and knows its peer; after failure it can still be closed and is released once. A requested local address is the one used.",
 ["schedules","fault_sequences","inputs"],"All outcomes and timings of the connection attempt: immediate, delayed, refused, unreachable, timed out.",
 "Tests connect to an open loopback port only.",
 ["src/kconnection.c","src/kselectable.c","src/kselector.c","src/ksocket.c"],["connect event","timeout list"],[("connect","src/kconnection.c kconnection_start_connect / kfiber_net_connect"),("events","src/kepoll_selector.c")],["kfiber_net_connect","kfiber_net_close"])
p("C27","TLS configuration decides who is accepted, what is shown, what is spoken",
 "A TLS context is created, or given another certificate, exactly when certificate, chain, key and trusted certificates are all there, well formed and belong together, whether they come from files, from memory or from one place together; a failure leaves nothing behind. A server shows the certificate and chain it was given, of the context that the name callback chose for the name the client asked for, else the listener's own; the callback is asked before anything is shown, only for clients that gave a name, and what it returns is released exactly once, after the connection's end; a server that refuses nameless clients completes no handshake with one. A handshake succeeds exactly when the ends have a protocol version in common and each presents the certificate the other insists on, and uses the newest common version, the application protocol the server likes best among those offered (or none) and the server's preferred cipher. A session is resumed only on a listener whose certificate has not been replaced meanwhile.",
 ["inputs","configurations","schedules"],"All combinations of certificates, chains, keys, trusted certificates, versions, application protocols, names and callbacks' answers, and all orders of connections and replacements.",
 "Tests use one self-signed certificate, without names or application protocols.",
 ["src/kgl_ssl.c","src/kconnection.c","src/kserver.c"],["SSL_CTX","sni object of a connection"],[("contexts","src/kgl_ssl.c kgl_ssl_ctx_new_server / kgl_ssl_ctx_new_server2 / kgl_ssl_ctx_new_client / kgl_ssl_ctx_load_cert_key / kgl_ssl_ctx_set_protocols"),("callbacks","src/kgl_ssl.c kgl_ssl_sni / kgl_ssl_npn_selected")],["kfiber_ssl_handshake","kgl_ssl_get_next_proto_negotiated","sni callbacks"])
p("C28","The blocking file calls work on what a file holds, where its handle stands",
 "A file opened with the blocking calls behaves by its mode: opening for reading or modifying leaves what is there, opening for writing empties it, modes that create make a missing file (others fail), appending always adds at the present end whatever other handles wrote, no-follow refuses a symbolic link, and every handle is closed on exec. Reads and writes go on from the handle's position, which seeking moves relative to beginning, position or end (never before the beginning, and also far beyond 2^32); what a gap skips reads as zeros. Reading all of n bytes succeeds exactly when n bytes are there, however the system splits them. Size and times reported are the file's, also after its name was removed; a last-modified time is given for regular files only, 0 else.",
 ["inputs","histories"],"All sequences of calls on several handles and names that share files, with short reads.",
 "No test uses the blocking file calls beyond one read.",
 ["src/kfile.c","include/kfile.h"],["file position","open file"],[("open modes","src/kfile.c kfopen"),("position","src/kfile.c kfseek"),("whole reads, size, times","include/kfile.h")],["kfopen","kfseek","kfread_all","kfsize","kftime"])
p("C29","Lists, atomic counters and shared strings are exact for every sequence and race",
 "An intrusive ring list holds exactly the items that were appended or inserted before another and not removed, in that order, from both ends, and tells emptiness, first and last accordingly; a forward list gives what was pushed last first, and removing an item tells whether it was there. Every atomic operation on a 16, 32 or 64 bit counter takes effect at one moment between its call and its return, at its full width and nowhere else: incrementing and decrementing return the new value, adding, subtracting and setting the old one, reading the present one, and a compare-and-swap succeeds exactly when the value was the expected one. A shared string keeps its bytes, length and terminator as long as anybody holds a reference, whatever thread, and is freed once, by the last one released.",
 ["inputs","histories","schedules"],"All sequences of list calls; all interleavings of counter operations and of references taken, passed on and dropped by several threads.",
 "No test uses these directly; the library's own reference counts and queues stand on them.",
 ["include/klist.h","include/katom.h","include/kstring.h"],["list links","counter value","string reference count"],[("lists","include/klist.h"),("counters","include/katom.h"),("shared strings","include/kstring.h")],["klist_insert","katom_inc","katom_cas","kstring_release"])
p("C30","Every loop turn calls each tick once, and the least answer bounds the wait",
 "Each turn of a loop calls every tick registered with it exactly once, on the loop's own thread, in the order they were registered, with the argument they were made with; also while other work keeps the loop busy, while a tick closes itself, and while ticks are registered and closed by callbacks of the loop between calls. The least positive answer of a turn's ticks, and never more than 100 ms, bounds the time the loop sleeps before its next turn; an answer that is zero or negative asks for nothing and takes nothing from what the others ask for. A tick that was closed is never called again and its memory is given back.",
 ["schedules","histories","inputs"],"All orders of registering, calling and closing, all answers, all interleavings with other work of the loop.",
 "No test registers a tick.",
 ["src/kselector.c","include/kselector.h"],["kselector.tick list","min_event_time"],[("ticks","src/kselector.c kselector_check_timeout"),("API","src/kselector.c kselector_register_tick")],["tick callback","kselector_close_tick"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
