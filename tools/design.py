import json,glob,os,re
D=open('/verif/DESIGN.md').read()
D=D[:D.index('## Per property')]
T=r'''## How strong the verdict is

Two layers, and both are needed. The closed models (`MC_*`) are explored **exhaustively** within the bounds
written in their `.cfg`: they show that the specification has the property (that the actions which traces are
validated against cannot, between them, violate it), and several are two-level: an implementation-level model
(queues, flags, lists, channels, clocks) is checked to refine the observable one (`Refine(s)`), so that the
design used by the code is covered for *all* interleavings within the bounds. The conformance layer binds that
to the code: thousands (quick) to hundreds of thousands (thorough) of executions of the real library, each with
its own random program, schedule and faults, each accepted only if TLC finds a behaviour of the specification
that explains **every** recorded event. That layer is sampling over schedules: a violation that needs a rare
schedule is found with the probability given by the sampling (the seeds table below gives measured rates).
The scenarios are small (2-6 actors, 1-8 operations each), many, and unshaped: races within few steps are
sampled densely.

What a trace demands of the code, in all scenarios:
* every event is explained (order, values, thread/selector, time where time matters);
* nothing that could complete is left pending at `End` (progress: the runtime runs until nothing can move any
  more and virtual time has passed all limits) - lost wakeups are therefore rejected, not just wrong answers;
* no crash, failed `assert`, use after free, overflow, double free, double close, deadlock or livelock;
* live allocations, descriptors and fibers at `End` where the property speaks of reclaiming.

Numbers in brackets below are (quick / thorough) executions. Bounds of the closed models are in the `.cfg`s.

## Per property

**C01 fiber lifecycle** - `FiberLife.tla`: a fiber is created/started/ended, joins (blocking, try, callback,
exit callback, plain-thread join) ask and are answered, references are counted. `MC_FiberLife` (2 fibers, 3
joins, all orders) checks ReclaimedOnce, ReclaimedLate, JoinSeesEnd, FailedNeverRuns, and that the reference
counting of the code refines it; liveness JoinsEnd. `d_fiber life/mains` (8500/80000): fork/join programs over
1-4 selectors, from fibers, main contexts and outside threads, failing stack allocations, kasync_main twice;
live-fiber count, memory and descriptors are read back at the end.

**C02 fiber waits** - `FiberWait.tla`: each wait returns the value of its one wakeup. `MC_FiberWait` models
wakeups at implementation level (nested switching on the same selector, posting otherwise; NoCycle, ToWaiters,
OnePost) and refinement. `d_fiber wake` (6000/60000): fibers waking each other across selectors, deep stacks
with patterns, callee-saved registers, MXCSR and x87 control words checked around every wait.

**C03 post box** - `PostBox.tla`: a set of posted callbacks, each run once on its selector. `MC_PostBox` is the
lock + event-counter + detached-list protocol (5 posts, batches) and refines the set; AllRun is its liveness.
`d_sync post` (6000/60000) posts from threads, callbacks and fibers of other selectors, with slow consumers.

**C04 fiber mutex** - `FMutex.tla` (limit, holders, FIFO of waiters, try with bound, limit changed while in
use, callback locks). `MC_FMutex`: 4 fibers, limits to 3: Limit/Disjoint/Progress, GrantBounded, NoHolderLost.
`d_mutex` (6000/60000).

**C05 fiber rwlock** - `FRWLock.tla`; 5 fibers: Exclusion, OnePlace, NoForgotten, NoOvertake, FreeGetsTaken.
`d_sync rwlock` (6000/60000).

**C06/C07 fiber conditions and thread events** - one module `FEvent.tla` (Auto/manual reset, merging or
counting notices, callback waits, try waits); four exhaustive configurations (NoSpurious, OnePerNotice, NoLost,
Consistent, ManualAll, MergeBound). `d_sync cond` for the plain, thread-safe and shared-with-threads kinds,
`d_sync kcond` for pthread events, incl. spurious wakeups of the underlying condition variables and timeouts.
Notices carry values; a wait that a value reaches has to return it, also one that begins after the notice.

**C08 spinning locks** - `SpinRW.tla`; 4 threads. `d_sync spin` (12000/120000): both variants, short turns at
single memory accesses; "hot" mode with many writers. The writer-preference clause needs an observer of "a
writer is established as waiting": a writer that has spun for 200 of its own accesses while readers hold.

**C09 channel** - `Chan.tla`: sends and receives pair off, close releases both sides and frees unreceived
data once. `MC_Chan`: 5 operations. `d_sync chan` (6000/60000), also managed references.

**C10 timers** - `Timers.tla`. `MC_Timers` has two loops with cached clocks, a steady and a system clock that
is stepped back, ts-additions as posted messages; it shows that what Fire and Tick allow is what the design
does (FireAllowed, TickAllowed, Kept). `d_timer timers/timermain` (9200/80000): local, cross-thread and "any
selector" timers, sleeping fibers, timers added by timers, equal due times, timers weeks ahead, callbacks that
keep their loop busy, loops with and without their own clock, clock steps of 0-5 s. In a quarter of the runs with one
loop, here and wherever threads are not counted, the loop is turned by a thread of the program (kselector_step).

**C11 worker queue, C12 thread pool** - `Worker.tla` (job states, workers, bounds, refusals, priorities) and
`ThreadPool.tla` (working/idle/retired threads, reuse of the newest idle, retirement after 60 s, thread calls
of fibers). Quiet states: when nothing runs any more the counters must read what the model says.
`d_thread worker/pool` (6000/60000 each), with failing thread creation.

**C13 host lookups** - `AddrCache.tla`: entries with age, pending lookups, refresh, failures, flush, families.
`MC_AddrCache` (4 lookups, 7 time steps) shows AnswerAllowed/BeginAllowed/Counted. `d_addr` (6000/60000) with a
simulated resolver (slow, failing, out of order).

**C14 byte streams, C15 idle limits** - `Stream.tla` (channel contents, reads/writes of several kinds, end,
errors; the data are in the model) and `Idle.tla` (time limit lists). `MC_Stream`, `MC_Stream_both`: InOrder,
Conserved, EndLast, Once, NoSpurious. `MC_Idle`: Sorted, OnceInList, Watched, NotLate, NeverStuck over virtual
time. `d_net stream` (7500/90000) and `idle` (8300/83000) over socketpairs and TCP; short transfers, spurious
EAGAIN, resets, shutdown, jammed peers, callback and fiber interfaces, buffer ring reads (kgl_iovec lists),
turns without a transfer (selectable_next_read/next_write); under time limits also kfiber_sendfile(_full) and
selectable_sendfile.
`d_net tlsidle` (4200/42000, `TraceTlsIdle`): the same time limits on TLS connections, whose handshakes begin late,
stand still or meet a peer that is silent or does not talk TLS.

**C16 server** - `Server.tla`: listeners, connections, the count of uses, close, release of user data;
`MC_Server` explores 3 clients x 2 listeners with descriptor reuse. `d_server` (6000/80000): fiber and callback
accept, several listeners, unix sockets, close from any thread, kserver_foreach, TLS listeners, ports taken by a socket that is not the server's,
connections that are aborted before they are accepted.

**C17 files, C25 sendfile** - `File.tla` (contents, position, alignment, direct and buffered, open modes, safe
variants) and `SendFile.tla`. File contents are in the model. `d_file` (6000/100000), `d_net sendfile`
(8000/120000): Linux AIO emulated with early/late/short/failed completions. `d_net tlsfile` (6000/60000) against
`TraceTlsFile.tla` (`Tls` and `SendFile` together): files over TLS connections, with a stand-in for kernel TLS that
each end has or has not; `selectable_support_sendfile` must say which. It found two defects (repaired): an error that
another connection had left in the thread's queue failed the transfer, and a file sent behind a pending end of the
stream tripped an assertion.

**C18 addresses, C19 buffers, C20 pools, C21 map** - functional specifications (`Addr.tla` parses and prints
address text itself; `ByteQueue.tla`; `Pool.tla` with disjointness of address ranges; `OrderedMap.tla`), with
random call sequences in `d_addrs`, `d_data` (6000-12000 / 60000-200000), also size extremes and failing
allocations.

**C22 selector manager** - `SelMgr.tla`: which selector may be chosen given what has been observed of the
counts. `MC_SelMgr`; `d_sel` (8000/80000) incl. growing.

**C23 TLS** - `Tls.tla` extends `Stream.tla` by handshake, agreement on versions and certificates, early data;
`TlsIo.tla` is an implementation-level model of records over a bounded channel with edge-triggered readiness
(NeverStuck, WriterStuck, Conserved, InOrder, HsFirst, EndLast, Agree; liveness Finishes) in two sizes.
`d_net tls` (8000/120000): certificates made at run time, right/wrong/no CA, version sets, peers that speak no
TLS, early data accepted or refused, small buffers, close_notify both ways.

**C24 UDP** - `Udp.tla` (datagrams in flight with sender, truncation, addresses any/own, shutdown). `MC_Udp`
has liveness Answered. `d_udp` (6000/80000), also when there is no descriptor for a new socket.

**C26 connect** - `Connect.tla` with the two time lists at implementation level in `MC_Connect`; `d_conn`
(6000/60000): answered, refused, silent, late answers, shutdown during the attempt, limits, and blocking connects of threads
(ksocket_connect), no descriptor left, no room in epoll.

**C27 TLS configuration** - `TlsConf.tla`: contexts (certificate, chain, key, trust, versions, protocols, ciphers),
the listener's context, connections and their name callback's answers, sessions. `MC_TlsConf` is the handshake as
implemented (name callback, asked again by the protocol callback, version choice, session, certificates both
ways) and refines it: Fits, Refused, NamedCert, Both; liveness Freed; four configurations (2.3 M states the
largest). `d_tls tlsconf` (4000/60000): contexts from files / memory / one place together, missing, spoilt and
cut-short parts, certificates replaced by others in the same file, name tables, clients with and without
names, protocols by ALPN and NPN, sessions taken up again; X509, SSL_CTX and SSL objects are counted at the end.

**C28 blocking files** - `PlainFile.tla`: names (one a symbolic link, one a directory), files, handles with mode
and position. `MC_PlainFile` explores every call on small files, with kfread_all as its loop of short reads
(AllAsOne), Keeps (only writes change, appending keeps), Stays, Sane; Ends. `d_plain` (8000/100000): call sequences
on 5 names and 4 handles in a directory of its own, with short reads.

**C29 lists, counters, strings** - `Links.tla` (sequences and stacks) and `Atoms.tla` (operations that take effect at
one moment between call and return, on limbs of 16 bits; references held by threads). `MC_Links` is the links
themselves (next, previous) and refines the sequences; `MC_Atoms` makes additions of compare-and-swap loops, keeps
the string's count in a cell and refines the atomic operations (FreedOnce, FreedLast, Ring; liveness Answered).
`d_data links` (8000/100000) and `atoms` (20000/200000; 1-3 threads on counters that lie next to each other).

**C30 ticks** - `Ticks.tla`: the ticks of a loop in order, which one is next, when the loop was last heard of, the
least answer, time spent in callbacks since. `MC_Ticks` is the loop as the code runs it (successor taken before the
call, a tick that closes itself, registration and closing by callbacks, waits up to the least answer) and shows that
it does only what `Ticks` allows. `d_timer ticks` (12000/150000): 1-2 loops, ticks with answers of 0..600 and below,
registered and closed by callbacks and timers, callbacks that take their time, turns with events of several sockets; closing another tick from inside a
tick is not done (the walk holds its successor).

## Limits

* simrt serialises threads: the memory model is sequentially consistent, as for TLC. Reorderings of weaker
  memory are out of reach (x86-64 only, and the library uses locks or full-barrier atomics).
* OpenSSL, libc and the kernel sockets are real, not modelled; kernel TLS is not available in the sandbox:
  for C25 a stand-in answers for it (BIO_ctrl says so, SSL_sendfile sends what the file holds there through
  SSL_write, with short transfers and full buffers). OpenSSL cannot read on while its answer to early data is blocked; runs with
  accepted early data therefore have no I/O faults. A truncated TLS stream is reported as end of file by the
  library; C23 does not claim otherwise. `kfiber_ssl_shutdown` is not public.
* Linux + epoll + fcontext only (the build of this repository); kqueue, iocp, io_uring, ucontext and Windows
  code is not compiled here and not claimed.
* The thorough tier is the same machinery with 8-20 times the executions and other seeds; bounds of the closed
  models are those that finish within about three minutes.

What the library does *not* promise (found while writing the properties; drivers stay inside it): exit
callbacks and join2 on `kfiber_create_sync` handles; waking an ancestor fiber that is not waiting; holding the
buffer of `krw_get_write_buffer` across a read that drains; `krw_buffer_clean` is a destructor; a read-hup
registered after the hang-up event was consumed never fires; `selector_manager_grow` ignores failing threads;
after a read timeout the fiber must read again without yielding; a peer's half close makes writes fail, and a
connect whose peer has already closed may fail; with a read limit *notified* to a pending reader, a pending
write is not ended by the limit; extra rounds are not counted again after the first notice; an accept that
fails for want of descriptors ends a callback listener (fibers get -1 and may try again); glibc reads v4-mapped text under
AF_INET as IPv4; a direct read is limited to the aligned room of its buffer; `seekEnd` is unsupported (-1); a
shortened direct write cannot go on unaligned; a connection whose epoll registration failed can only be closed; a
unix socket's path stays when its listener is closed; SELECTOR shutdown (`selector_manager_close`) is a debugging
aid (MALLOCDEBUG) and never returns in the normal build; a client's own session id context of 100 bytes is refused.

## Defects found in kasync (all repaired, see known-findings.txt)

'''
kf=[l[7:].strip() for l in open('/verif/known-findings.txt') if l.startswith('fixed:')]
for l in kf:
    m=re.match(r'property=(\S+) (\S+) (.*)',l); T+='* %s (`%s`): %s\n'%(m[1],m[2],m[3])
kn=[l[7:].strip() for l in open('/verif/known-findings.txt') if l.startswith('known:')]
for l in kn: T+='* recorded, not repaired: '+l+'\n'
T+=r'''
## False alarms met while building, and what was done

The properties were weakened where the library was right (the list of limits above came from these), never to
silence a check that was right. Typical causes, now handled in the machinery: events logged after a switch
(`sim_atomic_begin/end` brackets computing and logging); clocks up to 100 ms stale (Slack in the time
modules); allocations of the loops' internal re-armed timers counted as leaks (margin by kind); kernel socket
buffers that hold more than asked for (channel bound in the model only where it is observable); file
descriptors reused by the kernel between close and log. An irreproducible rejection (one whose re-recorded
trace is accepted) is only reported when a second, independent trace is rejected too.

## Planted bugs (seeded/) and what catches them

Each was confirmed in a scratch state: stable tests pass, the demo fails with it and passes without it, and the
quick check of its property exits 1. "Rate" is rejected/recorded traces of the first rejecting scenario.

| seed | property | needs |
|---|---|---|
'''
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); T+='| %s | %s | %s |\n'%(f.split('/')[-2],d['property'],d['needs'])
T+=r'''
Lowest measured rates: c23-data-behind-finished 12/4000, c08-reader-backs-off 30/6000 (1/2500 before the "hot"
mode was added), c10-distance-truncated 5/1500 (0 before timers weeks ahead were added), c15-pending-write-untimed
3/8000 (0 before readers that stop while writers are stuck were added). c27-session-of-old-certificate 30/4000 (0 before
sessions were kept apart from their connections and certificate files replaced in place). All others are above 1 %.
Seeds removed because they did not qualify: a join condition that is not shared (it changed a line of our own
fix), a timer counted from the last look (same).

## Mutation campaign

`tools/mutate.py` applies random single-line mutations (negated conditions, deleted or swapped statements,
off-by-one) to the sources, keeps those which build and pass the stable tests, and runs the checks of the file's
properties. Survivors were judged by hand: dead code (code of other platforms, never called functions),
equivalent mutations, or gaps. Gaps closed because of it: UDP destination addresses, thread retirement, quiet
states of workers and pools, TLS context loading from files and PEM data, listener release order, timeouts of
pending writes, seek variants.
'''
open('/verif/DESIGN.md','w').write(D+T)
