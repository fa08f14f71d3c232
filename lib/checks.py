"""The table of checks: which models are checked exhaustively and which scenarios are recorded and validated."""
ASSUME = ['sequentially consistent interleavings of instrumented accesses; the kernel and OpenSSL behave as documented',
          'recorded executions are a seeded sample of schedules, inputs and faults; the abstract models are explored exhaustively within the bounds of their configurations']
CHECKS = {}


def check(pid, drivers, **kw):
    def d(f):
        CHECKS[pid] = dict(drivers=drivers, run=f, **kw)
        return f
    return d


def q(c, quick, thorough):
    return quick if c.tier == 'quick' else thorough


@check('C04', ['d_mutex'])
def c04(c):
    c.model('MC_FMutex')
    c.conform('d_mutex', 'mutex', 'TraceFMutex', q(c, 6000, 60000))


@check('C03', ['d_sync'])
def c03(c):
    c.model('MC_PostBox')
    c.conform('d_sync', 'post', 'TracePostBox', q(c, 6000, 60000))


@check('C05', ['d_sync'])
def c05(c):
    c.model('MC_FRWLock')
    c.conform('d_sync', 'rwlock', 'TraceFRWLock', q(c, 6000, 60000))


def event_models(c):
    for a in ('TRUE', 'FALSE'):
        for m in (0, 1):
            c.model('MC_FEvent', 'MC_FEvent_%s_%d.cfg' % (a, m))


@check('C06', ['d_sync'])
def c06(c):
    event_models(c)
    for kind in (0, 1, 2):
        c.conform('d_sync', 'cond', 'TraceFEvent', q(c, 1500, 30000), dict(kind=kind), tag='-%d' % kind)


@check('C07', ['d_sync'])
def c07(c):
    event_models(c)
    c.conform('d_sync', 'kcond', 'TraceFEvent', q(c, 6000, 60000))


@check('C08', ['d_sync'])
def c08(c):
    c.model('MC_SpinRW')
    for w in (0, 1):
        c.conform('d_sync', 'spin', 'TraceSpinRW', q(c, 6000, 60000), dict(wrp=w), tag='-%d' % w)


@check('C09', ['d_sync'])
def c09(c):
    c.model('MC_Chan')
    c.conform('d_sync', 'chan', 'TraceChan', q(c, 6000, 60000))
NA = {}


@check('C01', ['d_fiber'])
def c01(c):
    c.model('MC_FiberLife')
    c.conform('d_fiber', 'life', 'TraceFiberLife', q(c, 6000, 60000))
    c.conform('d_fiber', 'mains', 'TraceFiberLife', q(c, 2500, 20000))


@check('C02', ['d_fiber'])
def c02(c):
    c.model('MC_FiberWait')
    c.conform('d_fiber', 'wake', 'TraceFiberWait', q(c, 6000, 60000))


@check('C10', ['d_timer'])
def c10(c):
    c.model('MC_Timers')
    for s in (0, 1):
        c.conform('d_timer', 'timers', 'TraceTimers', q(c, 4000, 30000), dict(step=s), cfg='TraceTimers.cfg', tag='-%d' % s)
        c.conform('d_timer', 'timermain', 'TraceTimers', q(c, 600, 10000), dict(step=s), cfg='TraceTimers.cfg', tag='-%d' % s)


@check('C11', ['d_thread'])
def c11(c):
    c.model('MC_Worker')
    c.conform('d_thread', 'worker', 'TraceWorker', q(c, 6000, 60000), cfg='TraceWorker.cfg')


@check('C12', ['d_thread'])
def c12(c):
    c.model('MC_ThreadPool')
    c.conform('d_thread', 'pool', 'TraceThreadPool', q(c, 6000, 60000), cfg='TraceThreadPool.cfg')


@check('C13', ['d_addr'])
def c13(c):
    c.model('MC_AddrCache')
    for s in (0, 1):
        c.conform('d_addr', 'addr', 'TraceAddrCache', q(c, 3000, 30000), dict(slow=s), cfg='TraceAddrCache.cfg', tag='-%d' % s)


@check('C14', ['d_net'])
def c14(c):
    c.model('MC_Stream')
    c.model('MC_Stream', 'MC_Stream_both.cfg')
    for tcp, n in ((0, 5000), (1, 2500)):
        c.conform('d_net', 'stream', 'TraceStream', q(c, n, n * 12),
                  {'tcp': tcp, 'sim.short_io': 200, 'sim.eagain': 200}, cfg='TraceStream.cfg', tag='-%d' % tcp)


@check('C15', ['d_net'])
def c15(c):
    c.model('MC_Idle')
    for tcp, n in ((0, 8000), (1, 300)):
        c.conform('d_net', 'idle', 'TraceIdle', q(c, n, n * 10),
                  {'tcp': tcp, 'sim.short_io': 200, 'sim.eagain': 200}, cfg='TraceIdle.cfg', tag='-%d' % tcp)
    for tcp, n in ((0, 4000), (1, 200)):
        c.conform('d_net', 'tlsidle', 'TraceTlsIdle', q(c, n, n * 10),
                  {'tcp': tcp, 'sim.short_io': 200, 'sim.eagain': 200}, cfg='TraceTlsIdle.cfg', tag='-tls%d' % tcp)


@check('C19', ['d_data'])
def c19(c):
    c.model('MC_ByteQueue')
    for s, n in (('rwbuf', 4000), ('flatbuf', 2000), ('seek', 1500)):
        c.conform('d_data', s, 'TraceByteQueue', q(c, n, n * 12), tag='-' + s)


@check('C20', ['d_data'])
def c20(c):
    c.model('MC_Pool')
    c.conform('d_data', 'pool', 'TracePool', q(c, 6000, 80000))


@check('C21', ['d_data'])
def c21(c):
    c.model('MC_OrderedMap')
    c.conform('d_data', 'omap', 'TraceOrderedMap', q(c, 6000, 80000))


@check('C22', ['d_sel'])
def c22(c):
    c.model('MC_SelMgr')
    c.conform('d_sel', 'selmgr', 'TraceSelMgr', q(c, 8000, 80000), cfg='TraceSelMgr.cfg')


@check('C26', ['d_conn'])
def c26(c):
    c.model('MC_Connect')
    c.conform('d_conn', 'connect', 'TraceConnect', q(c, 6000, 60000), {'sim.short_io': 200, 'sim.eagain': 200}, cfg='TraceConnect.cfg')


@check('C18', ['d_addrs'])
def c18(c):
    c.model('MC_Addr')
    c.conform('d_addrs', 'addrs', 'TraceAddr', q(c, 12000, 200000), cfg='TraceAddr.cfg')


@check('C16', ['d_server'])
def c16(c):
    c.model('MC_Server')
    c.model('MC_Server', 'MC_Server_three.cfg')
    if c.tier == 'thorough':
        c.model('MC_Server', 'MC_Server_deep.cfg')
    c.conform('d_server', 'server', 'TraceServer', q(c, 6000, 80000), {'sim.short_io': 200, 'sim.eagain': 200, 'sim.accept_abort': 150}, cfg='TraceServer.cfg')


@check('C17', ['d_file'])
def c17(c):
    c.model('MC_File')
    c.model('MC_File', 'MC_File_two.cfg')
    c.conform('d_file', 'file', 'TraceFile', q(c, 6000, 100000), cfg='TraceFile.cfg')


@check('C25', ['d_net'])
def c25(c):
    c.model('MC_SendFile')
    for t in (0, 1):
        c.conform('d_net', 'sendfile', 'TraceSendFile', q(c, 4000, 60000), {'tcp': t, 'sim.short_io': 200, 'sim.eagain': 200}, cfg='TraceSendFile.cfg', tag='-%d' % t)
    c.conform('d_net', 'tlsfile', 'TraceTlsFile', q(c, 6000, 60000), {'sim.short_io': 200, 'sim.eagain': 200}, cfg='TraceTlsFile.cfg')


@check('C24', ['d_udp'])
def c24(c):
    c.model('MC_Udp')
    c.conform('d_udp', 'udp', 'TraceUdp', q(c, 6000, 80000), {'sim.eagain': 200}, cfg='TraceUdp.cfg')


@check('C23', ['d_net'])
def c23(c):
    c.model('MC_Tls')
    c.model('MC_Tls', 'MC_Tls_refused.cfg')
    c.model('MC_TlsIo')
    c.model('MC_TlsIo', 'MC_TlsIo_two.cfg')
    for t in (0, 1):
        c.conform('d_net', 'tls', 'TraceTls', q(c, 4000, 60000), {'tcp': t, 'sim.short_io': 200, 'sim.eagain': 200}, cfg='TraceTls.cfg', tag='-%d' % t)


@check('C27', ['d_tls'])
def c27(c):
    for cfg in ('MC_TlsConf.cfg', 'MC_TlsConf_free.cfg', 'MC_TlsConf_off.cfg', 'MC_TlsConf_two.cfg'):
        c.model('MC_TlsConf', cfg)
    c.conform('d_tls', 'tlsconf', 'TraceTlsConf', q(c, 4000, 60000), {'sim.short_io': 200, 'sim.eagain': 200}, cfg='TraceTlsConf.cfg')


@check('C28', ['d_plain'])
def c28(c):
    c.model('MC_PlainFile')
    c.model('MC_PlainFile', 'MC_PlainFile_ends.cfg')
    c.conform('d_plain', 'plain', 'TracePlainFile', q(c, 8000, 100000), cfg='TracePlainFile.cfg')


@check('C29', ['d_data'])
def c29(c):
    c.model('MC_Links')
    c.model('MC_Atoms')
    c.model('MC_Atoms', 'MC_Atoms_live.cfg')
    c.conform('d_data', 'links', 'TraceLinks', q(c, 8000, 100000))
    c.conform('d_data', 'atoms', 'TraceAtoms', q(c, 20000, 200000), cfg='TraceAtoms.cfg')


@check('C30', ['d_timer'])
def c30(c):
    c.model('MC_Ticks')
    c.conform('d_timer', 'ticks', 'TraceTicks', q(c, 12000, 150000), cfg='TraceTicks.cfg')
