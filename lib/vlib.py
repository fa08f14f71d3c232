"""Shared machinery of the checks: build the simulated library, record traces, validate them with TLC."""
import os, sys, json, subprocess, tempfile, time, hashlib, shutil, re, collections
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = len(os.sched_getaffinity(0))


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                if f.endswith(('.c', '.h', '.S', '.cc', '.sh', '.in', '.tla')):
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


class Ctx:
    """One run of one check."""
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.runs = self.distinct = 0
        self.samples, self.notes, self.viol = [], [], []
        self.mc = {}
        self.per = collections.OrderedDict()
        self.work = tempfile.mkdtemp(prefix='kv_%s_' % pid, dir=self._workroot())
        self.replays = os.path.join(VERIF, 'work', 'replays')
        os.makedirs(self.replays, exist_ok=True)
        self.bin = None
        self.limit = 840 if tier == 'quick' else 10 ** 9

    @staticmethod
    def _workroot():
        d = os.path.join(VERIF, 'work')
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ------------------------------------------------------------ build
    def build(self, drivers):
        key = tree_hash([REPO + '/src', REPO + '/include', REPO + '/fcontext', VERIF + '/harness', VERIF + '/lib']) + '-' + '-'.join(sorted(drivers))
        root = os.path.join(VERIF, 'build')
        os.makedirs(root, exist_ok=True)
        out = os.path.join(root, hashlib.sha256(key.encode()).hexdigest()[:16])
        if not os.path.exists(out + '/ok'):
            tmp = tempfile.mkdtemp(prefix='tmp', dir=root)
            r = sh([VERIF + '/lib/build.sh'] + drivers, env=dict(os.environ, OUT=tmp, REPO=REPO))
            if r.returncode != 0:
                sys.stderr.write(r.stdout[-4000:])
                shutil.rmtree(tmp, ignore_errors=True)
                raise CheckError('build failed')
            open(tmp + '/ok', 'w').close()
            try:
                os.rename(tmp, out)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
            # keep the cache small
            ds = sorted((os.path.join(root, d) for d in os.listdir(root)), key=os.path.getmtime)
            for d in ds[:-12]:
                shutil.rmtree(d, ignore_errors=True)
        self.bin = out

    # ------------------------------------------------------------ model checking
    def tlc(self, module, cfg, env=None, workers=1, extra=(), xmx='3g', timeout=None):
        md = tempfile.mkdtemp(prefix='md', dir=self.work)
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss16m', '-cp', TLAJARS, 'tlc2.TLC',
               '-metadir', md, '-workers', str(workers), '-noGenerateSpecTE', '-config', cfg, *extra, module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
        shutil.rmtree(md, ignore_errors=True)
        return r

    @staticmethod
    def counts(out):
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

    def model(self, module, cfg=None):
        """Exhaustive TLC run of a model; a failure here is an error of the check, not a violation."""
        if os.environ.get('VERIF_NOMODEL'):     # tools/mutate.py: models do not depend on the code
            return
        r = self.tlc(module, cfg or module + '.cfg', workers=min(NCPU, 4))
        if r.returncode != 0 or 'No error has been found' not in r.stdout:
            sys.stderr.write(r.stdout[-3000:])
            raise CheckError('model %s does not hold' % module)
        g, d = self.counts(r.stdout)
        self.states += d
        self.transitions += g
        self.mc[cfg or module] = dict(distinct=d, generated=g)

    # ------------------------------------------------------------ traces
    def record(self, driver, scenario, n, seed, params=None, tag=''):
        out = os.path.join(self.work, '%s%s.nd' % (scenario, tag))
        cmd = [os.path.join(self.bin, driver), scenario, 'n=%d' % n, 'seed=%d' % seed, 'out=' + out, 'dir=' + self.work]
        cmd += ['%s=%s' % kv for kv in (params or {}).items()]
        r = sh(cmd, cwd=self.work)
        if r.returncode not in (0, 4):
            sys.stderr.write(r.stdout[-2000:])
            raise CheckError('driver failed: %s rc=%d' % (' '.join(cmd), r.returncode))
        lines = [l for l in open(out, errors='replace').read().split('\n') if l]
        return cmd, lines, out

    def validate(self, module, lines, cfg='Trace.cfg', verbose=False):
        """-> set of indexes of rejected traces (TLC)."""
        if not lines:
            return set(), ''
        nchunk = 1 if verbose or len(lines) < 8 else min(NCPU, 8)
        chunks = [list(range(i, len(lines), nchunk)) for i in range(nchunk)]

        def tlc(ix):
            fd, p = tempfile.mkstemp(suffix='.nd', dir=self.work)
            with os.fdopen(fd, 'w') as f:
                for i in ix:
                    f.write(lines[i] + '\n')
            r = self.tlc(module, cfg, env=dict(TRACES=p, VERBOSE='1' if verbose else '0'))
            os.unlink(p)
            if 'No error has been found' in r.stdout:
                return r.stdout, False
            if 'Finished computing initial states' not in r.stdout or 'OutOfMemory' in r.stdout or 'Parsing or semantic analysis failed' in r.stdout:
                i = r.stdout.find('Error')
                sys.stderr.write(r.stdout[max(0, i - 500):i + 3000])
                raise CheckError('TLC failed on %s' % module)
            return r.stdout, True

        def one(ix):
            # a trace with data that the specification cannot even evaluate is not one of its behaviours: look for the first
            out, err = tlc(ix)
            odd = []
            if err:
                i = out.find('Error')
                first = out[max(0, i):i + 1500]
            while err and len(ix) > 1:
                h = ix[:len(ix) // 2]
                out, err = tlc(h)
                if err:
                    ix = h
                else:
                    ix = ix[len(h):]
                    out, err = tlc(ix)
            if err:
                odd = list(ix)
                self.notes.append('TLC could not evaluate %s on a trace: %s' % (module, first[:600]))
            acc = set(int(m) for m in re.findall(r'<<"ACC", (\d+)>>', out)) if not err else set()
            g, d = self.counts(out)
            return odd or [i for k, i in enumerate(ix) if k + 1 not in acc], g, d, out
        rej, outs = set(), ''
        with ThreadPoolExecutor(max_workers=nchunk) as ex:
            for rj, g, d, o in ex.map(one, chunks):
                rej.update(rj)
                self.transitions += g
                self.states += d
                outs = o
        return rej, outs

    def conform(self, driver, scenario, module, n, params=None, seed=None, cfg='Trace.cfg', tag='', maxrej=1):
        """Record n runs of the code and check every trace against the specification."""
        if self.viol and self.tier == 'quick':
            return
        seed = (self.seed * 1000003 if seed is None else seed) % 2000000011 + 1
        t0 = time.time()
        cmd, lines, out = self.record(driver, scenario, n, seed, params, tag)
        t1 = time.time()
        if len(lines) != n:
            raise CheckError('driver produced %d of %d traces' % (len(lines), n))
        seen, uniq, bad = {}, [], []
        for l in lines:
            m = re.match(r'\{"id":(\d+),"st":"(\w+)",', l)
            st = m.group(2)
            if st in ('timeout', 'killed', 'error', 'overflow'):
                bad.append((int(m.group(1)), st, l))
                continue
            body = l[m.end():]
            if body not in seen:
                seen[body] = int(m.group(1))
                uniq.append((int(m.group(1)), l))
        self.runs += len(lines)
        self.distinct += len(uniq)
        for sid, st, l in bad[:3]:
            # a run that does not finish: is it reproducible?
            c2, l2, _ = self.record(driver, scenario, 1, sid, params, tag + 'again')
            if '"st":"%s"' % st in l2[0]:
                if st == 'timeout':
                    self.report(driver, scenario, params, sid, l2[0], 'run does not terminate', cmd)
                    return
                raise CheckError('driver %s seed %d: %s' % (scenario, sid, st))
        # long traces first so that the chunks are even
        uniq.sort(key=lambda x: -len(x[1]))
        rej, _ = self.validate(module, [l for _, l in uniq], cfg)
        self.traces += len(uniq)
        self.per[scenario + tag] = dict(runs=len(lines), distinct=len(uniq), rejected=len(rej), record_s=round(t1 - t0, 1), tlc_s=round(time.time() - t1, 1))
        if uniq and len(self.samples) < 6:
            self.samples.append(dict(scenario=scenario, trace=json.loads(min((l for _, l in uniq), key=len))))
        k = 0
        for i in sorted(rej):
            sid, l = uniq[i]
            # confirm: record the same run again, validate it alone
            c2, l2, out2 = self.record(driver, scenario, 1, sid, params, tag + 'again')
            rj, o = self.validate(module, l2, cfg, verbose=True)
            if rj:
                at = [int(x) for x in re.findall(r'<<"AT", (\d+)>>', o)]
                self.report(driver, scenario, params, sid, l2[0], 'trace rejected by %s' % module, cmd, at=max(at) if at else None,
                            err=open(out2 + '.err', errors='replace').read()[-3000:])
                k += 1
                if k >= maxrej:
                    return
            else:
                self.notes.append('rejection of %s seed %d not reproducible' % (scenario, sid))
        if rej and k == 0:
            # not reproducible alone: validate the recorded trace itself again; a rejection of a recorded
            # execution stands, the run was real
            again = [uniq[i] for i in sorted(rej)]
            rj, o = self.validate(module, [l for _, l in again[:3]], cfg)
            if rj:
                sid, l = again[sorted(rj)[0]]
                # demand a second independent rejection before believing an irreproducible one
                if len(rej) >= 2:
                    self.report(driver, scenario, params, sid, l, 'trace rejected by %s (recorded run)' % module, cmd)

    def report(self, driver, scenario, params, sid, line, why, cmd, at=None, err=''):
        p = os.path.join(self.replays, '%s-%s-%d.json' % (self.pid, scenario, sid))
        try:
            tr = json.loads(line)
        except Exception:
            tr = dict(raw=line[:5000], ev=[], cfg={})
        c = [x for x in cmd[2:] if not re.match(r'(n|seed|out)=', x)]
        c = [x for x in c if not x.startswith('dir=')]
        with open(p, 'w') as f:
            json.dump(dict(property=self.pid, why=why, driver=driver, scenario=scenario, seed=sid, params=params or {}, rejected_at_event=at,
                           event=(tr['ev'][at - 1] if at and at <= len(tr['ev']) else None), stderr=err, cfg=tr.get('cfg'),
                           replay='%s/lib/replay.sh %s %s %d %s' % (VERIF, driver, scenario, sid, ' '.join(c)), trace=tr.get('ev')), f, indent=1)
        self.viol.append((p, '%s: %s seed %d, event %s of %d' % (why, scenario, sid, at, len(tr['ev']))))

    # ------------------------------------------------------------ result
    def finish(self, level, assumptions=()):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   executions=self.runs, distinct_traces=self.distinct, samples=self.samples or ['none'], models=self.mc, scenarios=self.per)
        if self.notes:
            cov['notes'] = self.notes
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.viol), assumptions=list(assumptions))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.pid, 'w') as f:
            json.dump(ev, f, indent=1)
        for p, w in self.viol:
            print('%s' % w)
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
        return 1 if self.viol else 0
