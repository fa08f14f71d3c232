"""mutate.py N SEED FILE[:PROP,PROP...] ...: random mutants of source files, run through the existing tests
and then the quick checks of the listed properties.  Prints the survivors.  Works on copies under /tmp/mw."""
import sys, os, re, random, subprocess, shutil, threading, queue, hashlib, json
W = int(os.environ.get('W', '3'))
N, SEED = int(sys.argv[1]), int(sys.argv[2])
MAP = {
 'kfiber.c': 'C01,C02,C14,C12,C16,C17,C24,C25,C26', 'kfiber_sync.c': 'C05,C06,C04,C09', 'kthread.c': 'C12', 'kasync_worker.c': 'C11',
 'kselector.c': 'C10,C15,C03,C14,C22', 'kselector_manager.c': 'C22,C03', 'kepoll_selector.c': 'C14,C15,C03,C17,C24,C25,C26,C16',
 'kselectable.c': 'C14,C23,C24,C25,C26,C15', 'kconnection.c': 'C23,C26,C16,C14', 'kserver.c': 'C16', 'kaddr.c': 'C13,C18', 'ksocket.c': 'C18,C16,C26,C24,C14',
 'kbuf.c': 'C19', 'kmalloc.c': 'C20', 'krbtree.c': 'C21', 'kgl_ssl.c': 'C27,C23,C16', 'kfile.c': 'C28,C17', 'kasync_file.c': 'C17', 'kudp.c': 'C24',
}
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def mutants(path, rnd):
    src = open(path, 'rb').read().replace(b'\r\n', b'\n').decode('latin-1')
    lines = src.split('\n'); out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not l.startswith(('\t', ' ')) or s.startswith(('//', '#', '*', '/*', 'assert', 'kassert', 'printf', 'klog', 'fprintf', 'perror')): continue
        def add(n, how):
            if n != l: out.append((i, l, n, how))
        m = re.match(r'^(\s*(?:\} else )?)(if|while) \((.*)\)( \{)?$', l)
        if m: add('%s%s (!(%s))%s' % (m.group(1), m.group(2), m.group(3), m.group(4) or ''), 'negate')
        for a, b in (('<=', '<'), ('>=', '>'), (' < ', ' <= '), (' > ', ' >= '), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), ('++', '--'), ('--', '++'), ('true', 'false'), ('false', 'true'),
                     (' + ', ' - '), (' - ', ' + '), ('KBIT_SET', 'KBIT_CLR'), ('KBIT_CLR', 'KBIT_SET'), ('NULL', '(void*)1') if 0 else (' 0', ' 1'), (' 1', ' 0'), ('-1', '0'), (' |', ' & ~') if 0 else ('+=', '-='), ('-=', '+=')):
            if a in l and not (a in ('<=', '>=') and 0) and '->' not in a:
                k = [x.start() for x in re.finditer(re.escape(a), l)]
                k = [x for x in k if not (a == '--' and l[x:x+3] == '-->')]
                if k:
                    x = rnd.choice(k); add(l[:x] + b + l[x+len(a):], a + '>' + b)
        if s.endswith(';') and not re.match(r'^(return|break|continue|case|goto|else|for|\}|[a-z_A-Z0-9]+ \*?[a-z_A-Z0-9]+( =.*)?;|struct|static|const)', s) : add('\t;', 'delete')
        elif s.endswith(';') and re.match(r'^(break|continue);', s): add('\t;', 'delete')
        if s.endswith(';') and i + 1 < len(lines) and lines[i+1].strip().endswith(';') and not s.startswith(('return', 'break', 'goto', 'continue')) and not lines[i+1].strip().startswith(('return', 'break', 'goto', 'continue', '}')):
            out.append((i, l + '\n' + lines[i+1], lines[i+1] + '\n' + l, 'swap'))
    return src, out
def apply(src, m):
    i, old, new, how = m; ls = src.split('\n'); k = old.count('\n') + 1
    assert '\n'.join(ls[i:i+k]) == old
    ls[i:i+k] = new.split('\n'); return '\n'.join(ls)
jobs = queue.Queue()
def setup(w):
    d = '/tmp/mw/%d' % w
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    sh('git clone -q /repo %s/repo; mkdir %s/verif; cd /verif; cp -a bin lib harness spec known-findings.txt %s/verif/; mkdir -p %s/verif/work %s/verif/evidence %s/verif/build' % ((d,) * 6))
    r = sh('cd %s/repo && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DGTEST_ROOT=/usr/src/googletest/googletest -DUSE_CXX=ON -DCMAKE_C_FLAGS=-I%s/repo/fcontext/src -DCMAKE_CXX_FLAGS=-I%s/repo/fcontext/src && ninja -C _build' % (d, d, d))
    if r.returncode: print(r.stdout[-2000:])
    return d
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
def objhash(d, f):
    r = sh('g++ -x c++ -O1 -w -I%s/repo/include -I%s/repo/fcontext/src -S -o - %s/repo/src/%s' % (d, d, d, f))
    return None if r.returncode else hashlib.md5(re.sub(r'\$\d+, %esi|__LINE__|\.loc.*', '', r.stdout).encode()).hexdigest()
def worker(w):
    d = setup(w); env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_NOMODEL='1', VERIF_SEED='1', VERIF_TIER='quick')
    base = {}
    while True:
        try: f, props, m = jobs.get_nowait()
        except queue.Empty: break
        p = '%s/repo/src/%s' % (d, f)
        sh('git -C %s/repo checkout -q -- src' % d)
        if f not in base: base[f] = objhash(d, f)
        src = open(p, 'rb').read().replace(b'\r\n', b'\n').decode('latin-1')
        open(p, 'wb').write(apply(src, m).encode('latin-1'))
        h = objhash(d, f); tag = '%s:%d %s | %s' % (f, m[0] + 1, m[3], ' '.join(m[2].replace('\n', ' // ').split())[:110])
        if h is None or h == base[f]: continue
        r = sh('ninja -C %s/repo/_build 2>&1 | tail -3; rm -rf %s/repo/_build/testrun; mkdir %s/repo/_build/testrun; flock /tmp/mw.lock timeout 60 python3 /opt/vp/run_tests.py %s/repo/_build/kasync_fiber_test %s/repo/_build/testrun' % ((d,) * 5))
        try: res = open(d + '/repo/_build/testrun/results.txt').read()
        except OSError: res = ''
        if not BASE <= set(l[5:] for l in res.splitlines() if l.startswith('PASS')): print('TESTS   ' + tag, flush=True); continue
        hit = None
        for pr in props:
            try: r = sh('timeout 600 bin/check %s quick' % pr, cwd=d + '/verif', env=env)
            except Exception as e: continue
            if r.returncode == 1: hit = pr; break
            if r.returncode not in (0,): hit = '%s(rc=%d)' % (pr, r.returncode); break
        print(('CAUGHT %s ' % hit if hit else 'SURVIVED ') + tag, flush=True)
rnd = random.Random(SEED)
all_ = []
for a in sys.argv[3:]:
    f, _, ps = a.partition(':')
    src, ms = mutants('/repo/src/' + f, rnd)
    rnd.shuffle(ms); k = 0; seen = set()
    for m in ms:
        if (m[0], m[3]) in seen: continue
        seen.add((m[0], m[3])); all_.append((f, (ps or MAP[f]).split(','), m)); k += 1
        if k >= N: break
rnd.shuffle(all_)
for a in all_: jobs.put(a)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
