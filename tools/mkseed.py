"""mkseed.py FILE: FILE is python defining ID, PROP, NEEDS, BREAKS, EDITS=[(path,old,new)...], DEMO (C++ source).
Writes seeded/ID from it, then verifies: build, stable tests, demo on both trees, and the property's quick check."""
import sys, os, subprocess, json
R = '/repo'; V = '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def edit(path, reps):
    s = open(path, 'rb').read(); crlf = b'\r\n' in s; t = s.replace(b'\r\n', b'\n')
    for o, n in reps:
        o = o.encode(); n = n.encode()
        assert t.count(o) == 1, (path, t.count(o), o)
        t = t.replace(o, n)
    if crlf: t = t.replace(b'\n', b'\r\n')
    open(path, 'wb').write(t)
DEMO_SH = '''#!/bin/bash
# builds demo.cc against the tree in the current directory and runs it
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -delete' EXIT
g++ -g -O1 -w -fpermissive -Iinclude -Ifcontext/src -o "$T/demo" "$H/demo.cc" _build/libkasync.a $(ls _build/fcontext/*.a) -lssl -lcrypto -lpthread -ldl || exit 3
cd "$T"
timeout 60 ./demo
'''
def main():
    nocheck = '--nocheck' in sys.argv
    files = [a for a in sys.argv[1:] if not a.startswith('--')]
    for f in files:
        g = {}
        exec(open(f).read(), g)
        d = '%s/seeded/%s' % (V, g['ID']); os.makedirs(d, exist_ok=True)
        assert sh('git -C %s status --short' % R).stdout.strip() == '', 'repo dirty'
        per = {}
        for p, o, n in g['EDITS']: per.setdefault(p, []).append((o, n))
        try:
            for p, reps in per.items(): edit(R + '/' + p, reps)
            subprocess.run('git -C %s diff --binary > %s/patch.diff' % (R, d), shell=True, check=True)
            if g.get('DEMO'): open(d + '/demo.cc', 'w').write(g['DEMO'])
            open(d + '/demo.sh', 'w').write(g.get('DEMO_SH') or DEMO_SH)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
            r = sh('bash /opt/vp/test.sh /tmp/seed_t.json')
            t = json.load(open('/tmp/seed_t.json')); base = json.load(open('/opt/vp/BASELINE.json'))
            names = base.get('passed') or base.get('stable') or base
            bad = [x for x in names if x not in t['passed']]
            print(g['ID'], 'tests', 'OK' if not bad else 'FAIL %s %s' % (bad, r.stdout[-600:]))
            r = sh('bash %s/demo.sh' % d, cwd=R); print('  patched demo rc', r.returncode, r.stdout[-300:].strip())
            if not nocheck:
                r = sh('VERIF_SEED=1 VERIF_TIER=quick bin/check %s quick' % g['PROP'], cwd=V); print('  check rc', r.returncode, r.stdout.strip()[-300:])
        finally:
            sh('git -C %s checkout -- .' % R); sh('bash /opt/vp/build.sh')
        rs = [sh('bash %s/demo.sh' % d, cwd=R).returncode for _ in range(3)]
        print('  clean demo rc', rs, flush=True)
main()
