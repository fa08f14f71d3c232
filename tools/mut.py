"""mut.py PROP PATH OLD NEW [PATH OLD NEW...]: apply to /repo, run the quick check, undo"""
import sys, subprocess, os
REPO = os.environ.get('REPO', '/repo')
sys.path.insert(0, '/tmp')
def edit(path, reps):
    s = open(path, 'rb').read(); crlf = b'\r\n' in s; t = s.replace(b'\r\n', b'\n')
    for o, n in reps:
        o = o.encode().decode('unicode_escape').encode('latin1'); n = n.encode().decode('unicode_escape').encode('latin1')
        assert t.count(o) == 1, (path, t.count(o), o)
        t = t.replace(o, n)
    if crlf: t = t.replace(b'\n', b'\r\n')
    open(path, 'wb').write(t)
props = sys.argv[1].split(','); a = sys.argv[2:]
try:
    for i in range(0, len(a), 3): edit(REPO + '/' + a[i], [(a[i+1], a[i+2])])
    for p in props:
        r = subprocess.run(['bin/check', p, 'quick'], cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print('rc', r.returncode, '|', r.stdout.strip()[-260:])
finally:
    subprocess.run('git -C %s checkout -- .' % REPO, shell=True)
