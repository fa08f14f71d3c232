#!/usr/bin/env python3
"""conf.py DRIVER SCENARIO MODULE N [key=value...] [cfg=X.cfg] [seed=S]: record runs with build/dev and validate them."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
d, s, m, n = sys.argv[1:5]
p = dict(a.split('=', 1) for a in sys.argv[5:])
cfg = p.pop('cfg', 'Trace.cfg'); seed = int(p.pop('seed', '1')); maxrej = int(p.pop('maxrej', '1'))
c = vlib.Ctx('DEV', 'quick', seed)
c.bin = os.path.join(vlib.VERIF, 'build', 'dev')
try:
    c.conform(d, s, m, int(n), p, cfg=cfg, maxrej=maxrej)
    print(dict(c.per), c.notes)
    for v in c.viol: print(v)
finally:
    c.close()
