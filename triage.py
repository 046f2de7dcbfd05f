#!/usr/bin/env python3
"""triage.py profile seed seconds [mincls-regex] : search, group, minimise (developer tool)"""
import sys, re, os, collections
import simlib as s, mkninja
exe = mkninja.build_hist()
prof, seed, secs = sys.argv[1:4]
rx = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
out = '/tmp/o/' + prof
os.makedirs(out, exist_ok=True)
for f in os.listdir(out):
    os.unlink(os.path.join(out, f))
fails, st = s.search(exe, prof, int(seed), float(secs), out)
print('runs', st['runs'], 'clean', st['clean'], 'distinct', st['distinct'], 'wall', st['wall'])
by = collections.OrderedDict()
for f in fails:
    by.setdefault(f['cls'], []).append(f)
for c, fs in sorted(by.items()):
    if rx and not rx.search(c):
        print('-', c, len(fs)); continue
    f = min(fs, key=lambda f: os.path.getsize(f['plan']))
    p, v = s.minimise(exe, f['plan'], c, '/tmp/o/min', 6)
    if p is None:
        print('!! NOT REPRODUCED', c, f['plan'], v); continue
    mp = os.path.join(out, 'min-' + re.sub(r'[^\w.]+', '_', c) + '.plan')
    open(mp, 'w').write('\n'.join(p) + '\n')
    print('*', c, len(fs), mp); print('   ', re.sub(r'\s+', ' ', v['msg'])[:int(os.environ.get('W', 240))])
    if os.environ.get('P'):
        for l in p[1:]:
            print('      ', l)
