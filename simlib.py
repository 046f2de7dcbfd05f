"""Common parts of the checks: search, minimise, replay, known findings, evidence."""
import os, sys, json, subprocess, time, re, hashlib, glob, shutil
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(V, 'build'))
ENV = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:handle_abort=1:allocator_may_return_null=1:max_allocation_size_mb=2048', UBSAN_OPTIONS='print_stacktrace=0', LC_ALL='C', TZ='UTC')

def search(exe, profile, seed, seconds, out, jobs=8, maxruns=1 << 40, first=0):
    os.makedirs(out, exist_ok=True)
    t0 = time.time()
    r = subprocess.run([exe, 'run', profile, str(seed), str(seconds), str(jobs), str(maxruns), out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=ENV)
    fails, stats = [], None
    for l in r.stdout.splitlines():
        if l.startswith('FAIL '):
            fails.append(json.loads(l[5:]))
        elif l.startswith('STATS '):
            stats = json.loads(l[6:])
    if stats is None:
        sys.stderr.write(r.stdout[-2000:] + r.stderr[-4000:])
        raise SystemExit('simulator %s ended without statistics (status %d)' % (exe, r.returncode))
    stats['wall_total'] = time.time() - t0
    return fails, stats

def execute(exe, path, timeout=300):
    try:
        r = subprocess.run([exe, 'exec', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(ok=False, cls='crash:hang', msg='no answer in %d s' % timeout, step=-1, hash='')
    for l in r.stdout.splitlines()[::-1]:
        if l.startswith('{'):
            v = json.loads(l)
            # what differs between two executions of one plan without the history differing: process ids and addresses in a sanitizer's report
            v['msg'] = re.sub(r'0x[0-9a-f]{5,}', '0x', re.sub(r'==\d+==', '', v.get('msg') or ''))
            return v
    return dict(ok=False, cls='harness', msg='no verdict', step=-1, hash='')

def minimise(exe, path, cls, tmp, budget=25.0):
    """Delta-debug the plan's lines, then its faults, then its byte strings, keeping the violation's class."""
    os.makedirs(tmp, exist_ok=True)
    lines = [l for l in open(path).read().splitlines() if l and not l.startswith('#')]
    head, ops = lines[0], lines[1:]
    t0 = time.time()
    cand = os.path.join(tmp, 'cand.plan')
    def bad(o):
        if time.time() - t0 > budget:
            return False
        open(cand, 'w').write('\n'.join([head] + o) + '\n')
        v = execute(exe, cand)
        return (not v['ok']) and v['cls'] == cls
    v0 = execute(exe, path)
    if v0['ok'] or v0['cls'] != cls:
        return None, v0
    if 0 <= v0['step'] < len(ops) - 1 and bad(ops[:v0['step'] + 1]):
        ops = ops[:v0['step'] + 1]
    n = 2
    while len(ops) >= 2:
        size = max(1, len(ops) // n)
        for i in range(0, len(ops), size):
            o = ops[:i] + ops[i + size:]
            if o and bad(o):
                ops = o; n = max(n - 1, 2); break
        else:
            if size == 1:
                break
            n = min(len(ops), n * 2)
    # faults, retries, byte strings
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for i, l in enumerate(ops):
            w = l.split()
            for j, t in enumerate(w):
                alts = []
                if t.startswith(('f:', 'b:')) or t == 'r':
                    alts = [None]
                elif t.startswith('s:') and len(t) > 4:
                    h = t[2:]; k = len(h) // 2
                    alts = ['s:' + h[:2 * (k // 2)], 's:' + h[2 * (k // 2):]] + (['s:' + h[:2 * a] + h[2 * a + 2:] for a in range(k)] if k <= 40 else [])
                for a in alts:
                    nl = ' '.join(w[:j] + ([a] if a else []) + w[j + 1:])
                    o = ops[:i] + [nl] + ops[i + 1:]
                    if bad(o):
                        ops = o; changed = True; break
                if changed: break
            if changed: break
    open(cand, 'w').write('\n'.join([head] + ops) + '\n')
    v = execute(exe, cand)
    if v['ok'] or v['cls'] != cls:
        return lines, v0
    return [head] + ops, v

def show_plan(exe, profile, seed, run, most=4000):
    r = subprocess.run([exe, 'plan', profile, str(seed), str(run)], stdout=subprocess.PIPE, text=True, errors='replace', env=ENV)
    return r.stdout[:most].splitlines()
