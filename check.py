#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property by seeded simulation (see DESIGN.md)."""
import sys, os, re, json, time, glob, shutil
import simlib as s, mkninja

# property -> the simulations that decide it: (simulator, profile, share of the time)
SIMS = {p: [('hist', p, 1.0)] for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C16 C17 C19 C20 C22 C24 C25'.split()}
SIMS['C23'] = [('hist', 'C23', 1.0)]
SIMS['C12'] = [('thr', 'C12', 1.0)]
SIMS['C13'] = [('thr', 'C13', 1.0)]
SIMS['C14'] = [('toolthr', 'C14', 1.0)]
SIMS['C15'] = [('lxs', 'C15', 1.0)]
SIMS['C18'] = [('tool', 'C18', 1.0)]
QUICK_S, THOROUGH_S = 24.0, 600.0
BUILD = mkninja.BUILDS
LEVEL = 'exploration'
RULE = {
 'thr': 'A case is one run: two to four histories of library calls, generated with injected allocation and stream faults from (seed, run number), executed by simulated threads whose '
        'every switch the seeded scheduler decides at the level of single memory accesses. Two runs are the same when the hash of all threads\' traces and of the sequence of switches '
        '(thread, call, access count within the call, successor) is; a run is non-trivial when its threads were interleaved, which leaves out runs given up beforehand (too_long, alone_failed).',
 'tool': 'A case is one run: a command line, files and standard input generated from (seed, run number), executed once without faults and then once per variant (other buffering and read sizes; an input, '
        'output, open or close error at a generated place; a thread or child process that cannot be created; an alarm that goes off; each of a set of failing allocations), each execution a process of its own. Two runs are the same when the hash of '
        'all their exit statuses and output bytes is; a run is non-trivial when its reference execution ended within bounds (which leaves out too_long).',
 'lxs': 'A case is one run: a lexer specification, options and inputs generated from (seed, run number); the lx program is run on it, the lexer it writes is compiled and executed over every input in a process of its own, '
        'once plainly and once per variant (a read error or interruption at a generated place, short reads, a fixed buffer, each of a set of failing allocations). Two runs are the same when the hash of the specification and of all token streams is; '
        'a run is non-trivial when a lexer was generated, compiled and executed, or lx refused the specification.',
 'toolthr': 'A case is one run: an lx specification and command line generated from (seed, run number), executed once with one thread and once with several, every switch between which the seeded scheduler decides at '
        'the level of single memory accesses. Two runs are the same when the hash of exit status, output bytes and the sequence of switches is; a run is non-trivial when both executions took place.',
 'hist': 'A case is one run: a history of library calls and injected faults generated from (seed, run number) and executed in a process of its own, '
         'plus, for the calls so marked, one forked continuation per injected allocation fault. Two runs are the same when the hashes of their traces are '
         '(operation, outcome and the canonical hash of every automaton after every step); a run is non-trivial when it executed at least two library operations, '
         'which every generated history does unless all of them were skipped for size (counted in ops_skipped).',
}
STUBS = {
 'thr': {'real': ['src/adt', 'src/libfsm', 'src/libre', 'src/print', 'compiled with -fsanitize=thread'], 'simulated': ['threads and every interleaving of memory accesses, locks and atomics (sim/simthr.c supplies the instrumentation hooks)', 'allocator', 'stdio streams (fopencookie)', 'rand/random (one sequence per thread)'], 'stubbed': []},
 'tool': {'real': ['src/fsm', 'src/re', 'src/rx', 'src/lx', 'src/retest', 'src/adt', 'src/libfsm', 'src/libre', 'src/print'], 'simulated': ['child processes (fork, wait: run one at a time in a seeded order)', 'alarm', 'standard input and output, files (fopencookie behind fopen)', 'getline (over the simulated streams)', 'allocator', 'clock', 'thread creation (threads run inline)', 'rand/random'], 'stubbed': []},
 'lxs': {'real': ['src/lx', 'src/adt', 'src/libfsm', 'src/libre', 'src/print', 'and the C lexers lx generates, compiled by gcc'], 'simulated': ['the character source of the generated lexers', 'allocator', 'standard input and output of lx'], 'stubbed': []},
 'toolthr': {'real': ['src/lx', 'src/adt', 'src/libfsm', 'src/libre', 'src/print', 'compiled with -fsanitize=thread'], 'simulated': ['threads (pthread_create, pthread_join, mutexes) and every interleaving of memory accesses', 'standard input and output', 'allocator', 'clock'], 'stubbed': []},
 'hist': {'real': ['src/adt', 'src/libfsm', 'src/libre', 'src/print'], 'simulated': ['allocator (malloc, calloc, realloc, free, strdup and struct fsm_alloc)', 'stdio streams (fopencookie)', 'rand/random'], 'stubbed': []},
}

NATIVE = dict(STUBS['hist'], real=STUBS['hist']['real'] + ['generated programs, by the real gcc (C09), or clang, gas, nasm, rustc, bash, Go compiler, assembler and linker (C23)'])

def known():
    out = []
    p = os.path.join(s.V, 'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'known': [], 'fixed': []}

def is_known(kf, prop, v):
    for k in kf['known']:
        if k['property'] == prop and re.fullmatch(k['class'], v['cls']) and re.search(k['match'], v['msg'], re.S):
            return k
    return None

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    print('property %s tier %s seed %d' % (prop, tier, seed), flush=True)
    kf = known()
    secs = float(os.environ.get('SIM_SECONDS') or (QUICK_S if tier == 'quick' else THOROUGH_S))
    jobs = int(os.environ.get('SIM_JOBS', '8'))
    scratch = os.path.join(s.BUILD, 'scratch', prop); shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    replays = os.path.join(s.BUILD, 'replays', prop); shutil.rmtree(replays, ignore_errors=True); os.makedirs(replays)
    exes = {}
    for sim, _, _ in SIMS[prop]:
        if sim not in exes:
            exes[sim] = BUILD[sim]()
    if prop == 'C23':
        mkninja.build_go()
    cov = dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[], simulations=[])
    cands = []   # (exe, plan path, class)
    # 1. histories kept from defects found before
    corpus = sorted(glob.glob(os.path.join(s.V, 'corpus', prop, '*.plan')))
    for c in corpus:
        sim = open(c).readline().split()[-1] if open(c).readline().startswith('# sim') else 'hist'
        if sim not in exes: continue
        v = s.execute(exes[sim], c)
        cov['evaluations'] += 1
        if not v['ok']:
            cands.append((exes[sim], [c], v['cls'], sim))
    cov['corpus_replayed'] = len(corpus)
    # 2. seeded search
    rules = []
    for sim, prof, share in SIMS[prop]:
        out = os.path.join(scratch, sim + '-' + prof)
        fails, st = s.search(exes[sim], prof, seed, secs * share, out, jobs)
        c = st['counters']
        runs = st['runs'] + c.get('branches', 0)
        cov['evaluations'] += runs
        cov['distinct_nontrivial'] += st['distinct']
        faults = {k: v for k, v in c.items() if k.startswith(('alloc_faults_', 'io_', 'cancelled', 'limit_hit', 'thread_faults', 'lock_waits', 'fault_', 'sched_switches'))}
        cov['simulations'].append(dict(simulator=sim, profile=prof, first_run=0, runs=st['runs'], forked_fault_branches=c.get('branches', 0), wall_s=round(st['wall'], 1),
            runs_per_hour=int(st['runs'] / max(st['wall'], .001) * 3600), seeds_per_hour=int(st['runs'] / max(st['wall'], .001) * 3600),
            simulated_time='%d simulated steps (library allocations %d, stream operations %d); the code reads no clock' % (c.get('alloc_calls', 0) + c.get('sim_ticks', 0) + c.get('io_reads', 0) + c.get('io_writes', 0), c.get('alloc_calls', 0), c.get('io_reads', 0) + c.get('io_writes', 0)),
            distinct_histories=st['distinct'], faults_injected=faults, counters=c, operations={k: dict(executed=v[0], faulted=v[1], failed=v[2]) for k, v in st['ops'].items()}, components=NATIVE if prop in ('C09', 'C23') else STUBS[sim]))
        if RULE[sim] not in rules: rules.append(RULE[sim])
        for k in (0, 1):
            if st['runs'] > k: cov['samples'].append(s.show_plan(exes[sim], prof, seed, k))
        seen = {}
        for f in sorted(fails, key=lambda f: f['run']):
            seen.setdefault(f['cls'], []).append(f)
        for cls, fs in seen.items():
            # the smallest first; the others, and a plan with its scheduler's seed in place of the recorded switches, in case it does not replay
            fs = sorted(fs, key=lambda f: os.path.getsize(f['plan']))
            cands.append((exes[sim], [f['plan'] for f in fs[:6]] + [(prof, seed, f['run'], out) for f in fs[:3]], cls, sim))
    cov['rule'] = ' '.join(rules)
    # 3. confirm, minimise and report
    reported, kseen, unconfirmed = 0, {}, []
    budget = 240.0 if tier == 'quick' else 600.0
    tm = time.time()
    for exe, paths, cls, sim in cands:
        if reported and time.time() - tm > budget / 2 or reported >= 5:
            break
        failed = []
        for path in paths:
            if isinstance(path, tuple):
                prof_, seed_, run_, out_ = path
                path = os.path.join(out_, 'seed-%d.plan' % run_)
                open(path, 'w').write('\n'.join(s.show_plan(exe, prof_, seed_, run_, 1 << 20)) + '\n')
            v1 = s.execute(exe, path); v2 = s.execute(exe, path)
            if v1['ok'] or v1['cls'] != cls or v1['cls'] == 'harness' or v2['ok'] or v1['cls'] != v2['cls'] or (not cls.startswith('crash') and v1['msg'] != v2['msg']):
                failed.append((path, cls, v1, v2)); continue
            break
        else:
            unconfirmed += failed; continue
        k = is_known(kf, prop, v1)
        if k:
            kseen[k['id']] = 1; continue
        lines, v = s.minimise(exe, path, cls, os.path.join(scratch, 'min'), 30.0 if not reported else 10.0)
        name = 'violation-%d.plan' % reported
        rp = os.path.join(replays, name)
        def note(l): return re.sub(r'[\r\n]+', ' ', l)
        open(rp, 'w').write('# sim %s\n# property %s class %s\n# %s\n# replay: %s exec %s\n' % (sim, prop, cls, note(v['msg'])[:1000], exe, rp) + '\n'.join(lines) + '\n')
        v3 = s.execute(exe, rp)
        if v3['ok'] or v3['cls'] != cls:
            unconfirmed.append((path, cls, v3, v)); continue
        k = is_known(kf, prop, v3)
        if k:
            kseen[k['id']] = 1; continue
        reported += 1
        print('violated: class %s: %s' % (cls, note(v3['msg'])[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, rp), flush=True)
    for k in kf['known']:
        if k['property'] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL, coverage=cov, wall_s=round(time.time() - t0, 2), violations=reported,
              assumptions=['sampled, not exhaustive: a clean batch is evidence for the histories it ran', 'gcc -O1 with AddressSanitizer and UndefinedBehaviorSanitizer, assertions on'])
    os.makedirs(os.path.join(s.V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(s.V, 'evidence', prop + '.json'), 'w'), indent=1)
    shutil.rmtree(scratch, ignore_errors=True) if not unconfirmed else None
    print('%d runs, %d distinct, %d violation(s), %.1f s' % (cov['evaluations'], cov['distinct_nontrivial'], reported, time.time() - t0))
    if reported:
        return 1
    if unconfirmed:
        for u in unconfirmed[:5]:
            sys.stderr.write('not confirmed: %s %s\n  %s\n  %s\n' % u)
        return 3
    return 0

if __name__ == '__main__':
    sys.exit(main())
