#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
EX='seeded deterministic simulation with fault injection: '
T={
'C01':'histories of library calls with failing allocations, judged by an independent automaton model',
'C02':'histories of transformations with failing allocations, judged by an independent automaton model',
'C03':'histories of id-carrying calls with failing allocations and cancelled callbacks, judged by an id-carrying model',
'C04':'histories of group compilation, execution and transformation with failing allocations, judged per pattern',
'C05':'every call re-run from forked points with its k-th, all later, or random allocations failing',
'C06':'simulated allocator with per-object accounting, under failing allocations, streams and callbacks',
'C07':'failed calls followed by inspection, retry and further calls, from forked fault points',
'C08':'compiles from simulated character sources that pause, nest other compiles, end early and run out of memory',
'C09':'all engines over simulated streams with short reads, interruptions and errors, compared with the model',
'C10':'printing to simulated streams that accept short pieces, fill up or fail, and with failing allocations',
'C11':'text read back through simulated streams with short reads, errors, truncation and corruption',
'C12':'simulated threads that read shared automata, every access a scheduling point, with race detection and comparison with each thread run alone',
'C13':'simulated threads over separate automata with failing allocations and streams, every access a scheduling point, with race detection and comparison with each thread run alone',
'C14':'the lx program run whole with simulated worker threads, every access a scheduling point, with race detection, thread-creation and allocation failures, compared with one thread',
'C15':'lexers generated by the real lx program, compiled and run over simulated character sources that fail, are interrupted, arrive in pieces or run out of memory, against an executable model of the specification',
'C16':'simulated random source and callback answers, with failing allocations, judged by the model',
'C17':'limits and cancellation points around the actual need, with failing allocations, within longer histories',
'C18':'the seven programs run whole over simulated files, standard streams and allocator that fail at generated places, compared with an execution without faults',
'C19':'insertion histories with failing allocations, judged by a model of the set',
'C20':'patterns compiled from simulated character sources with failing allocations, then transformed, judged by an independent parser and automaton model of the dialects',
'C22':'patterns analysed from simulated character sources with failing allocations, judged by an independent parser and automaton model of the dialects',
'C23':'programs printed for other languages in the course of simulated histories with failing allocations and streams, compiled by the real compilers, loaded and run on sampled inputs, judged by the automaton model',
'C25':'descriptions printed in the course of simulated histories with failing allocations and streams, read back by independent parsers or compiled and called, judged by the automaton model',
'C24':'histories that combine and transform automata with capture paths, with failing allocations, judged by the paths set on the strings they were built from',
}
NOTE={p:'seeded search over generated histories, schedules and faults; bounded by time, not exhaustive' for p in T}
NA={
'C21':'a pure function over caller-provided buffers: it allocates nothing, calls back nothing and reads no stream, so there is no nondeterminism or fault to inject',
}
m=dict(version=1,setup_cmd='python3 setup.py',checks=[],not_applicable=[])
for p in sorted(T):
    m['checks'].append(dict(property=p,quick_cmd='python3 check.py %s quick'%p,thorough_cmd='python3 check.py %s thorough'%p,technique=EX+T[p],level='exploration',level_note=NOTE[p]))
for p in sorted(NA):
    if p not in T: m['not_applicable'].append(dict(property=p,reason=NA[p]))
json.dump(m,open('MANIFEST.json','w'),indent=1)
