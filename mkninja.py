#!/usr/bin/env python3
"""Write build/<flavour>/build.ninja for a simulator flavour and build it from /repo's working tree."""
import os, sys, glob, subprocess, hashlib
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('SIM_REPO', '/repo')
LIBDIRS = ['src/adt', 'src/print', 'src/libfsm', 'src/libfsm/cost', 'src/libfsm/pred', 'src/libfsm/print', 'src/libfsm/vm', 'src/libfsm/walk', 'src/libre']
WRAP = 'malloc calloc realloc free strdup strndup rand srand random srandom'.split()

def lib_sources():
    out = []
    for top in ['src/adt', 'src/print', 'src/libfsm', 'src/libre']:
        for d, _, fs in os.walk(os.path.join(R, top)):
            for f in sorted(fs):
                if f.endswith('.c'):
                    out.append(os.path.join(d, f))
    return sorted(out)

def cflags_for(p):
    x = ''
    rel = os.path.relpath(p, R)
    if rel.startswith('src/libre/dialect/') and rel.endswith('parser.c'):
        d = rel.split('/')[3]
        x += f' -DDIALECT={d}'
        if d == 'pcre':
            x += ' -DPCRE_DIALECT=1'
    return x

def ninja(flavour, san, srcs, harness, exe, ldflags='', hflags='', cc='gcc', libflags='', tools={}):
    B = os.path.join(os.environ.get('SIM_BUILD', os.path.join(V, 'build')), flavour)
    os.makedirs(B, exist_ok=True)
    L = ['ninja_required_version = 1.5', f'cc = {cc}',
         f'lf = -std=gnu99 -w -I{R}/include -I{R}/src -I{R}/src/libfsm -I{R}/src/libre -DLX_HEADER=\'"lexer.h"\' {san} {libflags}',
         f'hf = -std=gnu11 -Wall -Wno-misleading-indentation -O1 -g1 -I{R}/include -I{V}/sim {hflags}',
         'rule lib', '  command = $cc $lf $x -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
         'rule h', '  command = $cc $hf -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
         'rule tool', '  command = ld -r -o $out.tmp $in && objcopy -G $main $out.tmp $out && rm $out.tmp',
         'rule ln', f'  command = $cc {san} $in -o $out {ldflags} -lm -lpthread']
    objs = []
    for s in srcs:
        o = 'l_' + os.path.relpath(s, R).replace('/', '_')[:-2] + '.o'
        L += [f'build {o}: lib {s}', f'  x = {cflags_for(s)}']
        objs.append(o)
    for t in sorted(tools): # a whole program as one object of which only main is visible, renamed
        tos = []
        for s in tools[t]:
            o = 'l_' + t + '_' + os.path.relpath(s, R).replace('/', '_')[:-2] + '.o'
            L += [f'build {o}: lib {s}', f'  x = -Dmain={t}_main -I{R}/src/{t} -I{R}/src/retest']
            tos.append(o)
        L += [f'build l_tool_{t}.o: tool ' + ' '.join(tos), f'  main = {t}_main']
        objs.append(f'l_tool_{t}.o')
    for h in harness:
        o = 'h_' + os.path.basename(h)[:-2] + '.o'
        L.append(f'build {o}: h {h}')
        objs.append(o)
    L.append(f'build {exe}: ln ' + ' '.join(objs))
    L.append(f'default {exe}')
    text = '\n'.join(L) + '\n'
    p = os.path.join(B, 'build.ninja')
    if not os.path.exists(p) or open(p).read() != text:
        open(p, 'w').write(text)
    # rebuild on content, not on modification times
    def digest(fps):
        h = hashlib.sha256(text.encode())
        for fp in sorted(fps):
            h.update(fp.encode()); h.update(open(fp, 'rb').read())
        return h.hexdigest()
    lib = [os.path.join(dp, f) for d in ['src', 'include'] for dp, dn, fs in os.walk(os.path.join(R, d)) for f in fs if f.endswith(('.c', '.h', '.inc', '.act', '.lx'))]
    stamps = []
    for name, fps in (('l_', lib), ('h_', lib + glob.glob(os.path.join(V, 'sim', '*')))):
        st, hx = os.path.join(B, name + 'sources.sha256'), digest(fps)
        stamps.append((st, hx))
        if not os.path.exists(st) or open(st).read() != hx:
            for o in glob.glob(os.path.join(B, name + '*.o')) + [os.path.join(B, exe), st]:
                if os.path.exists(o):
                    os.unlink(o)
    r = subprocess.run(['ninja', '-C', B, '-j8'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write('\n'.join(l for l in r.stdout.splitlines() if not l.startswith(('[', 'gcc', 'clang')) and 'error' in l or 'FAILED' in l or 'undefined ref' in l)[:3000] + '\n')
        raise SystemExit(3)
    for st, hx in stamps:
        open(st, 'w').write(hx)
    return os.path.join(B, exe)

def build_go():
    """what compiling a Go program without the go command needs: the packages of the runtime"""
    B = os.path.join(os.environ.get('SIM_BUILD', os.path.join(V, 'build')), 'go')
    cfg = os.path.join(B, 'importcfg')
    if os.path.exists(cfg) and os.path.exists(os.path.join(B, 'tooldir')):
        return
    os.makedirs(B, exist_ok=True)
    open(os.path.join(B, 'n.go'), 'w').write('package main\nfunc main() { println("x") }\n')
    env = dict(os.environ, GO111MODULE='off', GOCACHE=os.path.join(B, 'cache'), CGO_ENABLED='0', GOFLAGS='')
    go = lambda *a: subprocess.run(('go',) + a, cwd=B, env=env, stdout=subprocess.PIPE, text=True, check=True).stdout
    td = go('env', 'GOTOOLDIR').strip()
    out = go('list', '-deps', '-export', '-f', '{{if .Export}}packagefile {{.ImportPath}}={{.Export}}{{end}}', 'runtime')
    open(cfg, 'w').write(out)
    open(os.path.join(B, 'tooldir'), 'w').write(td)

ASAN = '-fsanitize=address,undefined -fno-sanitize=alignment,shift,null,pointer-overflow,nonnull-attribute,signed-integer-overflow -fno-sanitize-recover=undefined -fno-omit-frame-pointer -O1 -g1'
def build_hist():
    san = ASAN
    wrap = ' '.join(f'-Wl,--wrap={w}' for w in WRAP)
    h = [f'{V}/sim/{f}.c' for f in ['sim', 'nfa', 'sparse', 'gen', 'stream', 'plan', 'hist', 'ops1', 'ops2', 'ops3', 'big', 'cap', 'pat', 'desc', 'profiles', 'run']]
    return ninja('hist', san, lib_sources(), h, 'hist', wrap, f'-DREPOINC=\'"{R}/include"\'')

SIMT = 'memcpy memmove memset memcmp strlen strcmp strcpy strcat strncpy snprintf vsnprintf sprintf fread fgets qsort'.split()
PTH = 'mutex_lock mutex_unlock mutex_trylock mutex_init mutex_destroy once'.split()
def tsan_flags():
    # memory accesses call the hooks in sim/sched.c; no sanitizer runtime is linked
    return ('-fsanitize=thread -O1 -g1 -fno-omit-frame-pointer -fno-pie -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 '
            + ' '.join(f'-fno-builtin-{f} -D{f}=simt_{f}' for f in SIMT))
def build_thr():
    wrap = '-no-pie ' + ' '.join(f'-Wl,--wrap={w}' for w in WRAP + ['pthread_' + f for f in PTH])
    h = [f'{V}/sim/{f}.c' for f in ['simthr', 'sim', 'nfa', 'sparse', 'gen', 'stream', 'plan', 'hist', 'ops1', 'ops2', 'ops3', 'big', 'cap', 'pat', 'desc', 'profiles', 'run']]
    return ninja('thr', '', lib_sources(), h, 'thr', wrap, '-DSIM_THREADS -fno-pie' + f' -DREPOINC=\'"{R}/include"\'', libflags=tsan_flags())

TWRAP = WRAP + 'fopen getline clock_gettime exit pthread_create pthread_join fork wait alarm'.split()
def tool_sources():
    g = lambda d: sorted(glob.glob(os.path.join(R, d)))
    return {'fsm': [R + '/src/fsm/main.c'], 're': [R + '/src/re/main.c'], 'rx': [R + '/src/rx/main.c'], 'lx': g('src/lx/*.c') + g('src/lx/print/*.c'),
            'retest': [R + '/src/retest/main.c', R + '/src/retest/runner.c'], 'reperf': [R + '/src/retest/reperf.c', R + '/src/retest/runner.c'], 'cvtpcre': [R + '/src/retest/cvtpcre.c']}
def build_tool():
    wrap = ' '.join(f'-Wl,--wrap={w}' for w in TWRAP + ['pthread_mutex_lock', 'pthread_mutex_unlock'])
    h = [f'{V}/sim/{f}.c' for f in ['sim', 'gen', 'plan', 'tool', 'run']]
    return ninja('tool', ASAN, lib_sources(), h, 'tool', wrap + ' -ldl', tools=tool_sources())
def build_toolthr():
    wrap = '-no-pie ' + ' '.join(f'-Wl,--wrap={w}' for w in TWRAP + ['pthread_' + f for f in PTH])
    h = [f'{V}/sim/{f}.c' for f in ['simthr', 'sim', 'gen', 'plan', 'tool', 'run']]
    return ninja('toolthr', '', lib_sources(), h, 'toolthr', wrap, '-DSIM_THREADS -fno-pie', libflags=tsan_flags(), tools={'lx': tool_sources()['lx']})

def build_lxs():
    wrap = '-rdynamic -ldl ' + ' '.join(f'-Wl,--wrap={w}' for w in WRAP)
    h = [f'{V}/sim/{f}.c' for f in ['sim', 'plan', 'lxs', 'run']]
    return ninja('lxs', ASAN, lib_sources(), h, 'lxs', wrap, f'-DSIMDIR=\'"{V}/sim"\'', tools={'lx': tool_sources()['lx']})

BUILDS = {'hist': build_hist, 'thr': build_thr, 'tool': build_tool, 'toolthr': build_toolthr, 'lxs': build_lxs}
if __name__ == '__main__':
    print(BUILDS[sys.argv[1]]())
