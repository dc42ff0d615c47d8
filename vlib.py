"""Build machinery: engine, configuration of /repo, encoding of the real sources to LLVM bitcode."""
import os, sys, re, hashlib, subprocess, shutil, json, time, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
LLVM = '/usr/lib/llvm-18'
CLANGXX, CLANG = '/usr/bin/clang++-18', '/usr/bin/clang-18'
NCPU = os.cpu_count() or 4

def sh(cmd, cwd=None, timeout=600, env=None, check=True):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    if check and r.returncode != 0:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')

def hfiles(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(b'\0')
        with open(f, 'rb') as fp: h.update(fp.read())
        h.update(b'\1')
    return h.hexdigest()[:20]

def atomic_dir(path, make):
    """make(tmpdir) then rename to path"""
    if os.path.isdir(path): return path
    tmp = path + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    make(tmp)
    try: os.rename(tmp, path)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.path.isdir(path): raise
    return path

def llvm_flags():
    fl = sh(['llvm-config-18', '--cxxflags']).split()
    return [f for f in fl if not f.startswith('-std=') and f != '-fno-exceptions']

def build_engine():
    d = os.path.join(VERIF, 'engine')
    srcs = [os.path.join(d, f) for f in ('expr.cc', 'expr.h', 'solver.cc', 'solver.h', 'exec.cc', 'exec.h', 'prep.cc')]
    out = os.path.join(CACHE, 'engine-' + hfiles(srcs))
    def make(t):
        lf = llvm_flags()
        jobs = [['g++', '-O2', '-std=c++17', '-c', os.path.join(d, 'expr.cc'), '-o', t + '/expr.o'],
                ['g++', '-O2', '-std=c++17', '-c', os.path.join(d, 'solver.cc'), '-o', t + '/solver.o'],
                ['g++', '-O2', '-std=c++17', '-w', '-c', os.path.join(d, 'exec.cc'), '-o', t + '/exec.o'] + lf,
                ['g++', '-O1', '-std=c++17', '-w', os.path.join(d, 'prep.cc'), '-o', t + '/prep'] + lf + ['-L' + LLVM + '/lib', '-lLLVM-18']]
        with ThreadPoolExecutor(4) as ex: list(ex.map(sh, jobs))
        sh(['g++', '-rdynamic', t + '/expr.o', t + '/solver.o', t + '/exec.o', '-o', t + '/symex', '-L' + LLVM + '/lib', '-lLLVM-18', '-lz3', '-ldl'])
    return atomic_dir(out, make)

def configure():
    files = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('.git', '_build')]
        for f in fs:
            if f.endswith('.in') or '_in.' in f or f in ('configure', '.version', 'config.sub', 'config.guess', 'install-sh', 'cmdpars.y', 'cmdlex.l'):
                files.append(os.path.join(root, f))
    out = os.path.join(CACHE, 'conf-' + hfiles(files))
    def make(t):
        env = dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C.UTF-8')
        for k in ('MAKEFLAGS', 'CFLAGS', 'CXXFLAGS', 'CPPFLAGS', 'LDFLAGS'): env.pop(k, None)
        sh(['bash', REPO + '/configure', 'CC=gcc', 'CXX=g++'], cwd=t, env=env)
        g = t + '/gen'; os.makedirs(g, exist_ok=True)
        shutil.copy(t + '/src/core/utils.src/ddconfig.h', g)
        c = REPO + '/src/core/cmd.src/'
        sh(['bison', '-y', '-d', '-o', g + '/cmdpars.cc', c + 'cmdpars.y'], cwd=g)
        with open(g + '/cmdlex.cc', 'wb') as f:
            f.write(subprocess.run(['flex', '-t', c + 'cmdlex.l'], stdout=subprocess.PIPE, check=True).stdout)
        for x in os.listdir(t):
            if x != 'gen': (shutil.rmtree if os.path.isdir(t + '/' + x) else os.remove)(t + '/' + x)
    return atomic_dir(out, make) + '/gen'

CORE = ['utils', 'sim', 'cmd', 'gui', 'motorola']
EXCL = {'ftest.cc', 'test_mem_speed.cc', 'fwio.cc', 'clean.cc'}

def dir_sources(d):
    mk = ''
    for f in os.listdir(d):
        if f.endswith('.mk') or f == 'Makefile.in':
            mk += open(os.path.join(d, f), errors='replace').read()
    names = set(re.findall(r'([A-Za-z0-9_]+)\.o\b', mk))
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith('.cc') and f not in EXCL and f[:-3] in names:
            p = os.path.join(d, f); txt = open(p, errors='replace').read()
            if re.search(r'^\s*(int\s+)?main\s*\(', txt, re.M): continue
            out.append(p)
    return out

CFLAGS = ['-O1', '-g0', '-fPIC', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-strict-aliasing', '-fwrapv',
          '-fno-delete-null-pointer-checks', '-fno-threadsafe-statics', '-fno-stack-protector', '-fno-builtin-printf', '-fno-builtin-sprintf', '-fno-builtin-fprintf', '-w', '-D_GNU_SOURCE',
          '-U_FORTIFY_SOURCE', '-fno-access-control', '-mno-sse3', '-fno-inline-small' if False else '-fno-discard-value-names', '-DVERIF_SYMEX']

def build_target(harness, sims, core=CORE, defs=(), extra_files=(), without=()):
    """compile the current tree + harness to bitcode + shared object; returns (so, bclist, info)"""
    eng = build_engine(); gen = configure()
    t0 = time.time()
    dirs = [REPO + '/src/core/%s.src' % c for c in CORE] + [REPO + '/src/sims/%s.src' % s for s in sims]
    hdrs = []
    for d in [REPO + '/src/core/%s.src' % c for c in CORE] + [REPO + '/src/sims/' + x for x in sorted(os.listdir(REPO + '/src/sims')) if x.endswith('.src')]:
        if os.path.isdir(d): hdrs += [os.path.join(d, f) for f in os.listdir(d) if f.endswith('.h') or f.endswith('.inc')]
    hh = hfiles(hdrs + [os.path.join(gen, f) for f in os.listdir(gen)], ' '.join(CFLAGS) + os.path.basename(eng))
    hd = os.path.join(VERIF, 'harness')
    hhh = hfiles([os.path.join(hd, f) for f in os.listdir(hd) if f.endswith('.h')] + [VERIF + '/engine/sym.h'])
    objdir = os.path.join(CACHE, 'obj'); os.makedirs(objdir, exist_ok=True)
    incc = ['-I' + gen] + ['-I' + REPO + '/src/core/%s.src' % c for c in CORE]
    units = []
    # the core library of the Motorola family is an archive: only simulators that use its headers pull it in (class names clash otherwise)
    mh = {f for f in os.listdir(REPO + '/src/core/motorola.src') if f.endswith('.h')}
    if not any(mh & set(re.findall(r'#include "([^"]+)"', open(os.path.join(REPO, 'src/sims', x + '.src', f), errors='replace').read())) for x in sims for f in os.listdir(REPO + '/src/sims/%s.src' % x) if f.endswith(('.cc', '.h'))): core = [c for c in core if c != 'motorola']
    for c in core:
        for s in dir_sources(REPO + '/src/core/%s.src' % c):
            if os.path.basename(s) in without: continue
            units.append((s, incc, [], hh))
    if 'cmd' in core:
        for s in ('cmdpars.cc', 'cmdlex.cc'): units.append((gen + '/' + s, incc, [], hh))
    for sd in sims:
        d = REPO + '/src/sims/%s.src' % sd
        for s in dir_sources(d):
            if os.path.basename(s) in without: continue
            units.append((s, incc + ['-I' + d] + (['-I' + REPO + '/src/sims/z80.src'] if False else []), [], hh))
    harness = [harness] if isinstance(harness, str) else list(harness)
    for h in harness:
        units.append((os.path.join(hd, h), incc + ['-I' + REPO + '/src/sims/%s.src' % s for s in sims] + ['-I' + VERIF + '/engine', '-I' + hd], ['-D' + x for x in defs] + ['-fno-access-control'], hh + hhh))
    for s in extra_files: units.append((s, incc, [], hh))
    units.append((VERIF + '/engine/rt.c', [], ['-fno-builtin'], hhh))
    def comp(u):
        src, inc, fl, hx = u
        tag = hfiles([src], hx + ' '.join(fl) + ' '.join(inc))
        b, o = objdir + '/' + tag + '.bc', objdir + '/' + tag + '.o'
        if os.path.exists(b) and os.path.exists(o): return b, o
        t = objdir + '/' + tag + '.t%d' % os.getpid()
        cc = CLANG if src.endswith('.c') else CLANGXX
        fl2 = [x for x in CFLAGS if not (src.endswith('.c') and x == '-fno-access-control')]
        sh([cc] + fl2 + fl + inc + ['-emit-llvm', '-c', src, '-o', t + '.0.bc'])
        sh([eng + '/prep', t + '.0.bc', t + '.bc', t + '.o', re.sub(r'\W', '_', os.path.basename(src)) + tag[:6]])
        os.remove(t + '.0.bc'); os.rename(t + '.o', o); os.rename(t + '.bc', b)
        return b, o
    with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(comp, units))
    key = hashlib.sha256(' '.join(b for b, o in res).encode()).hexdigest()[:20]
    so, bl = CACHE + '/t-' + key + '.so', CACHE + '/t-' + key + '.lst'
    if not os.path.exists(so):
        sh(['g++', '-shared', '-Wl,-Bsymbolic', '-Wl,--allow-multiple-definition', '-o', so + '.tmp%d' % os.getpid()] + [o for b, o in res] + ['-lm', '-lrt', '-lcurses', '-ltinfo'])
        os.rename(so + '.tmp%d' % os.getpid(), so)
    with open(bl, 'w') as f: f.write('\n'.join(b for b, o in res) + '\n')
    return so, bl, {'units': len(units), 'build_s': round(time.time() - t0, 2), 'engine': eng}

def prepare():
    os.makedirs(CACHE, exist_ok=True)
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build_engine), ex.submit(configure)
        a.result(); b.result()
