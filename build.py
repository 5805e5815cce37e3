#!/usr/bin/env python3
"""Builds the simulated binaries from /repo's working tree. Content-hash cached under /verif/build (git-ignored)."""
import hashlib, json, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
JOBS = int(os.environ.get('SIM_BUILD_JOBS', str(os.cpu_count() or 8)))

DEFS = ('-DDEBUG -DHAVE_ABI_FORCE_UNWIND=1 -DHAVE_ATOMIC_BUILTINS=1 -DHAVE_ICU_I18N=1 -DHAVE_POSIX_SPAWN=1 -DHAVE_POSIX_THREADS=1 '
        '-DHAVE_PTHREAD_SETNAME -DHAVE_SYNC_AAF=1 -DHAVE_SYNC_EAA_EXT=1 -DPLATFORM_POSIX=1 -DPOSIX_HAVE_MONOTONIC_TIMER=1 '
        '-DSTINGRAYKIT_HAS_THREAD_KEYWORD=1 -DSTINGRAYKIT_USES_GCC_VISIBILITY=1 -DSTINGRAY_DEFAULT_LOGLEVEL=Info -DU_STATIC_IMPLEMENTATION=1 -D_REENTRANT=1').split()
COMMON = '-O1 -g1 -fno-pie -std=gnu++14 -ffast-math -fno-strict-aliasing -fno-omit-frame-pointer -w'.split()
INSTR = ['-fsanitize=thread', '-fno-builtin-memcpy', '-fno-builtin-memmove', '-fno-builtin-memset']
# excluded by the platform selection of the project's own build as configured here
EXCLUDE = {'diagnostics/LibunwindBacktrace.cpp', 'diagnostics/gcc/Backtrace.cpp', 'thread/posix/Backtrace.cpp'}
WRAPS = ['memcpy', 'memmove', 'memset', 'memcmp', '__cxa_allocate_exception', 'syscall', '__cxa_atexit', 'atexit']

_sha = {}
def sha(path):
    h = _sha.get(path)
    if h is None:
        try:
            with open(path, 'rb') as f: h = hashlib.sha1(f.read()).hexdigest()
        except OSError: h = 'missing'
        _sha[path] = h
    return h

def deps_of(dfile):
    with open(dfile) as f: t = f.read()
    t = t.replace('\\\n', ' ')
    return [x for x in t.split(':', 1)[1].split() if x]

def compile_one(job):
    src, obj, cmd = job
    meta = obj + '.json'
    full = cmd + ['-c', src, '-o', obj, '-MMD', '-MF', obj + '.d']
    try:
        with open(meta) as f: m = json.load(f)
        if m['cmd'] == full and os.path.exists(obj) and all(sha(p) == h for p, h in m['deps'].items()):
            return None
    except (OSError, ValueError, KeyError): pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return '%s\n%s' % (' '.join(full), r.stdout[-6000:])
    with open(meta, 'w') as f: json.dump({'cmd': full, 'deps': {p: sha(p) for p in deps_of(obj + '.d') if not p.startswith('/usr/')}}, f)
    return None

def lib_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'stingraykit')):
        for f in files:
            if f.endswith('.cpp'):
                p = os.path.join(root, f); rel = os.path.relpath(p, os.path.join(REPO, 'stingraykit'))
                if rel not in EXCLUDE: out.append((p, rel))
    return sorted(out)

def build(names):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs, lib = [], []
    hobj = {}
    for n in names:       # harnesses first: they are the slowest to compile
        o = os.path.join(BUILD, 'h', n + '.o'); hobj[n] = o
        jobs.append((os.path.join(VERIF, 'harness', n + '.cpp'), o, ['g++'] + INSTR + COMMON + DEFS + ['-I' + REPO, '-I' + os.path.join(VERIF, 'sim'), '-I' + os.path.join(VERIF, 'harness')]))
    for p, rel in lib_sources():
        o = os.path.join(BUILD, 'lib', rel.replace('/', '__')[:-4] + '.o'); lib.append(o)
        jobs.append((p, o, ['g++'] + INSTR + COMMON + DEFS + ['-DSTINGRAY_LIB_SOURCE', '-I' + REPO]))
    o = os.path.join(BUILD, 'stubs.o'); lib.append(o)
    jobs.append((os.path.join(VERIF, 'sim', 'stubs.cpp'), o, ['g++'] + INSTR + COMMON + DEFS + ['-I' + REPO]))
    rto = []
    for n in ('rt', 'driver'):
        o = os.path.join(BUILD, n + '.o'); rto.append(o)
        jobs.append((os.path.join(VERIF, 'sim', n + '.cpp'), o, ['g++', '-O2', '-g1', '-fno-pie', '-std=gnu++14', '-fno-builtin-malloc', '-fno-builtin', '-Wall', '-Wno-unused-function', '-fno-omit-frame-pointer', '-fcf-protection=none']))
    with ThreadPoolExecutor(JOBS) as ex: errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        sys.stderr.write('\n'.join(errs[:3]) + '\n'); return False
    links = []
    for n in names:
        exe = os.path.join(BUILD, 'bin', n)
        cmd = ['g++', '-no-pie', '-static-libstdc++', '-static-libgcc', '-o', exe, hobj[n]] + lib + [rto[1], rto[0]] + ['-Wl,--wrap=' + w for w in WRAPS] + ['-licuuc', '-licui18n', '-lpthread']
        links.append((exe, cmd))
    def link(x):
        exe, cmd = x
        objs = [a for a in cmd if a.endswith('.o')]
        key = hashlib.sha1((' '.join(cmd) + ''.join(sha(o) for o in objs)).encode()).hexdigest()
        try:
            with open(exe + '.key') as f:
                if f.read() == key and os.path.exists(exe): return None
        except OSError: pass
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return r.stdout[-6000:]
        with open(exe + '.key', 'w') as f: f.write(key)
        return None
    for o in rto + lib + list(hobj.values()): _sha.pop(o, None)
    with ThreadPoolExecutor(JOBS) as ex: errs = [e for e in ex.map(link, links) if e]
    if errs:
        sys.stderr.write('\n'.join(errs[:2]) + '\n'); return False
    return True

def all_names():
    return sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(VERIF, 'harness', '*.cpp')))

if __name__ == '__main__':
    names = sys.argv[1:] or all_names()
    sys.exit(0 if build(names) else 4)
