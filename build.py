#!/usr/bin/env python3
"""Builds mocc's sources from /repo's working tree, plus the property binaries.

usage: build.py [--all] [ID ...]
Objects are rebuilt when the content of the source, of any header it included,
or of the command line changed (time stamps are not used).
"""
import fcntl, glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MOCC_REPO', '/repo')
BUILD = os.environ.get('MOCC_VERIF_BUILD', os.path.join(HERE, 'build'))
GEN = os.path.join(BUILD, 'gen')
COMPAT = '/opt/vp/cmake/compat.hpp'
JOBS = 8

INC = ['-I' + REPO + '/src', '-I' + REPO + '/src/core', '-I' + REPO + '/src/sweepers',
       '-I' + REPO + '/src/solvers', '-I' + GEN,
       '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/hdf5/serial',
       '-include', COMPAT]
BASE = ['-std=c++14', '-fopenmp', '-w'] + INC
FLAVORS = {
    # the project's own optimisation level, assertions on
    'opt': dict(cxx='g++', cflags=['-O2', '-g1'], ldflags=[]),
    # memory- and UB-checked
    'san': dict(cxx='g++',
                cflags=['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=alignment',
                        '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'],
                ldflags=['-fsanitize=address,undefined']),
}
LIBS = ['-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial',
        '-lhdf5_cpp', '-lhdf5_hl', '-lhdf5', '-lpugixml', '-lblitz', '-lpthread', '-ldl', '-lm']

_hash = {}


def fhash(path):
    if path not in _hash:
        try:
            with open(path, 'rb') as f:
                _hash[path] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _hash[path] = 'missing'
    return _hash[path]


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def gen():
    src = '#define MOCC_FORCE_INLINE @mocc_force_inline@\n'
    p = REPO + '/src/util/force_inline.hpp.in'
    if os.path.exists(p):
        src = open(p).read()
    src = re.sub(r'@[A-Za-z_]*force_inline[A-Za-z_]*@|\$\{[A-Za-z_]*force_inline[A-Za-z_]*\}',
                 '__attribute__((always_inline)) inline', src)
    write_if_changed(GEN + '/util/force_inline.hpp', src)
    write_if_changed(GEN + '/force_inline.hpp', src)
    write_if_changed(GEN + '/git_SHA1.cpp',
                     '#include "git_SHA1.hpp"\nconst char g_GIT_SHA1[] = "verification-build";\n')


def deps_of(dfile):
    try:
        t = open(dfile).read()
    except OSError:
        return None
    t = t.replace('\\\n', ' ')
    t = t.split(':', 1)[1]
    return [w for w in t.split() if w.startswith((REPO, HERE, BUILD, '/opt/vp'))]


def key(cmd, deps):
    h = hashlib.sha1('\0'.join(cmd).encode())
    for d in sorted(set(deps)):
        h.update((d + ':' + fhash(d) + '\n').encode())
    return h.hexdigest()


def compile_one(job):
    src, obj, flavor, extra = job
    fl = FLAVORS[flavor]
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = [fl['cxx']] + fl['cflags'] + BASE + extra + ['-MMD', '-MF', obj + '.d', '-c', src, '-o', obj]
    d = deps_of(obj + '.d')
    if d is not None and os.path.exists(obj):
        try:
            if open(obj + '.key').read() == key(cmd, d):
                return (src, 0, False, '')
        except OSError:
            pass
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        with open(obj + '.key', 'w') as f:
            f.write(key(cmd, deps_of(obj + '.d')))
    else:
        for p in (obj, obj + '.key'):
            if os.path.exists(p):
                os.remove(p)
    return (src, r.returncode, True, r.stdout)


def mocc_sources():
    out = []
    for root, dirs, files in os.walk(REPO + '/src'):
        dirs[:] = sorted(x for x in dirs if x != 'tests')
        for f in sorted(files):
            if f.endswith('.cpp') and not (root == REPO + '/src' and f in ('mocc.cpp', 'git_SHA1.cpp')):
                out.append(os.path.join(root, f))
    out.append(GEN + '/git_SHA1.cpp')
    return out


def meta(id):
    """first lines of the harness: // flavor: opt|san"""
    p = os.path.join(HERE, 'harness', id + '.cpp')
    fl = 'opt'
    with open(p) as f:
        for line in f.read().split('\n')[:12]:
            m = re.match(r'//\s*flavor:\s*(\w+)', line)
            if m:
                fl = m.group(1)
    return fl


def build(ids):
    """returns {id: (binary or None, message)}"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen()
    byfl = {}
    for i in ids:
        byfl.setdefault(meta(i), []).append(i)
    res = {}
    for fl, lst in byfl.items():
        odir = os.path.join(BUILD, fl)
        jobs = []
        for s in mocc_sources():
            rel = os.path.relpath(s, REPO + '/src') if s.startswith(REPO) else os.path.basename(s)
            jobs.append((s, os.path.join(odir, 'obj', rel + '.o'), fl, []))
        nm = len(jobs)
        eng = os.path.join(odir, 'h', 'pbt.o')
        jobs.append((os.path.join(HERE, 'harness', 'pbt.cpp'), eng, fl, []))
        hobj = {}
        for i in lst:
            hobj[i] = os.path.join(odir, 'h', i + '.o')
            jobs.append((os.path.join(HERE, 'harness', i + '.cpp'), hobj[i], fl, ['-I' + HERE + '/harness']))
        # longest first is not known; harness files tend to be slow to compile
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(compile_one, jobs[nm:] + jobs[:nm]))
        rs = rs[len(jobs) - nm:] + rs[:len(jobs) - nm]
        bad = [r for r in rs[:nm + 1] if r[1]]
        if bad:
            for i in lst:
                res[i] = (None, 'compilation failed: ' + bad[0][0] + '\n' + bad[0][3][-3000:])
            continue
        objs = [j[1] for j in jobs[:nm]]
        lib = os.path.join(odir, 'libmocc.a')
        lkey = hashlib.sha1('\n'.join(o + open(o + '.key').read() for o in objs).encode()).hexdigest()
        if not os.path.exists(lib) or not os.path.exists(lib + '.key') or open(lib + '.key').read() != lkey:
            if os.path.exists(lib):
                os.remove(lib)
            subprocess.check_call(['ar', 'rcs', lib] + objs)
            open(lib + '.key', 'w').write(lkey)
        def link(i):
            r = rs[nm + 1 + lst.index(i)]
            if r[1]:
                return i, (None, 'compilation of the harness failed:\n' + r[3][-3000:])
            exe = os.path.join(odir, 'bin', i)
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            f = FLAVORS[fl]
            cmd = [f['cxx']] + f['cflags'] + ['-fopenmp', hobj[i], eng, lib, lib] + f['ldflags'] + LIBS + ['-o', exe]
            ekey = hashlib.sha1((' '.join(cmd) + lkey + open(hobj[i] + '.key').read() + open(eng + '.key').read()).encode()).hexdigest()
            if os.path.exists(exe) and os.path.exists(exe + '.key') and open(exe + '.key').read() == ekey:
                return i, (exe, '')
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return i, (None, 'link failed:\n' + p.stdout[-3000:])
            open(exe + '.key', 'w').write(ekey)
            return i, (exe, '')
        with ThreadPoolExecutor(JOBS) as ex:
            for i, v in ex.map(link, lst):
                res[i] = v
    fcntl.flock(lock, fcntl.LOCK_UN)
    return res


def all_ids():
    return sorted(os.path.basename(p)[:-4] for p in glob.glob(HERE + '/harness/C[0-9]*.cpp'))


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    if '--all' in sys.argv or not ids:
        ids = all_ids()
    r = build(ids)
    rc = 0
    for i in ids:
        if r[i][0] is None:
            rc = 1
            print(i, 'FAILED', r[i][1])
        else:
            print(i, r[i][0])
    sys.exit(rc)
