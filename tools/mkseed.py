#!/usr/bin/env python3
"""mkseed.py SPEC.py: write seeded/<id>/ from a spec.

A spec is a python file defining id, prop, needs, breaks, edits (list of
(file, old, new)), and either cpp (text of a demo program: prints nothing on
success, returns nonzero on failure) or sh (text of demo.sh), and files.
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP_SH = '''#!/bin/bash
# builds demo.cpp against /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf -- "${t:?}"' EXIT
B=/repo/_build/src
g++ -std=c++14 -O1 -w -fopenmp -include /opt/vp/cmake/compat.hpp -I/repo/src -I/repo/src/core -I/repo/src/sweepers -I/repo/src/solvers \\
    -isystem /usr/include/eigen3 -isystem /usr/include/hdf5/serial "$here/demo.cpp" -o "$t/demo" \\
    $B/libdriver.a $B/solvers/libsolvers.a $B/sweepers/libsweepers.a $B/sweepers/cmdo/libcmdo.a $B/sweepers/moc/libmoc.a \\
    $B/sweepers/sn/libsn.a $B/sweepers/mc/libmc.a $B/auxiliary/libauxiliary.a $B/solvers/libsolvers.a $B/sweepers/libsweepers.a \\
    $B/sweepers/cmdo/libcmdo.a $B/sweepers/moc/libmoc.a $B/sweepers/sn/libsn.a $B/core/libcore.a $B/util/libutil.a $B/core/libcore.a $B/util/libutil.a \\
    -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -lpugixml -lblitz -ldl || exit 0
cd "$t" && cp -a "$here"/. "$t"/ && ./demo
'''
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = os.path.join(HERE, 'seeded', ns['id'])
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout.strip()
    try:
        for f, a, b in ns['edits']:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    if 'cpp' in ns:
        open(d + '/demo.cpp', 'w').write(ns['cpp'])
        open(d + '/demo.sh', 'w').write(CPP_SH)
    else:
        open(d + '/demo.sh', 'w').write(ns['sh'])
    for n, t in ns.get('files', {}).items(): open(os.path.join(d, n), 'w').write(t)
    json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', d)
main()
