#!/usr/bin/env python3
"""trybug.py ID [--all-checks]: does planted bug ID count, and is it caught?

Applies seeded/ID/patch.diff to /repo, builds, runs the stable tests, the demo
and the check of its property (or every check), then restores /repo.
"""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def demo(d):
    t = tempfile.mkdtemp(prefix='demo-')
    try:
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(os.path.join(d, f), t)
        return sh(['bash', t + '/demo.sh'], cwd='/repo', timeout=300)
    finally:
        shutil.rmtree(t)
def main():
    bug = sys.argv[1]
    d = os.path.join(HERE, 'seeded', bug)
    meta = json.load(open(d + '/meta.json'))
    prop = meta['property']
    if sh(['git', '-C', '/repo', 'status', '--porcelain', '-uno']).stdout.strip(): sys.exit('/repo is not clean')
    res = {}
    if '--skip-base' not in sys.argv:
        r = sh(['bash', '/opt/vp/build.sh']); assert r.returncode == 0, r.stdout[-2000:]
        r = demo(d); print('demo on unchanged tree:', r.returncode)
        if r.returncode: print(r.stdout[-3000:])
    r = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    if r.returncode: sys.exit('patch: ' + r.stdout)
    try:
        if '--check-only' not in sys.argv:
            r = sh(['bash', HERE + '/tools/stable.sh']); print('with patch:', r.stdout.strip()[-300:])
            r = demo(d); print('demo with patch:', r.returncode, '|', r.stdout.strip()[-300:])
        ids = [prop]
        if '--all-checks' in sys.argv:
            ids = [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
        for i in ids:
            r = sh([sys.executable, HERE + '/check.py', i])
            tail = [l for l in r.stdout.splitlines() if l.strip()]
            print('check', i, 'exit', r.returncode, '|', ' / '.join(tail[-3:])[-400:])
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        if '--check-only' not in sys.argv: sh(['bash', '/opt/vp/build.sh'])
main()
