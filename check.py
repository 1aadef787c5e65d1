#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--cases N]

Builds mocc from /repo's working tree together with the property's generators
and oracle, runs the search, writes evidence/<ID>.json and reports the verdict.
"""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

HERE = B.HERE


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    extra = []
    replay = None
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]
        elif a[i] == '--seed':
            seed = a[i + 1]
        elif a[i] == '--cases':
            extra += ['--cases', a[i + 1]]
        elif a[i] == '--replay':
            replay = os.path.abspath(a[i + 1])
        elif a[i] == '--no-shrink':
            extra += ['--no-shrink']
            i -= 1
        i += 2
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if not re.match(r'^\d+$', seed):
        seed = str(int.from_bytes(seed.encode()[:7], 'big'))
    t0 = time.time()
    exe, msg = B.build([pid])[pid]
    if exe is None:
        print('ERROR: ' + msg)
        return 2
    tb = time.time() - t0
    known = []
    kf = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r'^known:\s+property=(\S+)\s+tag=(\S+)\s+(.*)$', line)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3).strip()))
    rdir = os.path.join(HERE, 'replay')
    os.makedirs(rdir, exist_ok=True)
    stats = os.path.join(B.BUILD, 'stats-%s.json' % pid)
    if os.path.exists(stats):
        os.remove(stats)
    env = dict(os.environ)
    env.setdefault('ASAN_OPTIONS', 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1')
    env.setdefault('UBSAN_OPTIONS', 'print_stacktrace=1')
    for k in ('OMP_SCHEDULE', 'OMP_PROC_BIND', 'OMP_DYNAMIC', 'OMP_THREAD_LIMIT'):
        env.pop(k, None)
    env['OMP_NUM_THREADS'] = '1'  # read when the binary is loaded; a property about threads asks for its own
    env['OMP_WAIT_POLICY'] = 'passive'
    env['MALLOC_PERTURB_'] = '170'
    if replay: # one case again, without evidence
        return subprocess.call([exe, '--replay', replay], env=env)
    cmd = [exe, '--tier', tier, '--seed', seed, '--out', stats, '--replay-dir', rdir] + extra
    if known:
        cmd += ['--known', ','.join(k[0] for k in known)]
    r = subprocess.run(cmd, env=env)
    if not os.path.exists(stats):
        print('ERROR: search ended without statistics, status %d' % r.returncode)
        return 2
    s = json.load(open(stats))
    ev = {
        'property': pid, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
        'coverage': {
            'evaluations': s['evaluations'], 'distinct_nontrivial': s['distinct_nontrivial'],
            'rule': s['rule'], 'samples': s['samples'], 'nontrivial': s['nontrivial'],
            'requested': s['requested'], 'discarded': s['discards'], 'discard_reasons': s['discard_reasons'],
            'labels': s['labels'], 'oracle': s['oracle'],
            'max_error_over_tolerance': s['max_error_over_tolerance'],
            'shrink_evaluations': s['shrink_evaluations'], 'search_s': s['search_s'], 'build_s': round(tb, 2),
        },
        'wall_s': round(time.time() - t0, 3),
        'assumptions': s['assumptions'],
        'violations': [],
    }
    if r.returncode == 1:
        ev['violations'].append({'tag': s['tag'], 'message': s['message'][:2000], 'replay': s['replay']})
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for tag, text in known:
        if s['known'].get(tag):
            print('KNOWN-FINDING: property=%s %s (%d cases)' % (pid, text, s['known'][tag]))
    print('%s %s seed=%s: %d cases (%d discarded), %d distinct non-trivial, max err/tol %.3g, build %.1f s, search %.1f s'
          % (pid, tier, seed, s['evaluations'], s['discards'], s['distinct_nontrivial'],
             s['max_error_over_tolerance'], tb, s['search_s']))
    if r.returncode == 1:
        print('tag=%s: %s' % (s['tag'], s['message'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, s['replay']))
        return 1
    return 0 if r.returncode == 0 else 2


if __name__ == '__main__':
    sys.exit(main())
