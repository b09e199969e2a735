#!/usr/bin/env python3
"""check.py <property id> [--replay FILE]

Searches for violations of one property.  Exit 0: held on everything
explored; 1 and a VIOLATION line: broken; 2: the machinery failed.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import collections

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python'
NSHARDS = 8


def findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def report_known(pid, known):
    """One line per listed finding that showed up.  A finding that is not
    listed is a violation."""
    listed = {k['id']: k for k in findings(pid)}
    bad = None
    for k in sorted(known):
        if k in listed:
            print('KNOWN-FINDING: property=%s %s: %s' % (
                pid, k, listed[k]['what']))
        else:
            bad = k
    return bad


def env():
    e = dict(os.environ)
    e.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
             PYTHONPATH=HERE)
    return e


def replay(pid, path):
    sys.path.insert(0, HERE)
    from vlib.props import load
    from vlib.shard import judge
    from vlib.client import WORKER
    with open(path) as f:
        case = json.load(f)['case']
    v = judge(load(pid), case)
    WORKER.stop()
    for m in v.fails:
        print('  ' + m)
    bad = report_known(pid, dict(v.known))
    if v.fails or bad:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('replay of %s: property holds' % path)
    return 0


def main():
    args = sys.argv[1:]
    pid = args[0]
    if '--replay' in args:
        if sys.executable != PY and os.path.realpath(sys.prefix) != \
                os.path.realpath('/opt/veriftools/pyvenv'):
            os.execve(PY, [PY] + sys.argv, env())
        return replay(pid, args[args.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    procs = []
    deadline = 420 if tier == 'quick' else 6 * 3600
    try:
        for s in range(NSHARDS):
            out = os.path.join(tmp, '%d.json' % s)
            err = open(os.path.join(tmp, '%d.err' % s), 'w')
            procs.append((subprocess.Popen(
                [PY, '-m', 'vlib.shard', pid, tier, str(seed), str(s),
                 str(NSHARDS), str(deadline), out], cwd=HERE, env=env(),
                stdout=err, stderr=err, start_new_session=True), out, err))
        results = {}
        failed = None
        while len(results) < NSHARDS and failed is None:
            for i, (p, out, err) in enumerate(procs):
                if i in results or p.poll() is None:
                    continue
                if os.path.exists(out):
                    with open(out) as f:
                        results[i] = json.load(f)
                else:
                    err.flush()
                    with open(err.name) as f:
                        results[i] = {'error': 'shard %d died (%s): %s' % (
                            i, p.returncode, f.read()[-2000:])}
                if results[i].get('fail'):
                    failed = results[i]['fail']
                    break
            time.sleep(0.05)
        for p, _, err in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
            err.close()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    errors = [r['error'] for r in results.values() if 'error' in r]
    good = [r for r in results.values() if 'error' not in r]
    sys.path.insert(0, HERE)
    from vlib.meta import META
    meta = META[pid]
    cls = collections.Counter()
    keys = set()
    known = {}
    samples = []
    for r in good:
        cls.update(r['cls'])
        keys.update(r['keys'])
        for k, d in r['known'].items():
            known.setdefault(k, d)
        samples += r['samples'][:1]
    bad = None
    if failed is None and not errors:
        bad = report_known(pid, known)
        if bad:
            failed = {'case': known[bad], 'fails': ['unlisted finding ' + bad],
                      'where': 'search', 'repeats': True}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': meta['level'],
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in good),
            'distinct_nontrivial': len(keys),
            'rule': meta['rule'],
            'samples': samples[:4],
            'units_judged': sum(r['units'] for r in good),
            'unit': meta['unit'],
            'classes': dict(sorted(cls.items())),
            'cases_skipped_at_time_limit':
                sum(r['skipped_deadline'] for r in good),
            'shards_finished': len(good),
        },
        'assumptions': meta['assumptions'],
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if failed else 0,
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    if failed:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-seed%d.json' % (pid, seed))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'case': failed['case'],
                       'fails': failed['fails'], 'where': failed['where']},
                      f, indent=1)
        for m in failed['fails'][:8]:
            print('  ' + m)
        if not failed.get('repeats', True):
            print('  (the case did not fail again when it was repeated)')
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        print('ERROR of the check, not a verdict:\n' + errors[0])
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %d %s, %.0f s' % (
        pid, ev['coverage']['evaluations'], len(keys),
        ev['coverage']['units_judged'], meta['unit'], ev['wall_s']))
    return 0


if __name__ == '__main__':
    sys.exit(main())
