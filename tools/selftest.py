"""Tests of the machinery itself.

    selftest.py determinism [N]   the same cases in different processes
    selftest.py bugs [id ...]     quick checks against the planted bugs

Neither is a check: MANIFEST.json does not name this file.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SHOW = '''
import sys
sys.path.insert(0, %r)
import gc, json
from dst import props, play
for pid in sys.argv[2].split(','):
    idx = list(range(int(sys.argv[1])))
    if len(sys.argv) > 3:
        idx.reverse()
    out = {}
    for i in idx:
        case = props.make_case(pid, 5, i)
        if case is None:
            continue
        r = play.play(case)
        out[i] = [case, [s['hash'] for s in r.stats],
                  [s['steps'] for s in r.stats],
                  repr(r.violation), r.skip]
    for i in sorted(out):
        print(pid, i, json.dumps(out[i], sort_keys=True))
''' % HERE


def determinism(n):
    ids = ['C%02d' % k for k in range(1, 22)]
    bad = 0
    for pid in ids:
        ps = []
        for seed, cpu, extra in (('0', None, []), ('77', '0', []),
                                 ('random', '1', ['reversed'])):
            cmd = [PY, '-c', SHOW, str(n), pid] + extra
            if cpu:
                cmd = ['taskset', '-c', cpu] + cmd
            ps.append(subprocess.Popen(
                cmd, stdout=subprocess.PIPE, universal_newlines=True,
                env=dict(os.environ, PYTHONHASHSEED=seed,
                         OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')))
        outs = [p.communicate()[0].splitlines() for p in ps]
        same = outs[0] == outs[1] == outs[2] and len(outs[0]) > 0
        print('%s %d cases %s' % (
            pid, len(outs[0]), 'identical' if same else 'DIFFER'), flush=True)
        if not same:
            bad += 1
            for a, b, c in zip(*outs):
                if not a == b == c:
                    print('  ', a[:8], [x[-300:] for x in (a, b, c)])
                    break
    return bad


def bugs(names):
    root = os.path.join(HERE, 'seeded')
    checks = {c['property']: c['quick_cmd'] for c in json.load(open(
        os.path.join(HERE, 'MANIFEST.json')))['checks']}
    missed = 0
    for nm in names or sorted(os.listdir(root)):
        pid = json.load(open(os.path.join(root, nm, 'meta.json')))['property']
        top = tempfile.mkdtemp(prefix='selftest-')
        try:
            tree = os.path.join(top, 'repo')
            shutil.copytree('/repo', tree, symlinks=True)
            subprocess.check_call(
                ['git', '-C', tree, 'apply',
                 os.path.join(root, nm, 'patch.diff')])
            p = subprocess.run(
                checks[pid].split(), cwd=HERE, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, universal_newlines=True,
                env=dict(os.environ, DST_REPO=tree, VERIF_SEED='1',
                         VERIF_TIER='quick'))
        finally:
            shutil.rmtree(top)
        hit = p.returncode == 1 and 'VIOLATION property=' + pid in p.stdout
        missed += not hit
        why = [l for l in p.stdout.splitlines() if l.startswith('case ')]
        print('%-28s %s %s %s' % (nm, pid, 'caught' if hit else
                                  'MISSED (exit %d)' % p.returncode,
                                  ' '.join(why)[:110]), flush=True)
    return missed


if __name__ == '__main__':
    if sys.argv[1] == 'determinism':
        sys.exit(bool(determinism(int((sys.argv + ['12'])[2]))))
    sys.exit(bool(bugs(sys.argv[2:])))
