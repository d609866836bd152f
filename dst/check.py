"""Decides one property: seeded simulated runs, then evidence or a violation.

    python -m dst.check C01 [--tier quick|thorough] [--seed N] [--runs N]
    python -m dst.check --replay FILE
"""
import os
os.environ['OPENBLAS_NUM_THREADS'] = '1'
os.environ['OMP_NUM_THREADS'] = '1'
import argparse
import collections
import gc
import json
import multiprocessing
import pickle
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from . import props                                     # noqa: E402
from .core import HarnessError                          # noqa: E402
from .loader import REPO, code_for, modules             # noqa: E402
from .play import digest, play                          # noqa: E402
from .shrink import Shrinker                            # noqa: E402
from .budget import LEVEL, QUICK, RULE, THOROUGH_X      # noqa: E402

CTX = multiprocessing.get_context('fork')
QUICK_CAP, THOROUGH_CAP = 450.0, 3000.0


class Stats(object):
    def __init__(self):
        self.runs = self.jobs = self.steps = 0
        self.sim = 0.0
        self.c = {k: collections.Counter() for k in (
            'fired', 'probes', 'n', 'strategy', 'outcomes', 'nodes', 'kinds',
            'skips')}
        self.switches = self.deliveries = self.sent = 0
        self.rendezvous = self.reordered = 0
        self.traces = set()
        self.distinct = set()
        self.samples = []

    def add(self, case, res):
        self.runs += 1
        self.c['kinds'][case['kind']] += 1
        nontrivial = False
        hashes = []
        for s in res.stats:
            self.jobs += 1
            self.steps += s['steps']
            self.sim += s['sim']
            self.c['n'][s['n']] += 1
            self.c['nodes'][s['nodes']] += 1
            self.c['strategy'][s['strategy']] += 1
            self.c['outcomes'][s['outcome']] += 1
            self.c['fired'].update(s['fired'])
            self.c['probes'].update(s['probes'])
            for k in ('switches', 'deliveries', 'sent', 'rendezvous',
                      'reordered'):
                setattr(self, k, getattr(self, k) + s[k])
            if s['switches'] > 0 or s['fired']:
                self.traces.add(s['hash'])
            if (s['n'] > 1 and s['switches'] > s['n']) or s['fired'] or \
                    s['outcome'] == 'crash':
                nontrivial = True
            hashes.append(s['hash'])
        if case.get('serial_ok'):
            nontrivial = True
        if res.skip:
            self.c['skips'][res.skip] += 1
            nontrivial = False
        if nontrivial:
            self.distinct.add(digest([
                {k: v for k, v in case.items() if k not in (
                    'index', 'seed')}, hashes]))
        if len(self.samples) < 2 and nontrivial:
            txt = json.dumps(case, sort_keys=True)
            if len(txt) < 6000:
                self.samples.append({'case': case, 'jobs': res.stats})

    def merge(self, o):
        for k in ('runs', 'jobs', 'steps', 'sim', 'switches', 'deliveries',
                  'sent', 'rendezvous', 'reordered'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in self.c:
            self.c[k].update(o.c[k])
        self.traces |= o.traces
        self.distinct |= o.distinct
        self.samples.extend(o.samples)


def worker(pid, seed, total, wid, nw, stop, deadline, conn):
    """Runs cases wid, wid+nw, ...; sends (Stats, found, error)."""
    stats, found, error = Stats(), None, None
    known = []
    try:
        try:
            os.sched_setaffinity(0, {sorted(os.sched_getaffinity(0))[
                wid % len(os.sched_getaffinity(0))]})
        except OSError:
            pass
        gc.disable()
        fixed = props.FIXED.get(pid, [])
        i = wid
        while i < total + len(fixed) and i < stop.value and \
                time.monotonic() < deadline:
            if i < len(fixed):
                case = dict(fixed[i](), prop=pid, index=i, seed=seed)
            else:
                case = props.make_case(pid, seed, i - len(fixed))
            if case is None:
                stats.c['skips']['no admissible case for this index'] += 1
                i += nw
                continue
            res = play(case)
            stats.add(case, res)
            if res.violation:
                key = case.get('known')
                if key and known_key(pid, key, res.violation):
                    known.append((key, res.violation))
                else:
                    found = (i, case, res.logs, res.violation, res.hang)
                    with stop.get_lock():
                        stop.value = min(stop.value, i)
                    break
            if (i // nw) % 40 == 0:
                gc.collect()
            i += nw
    except BaseException:
        error = traceback.format_exc()
    try:
        conn.send_bytes(pickle.dumps((stats, found, error, known)))
        conn.close()
    finally:
        sys.stderr.flush()
        os._exit(0)


_KNOWN = None


def known_findings():
    """property -> {key: description} of recorded, unrepaired defects."""
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = {}
        path = os.path.join(HERE, 'known_findings.txt')
        if os.path.exists(path):
            with open(path) as fh:
                for line in fh:
                    line = line.strip()
                    if not line.startswith('known: '):
                        continue
                    p, key, text = line[7:].split(' ', 2)
                    _KNOWN.setdefault(p.split('=')[1], {})[
                        key.split('=', 1)[1]] = text
    return _KNOWN


def known_key(pid, key, violation):
    """A finding is identified by its fixed scenario and violation class."""
    return '%s/%s' % (key, violation[0]) in known_findings().get(pid, {})


def in_child(f, timeout):
    """Result of f() computed in a forked child, or None."""
    a, b = CTX.Pipe(False)

    def main():
        try:
            b.send_bytes(pickle.dumps(f()))
        except BaseException:
            b.send_bytes(pickle.dumps(('error', traceback.format_exc())))
        finally:
            os._exit(0)
    p = CTX.Process(target=main)
    p.start()
    b.close()
    out = None
    try:
        if a.poll(timeout):
            out = pickle.loads(a.recv_bytes())
    except EOFError:
        pass
    p.kill()
    p.join()
    return out


def confirm(case, logs, wall):
    def f():
        r = play(case, logs, wall)
        return ('ok', r.violation, r.logs, [s['hash'] for s in r.stats],
                r.hang)
    return in_child(f, wall * 4 + 30)


def check(pid, tier, seed, runs, nw, quiet=False):
    t0 = time.monotonic()
    total = runs or (QUICK[pid] * (1 if tier == 'quick' else THOROUGH_X))
    cap = QUICK_CAP if tier == 'quick' else THOROUGH_CAP
    print('property %s tier %s seed %d: %d simulated cases on %d processes' % (
        pid, tier, seed, total, nw))
    sys.stdout.flush()
    for name, path in modules().items():
        try:
            code_for(name, path)        # compiled once, before forking
        except Exception:
            pass                        # reported by the run that loads it
    stop = CTX.Value('q', 1 << 60)
    procs = []
    for w in range(nw):
        a, b = CTX.Pipe(False)
        p = CTX.Process(target=worker, args=(
            pid, seed, total, w, nw, stop, t0 + cap, b))
        p.start()
        b.close()
        procs.append((p, a))
    stats, founds, errors, knowns = Stats(), [], [], []
    for p, a in procs:
        try:
            s, found, error, known = pickle.loads(a.recv_bytes())
            stats.merge(s)
            knowns.extend(known)
            if found:
                founds.append(found)
            if error:
                errors.append(error)
        except EOFError:
            errors.append('a worker process of the check died')
        p.join()
    violation = None
    if founds:
        founds.sort(key=lambda f: f[0])
        i, case, logs, v, hang = founds[0]
        violation = report(pid, tier, seed, case, logs, v, hang, errors)
    write_evidence(pid, tier, seed, stats, total, violation, knowns,
                   time.monotonic() - t0, nw)
    for key, v in sorted(set((k, v[0]) for k, v in knowns)):
        print('KNOWN-FINDING: property=%s %s' % (
            pid, known_findings()[pid]['%s/%s' % (key, v)]))
    if violation:
        return 1
    if errors:
        sys.stdout.flush()
        sys.stderr.write(errors[0])
        print('ERROR: the simulator failed; nothing was decided')
        return 2
    el = time.monotonic() - t0
    print('property %s held in %d cases (%d jobs, %d distinct non-trivial) '
          'in %.1f s' % (pid, stats.runs, stats.jobs, len(stats.distinct), el))
    if stats.runs < total // 4:
        print('ERROR: only %d of %d cases could be run in time' % (
            stats.runs, total))
        return 2
    return 0


def report(pid, tier, seed, case, logs, v, hang, errors):
    """Confirms, minimises and writes the replay file of a violation."""
    wall = 60.0 if hang else 25.0
    out = None
    for _ in range(2):
        for lg in (logs, None):
            out = confirm(case, lg, wall)
            if out and out[0] == 'ok' and out[1]:
                break
            if out is None and hang:
                out = ('ok', v, logs, [], True)
                break
            out = None
        if out:
            break
    if not out:
        errors.append('violation of case %s did not reproduce: %s: %s\n' % (
            case['index'], v[0], v[1]))
        return None
    logs, v = out[2], out[1]
    small = None
    if not hang:
        def f():
            s = Shrinker(case, logs, v).run()
            return ('ok', s.case, s.logs, s.tries)
        small = in_child(f, 60)
    if small and small[0] == 'ok':
        again = confirm(small[1], small[2], wall)
        if again and again[0] == 'ok' and again[1] and \
                again[1][0] == v[0]:
            case, logs, v, out = small[1], small[2], again[1], again
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d-%d.json' % (pid, seed, case['index']))
    with open(path, 'w') as fh:
        json.dump({'property': pid, 'case': case, 'logs': logs,
                   'violation': list(v), 'hashes': out[3],
                   'minimisation_runs': small[3] if small and
                   small[0] == 'ok' else 0}, fh, indent=1)
    print('case %d: %s: %s' % (case['index'], v[0], v[1]))
    print('replay with: /opt/venv/bin/python -m dst.check --replay %s' % path)
    print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.stdout.flush()
    return {'class': v[0], 'text': v[1], 'replay': path}


def replay(path):
    with open(path) as fh:
        rep = json.load(fh)
    out = confirm(rep['case'], rep['logs'], 60.0)
    if out is None or out[0] != 'ok':
        if rep['violation'][0] == 'hang':
            print('hang reproduced')
            print('VIOLATION property=%s replay=%s' % (rep['property'], path))
            return 1
        print('ERROR: the replay did not finish: %s' % (out,))
        return 2
    v = out[1]
    if not v:
        print('the recorded violation (%s) does not occur on this tree' % (
            rep['violation'][0]))
        return 0
    print('%s: %s' % tuple(v))
    same = list(v) == rep['violation'] and out[3] == rep['hashes']
    print('identical to the recording' if same else
          'DIFFERS from the recording: %s: %s' % tuple(rep['violation']))
    print('VIOLATION property=%s replay=%s' % (rep['property'], path))
    return 1


REAL = ['modred package, loaded from the working tree of /repo, one private '
        'copy per simulated worker', 'numpy, scipy and LAPACK',
        'file system holding the bytes of text and pickle files']
STUB = ['MPI library (simulated point-to-point and collectives with the '
        'mpi4py interface)', 'clocks', 'host names', 'process scheduling',
        'user vector objects, storage and callbacks',
        'file system calls (fault and yield points in front of real files)']


def write_evidence(pid, tier, seed, st, total, violation, knowns, wall, nw):
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': LEVEL[pid],
        'coverage': {
            'evaluations': st.runs,
            'distinct_nontrivial': len(st.distinct),
            'rule': RULE[pid],
            'samples': st.samples[:3],
            'cases_planned': total,
            'simulated_jobs': st.jobs,
            'cases_per_hour': round(st.runs / max(wall, 1e-9) * 3600),
            'simulated_seconds': round(st.sim, 3),
            'scheduler_steps': st.steps,
            'context_switches': st.switches,
            'messages_sent': st.sent,
            'messages_delivered': st.deliveries,
            'rendezvous_sends': st.rendezvous,
            'cross_channel_reorderings': st.reordered,
            'distinct_interleavings': len(st.traces),
            'interleaving_measure': 'distinct hashes of the whole sequence '
            'of scheduling and delivery choices of a job',
            'faults_fired': dict(sorted(st.c['fired'].items())),
            'probes': dict(sorted(st.c['probes'].items())),
            'jobs_by_workers': {str(k): v for k, v in sorted(
                st.c['n'].items())},
            'jobs_by_nodes': {str(k): v for k, v in sorted(
                st.c['nodes'].items())},
            'jobs_by_strategy': dict(sorted(st.c['strategy'].items())),
            'job_outcomes': dict(sorted(st.c['outcomes'].items())),
            'case_kinds': dict(sorted(st.c['kinds'].items())),
            'cases_that_decided_nothing': dict(st.c['skips']),
            'known_findings_seen': sorted(set(k for k, v in knowns)),
            'real_components': REAL, 'stub_components': STUB,
            'processes': nw,
        },
        'assumptions': [
            'MPI implementations keep the order of messages between two '
            'workers and lose none, as the MPI standard guarantees',
            'user callbacks are deterministic and follow the documented '
            'interface'],
        'wall_s': round(wall, 2),
        'violations': 1 if violation else 0,
    }
    if violation:
        ev['coverage']['violation'] = violation
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(d, pid + '.json'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--procs', type=int,
                    default=max(1, min(8, len(os.sched_getaffinity(0)))))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    return check(a.prop, a.tier, a.seed, a.runs, a.procs)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
