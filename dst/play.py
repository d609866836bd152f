"""Plays a case: runs its simulated jobs and judges the recorded history.

A case is JSON: {'prop', 'kind', 'p': parameters, ...}.  Every scheduling
decision of job k is in ``logs[k]``; a case and its logs are an exact replay.
"""
import hashlib
import json

from .core import Decider, HarnessError
from .harness import Run
from .oracle import Model, Violation, need

WALL = 25.0


class Hang(Exception):
    """A simulated worker spent too much real time without a yield point."""


class Player(object):
    def __init__(self, case, logs=None, wall=WALL):
        self.case = case
        self.replay = logs
        self.logs = []
        self.runs = []
        self.stats = []
        self.wall = wall
        self.skip = None        # reason this run decided nothing

    def job(self, sc, strat, **kw):
        k = len(self.logs)
        log = None
        if self.replay is not None:
            log = self.replay[k] if k < len(self.replay) else []
        d = Decider(strat, replay=log)
        self.logs.append(d.log)
        try:
            run = Run(sc, d, wall_limit=self.wall, **kw)
            self.runs.append(run)
            run.execute()
            self.stats.append(job_stats(run))
        except HarnessError:
            raise
        except Exception as exc:
            raise HarnessError('%s: %s' % (type(exc).__name__, exc)) from exc
        if run.outcome == 'hang':
            raise Hang(run.world.sched.detail)
        return run

    def close(self):
        for r in self.runs:
            r.cleanup()


def job_stats(run):
    w = run.world
    s = w.sched
    return {
        'n': w.n, 'outcome': run.outcome, 'steps': s.step, 'sim': s.now,
        'switches': s.switches, 'deliveries': s.deliveries,
        'sent': w.net.sent, 'rendezvous': w.net.rendezvous,
        'reordered': w.net.reordered, 'fired': dict(w.fired),
        'probes': dict(w.probes), 'hash': w.trace_hash(),
        'strategy': w.decider.name, 'nodes': len(set(w.hosts)),
        'faults_logged': len(w.fault_log), 'puts': len(w.puts) + len(
            w.array_puts),
    }


def digest(obj):
    return hashlib.blake2b(json.dumps(obj, sort_keys=True).encode(),
                           digest_size=8).hexdigest()


def first_exception(run, allowed=None):
    sc = run.sc
    for r in range(sc['n']):
        for i, rec in enumerate(run.results[r]):
            if rec.get('exc') is None:
                continue
            op = sc['prog'][i]
            if op.get('raises') or op.get('catch'):
                continue
            return r, i, rec['exc']
    return None


def opname(sc, i):
    op = sc['prog'][i]
    return op.get('m', op['op'])


def live(run, exceptions=True):
    """Every worker finished every call; nothing is left behind."""
    sc, w = run.sc, run.world
    if run.import_error:
        r, text = sorted(run.import_error.items())[0]
        raise Violation('import-failed', 'importing the package on worker %d '
                        'of %d raised %s' % (r, sc['n'], text))
    if exceptions:
        e = first_exception(run)
        if e is not None:
            raise Violation('unexpected-exception', 'operation %d (%s) raised '
                            '%s: %s on worker %d' % (
                                e[1], opname(sc, e[1]), e[2][0], e[2][1],
                                e[0]))
    if run.outcome != 'ok':
        cls = {'deadlock': 'deadlock', 'steplimit': 'no-termination',
               'mismatch': 'collective-mismatch'}.get(
                   run.outcome, run.outcome)
        where = []
        for r in range(sc['n']):
            i = len(run.results[r]) - 1
            if i >= 0 and not run.results[r][i].get('done') and not \
                    run.results[r][i].get('skip'):
                where.append('worker %d in operation %d (%s)' % (
                    r, i, opname(sc, i)))
        raise Violation(cls, '%s; %s' % (w.sched.detail, ', '.join(where)))
    for cls, text in w.violations:
        raise Violation(cls, text)
    for text in w.misuses:
        raise Violation('mpi-misuse', text)
    left = w.net.leftovers()
    if left:
        raise Violation('left-behind', '; '.join(left[:4]))


def play_plain(pl, case):
    run = pl.job(case['sc'], case['strat'])
    live(run)
    Model(run).walk()


def play_live(pl, case):
    """Liveness only."""
    run = pl.job(case['sc'], case['strat'])
    live(run)
    w = run.world
    k = w.dropped_requests + w.open_requests
    need(not k, 'left-behind', '%d requests were never completed' % k)
    for r in range(case['sc']['n']):
        for i, rec in enumerate(run.results[r]):
            need(rec.get('done') or rec.get('skip'), 'did-not-return',
                 'operation %d did not return on worker %d' % (i, r))


KINDS = {'plain': play_plain, 'live': play_live}


def kind(f):
    KINDS[f.__name__[5:]] = f
    return f


class Result(object):
    __slots__ = ('violation', 'logs', 'stats', 'hang', 'skip')


def play(case, logs=None, wall=WALL):
    """Runs a case; never raises except for simulator bugs."""
    from . import props  # noqa: F401  (registers the kinds)
    pl = Player(case, logs, wall)
    res = Result()
    res.violation, res.hang = None, False
    try:
        KINDS[case['kind']](pl, case)
    except Violation as v:
        res.violation = (v.cls, v.text)
    except Hang as h:
        res.hang = True
        res.violation = ('hang', 'a call never returns: %s' % h)
    except HarnessError:
        raise
    except Exception as exc:
        import traceback
        tb = traceback.extract_tb(exc.__traceback__)
        where = ' < '.join('%s:%d' % (f.name, f.lineno)
                           for f in reversed(tb[-3:]))
        res.violation = ('malformed-result', 'a result cannot be judged: '
                         '%s: %s (%s)' % (type(exc).__name__, exc, where))
    finally:
        res.logs, res.stats = pl.logs, pl.stats
        res.skip = pl.skip
        pl.close()
    return res
