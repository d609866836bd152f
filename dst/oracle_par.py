"""Models of the parallel helpers and communicator reductions."""
import functools

import numpy as np

from .harness import USER_OPS, rank_value
from .oracle import Model, Violation, agree, brief, need


def each(self, i, exp, what):
    """``exp(rank)`` is the expected value on each worker."""
    for r, v in self.values(i):
        e = exp(r)
        need(eqv(v, e), 'wrong-result', '%s is %r on worker %d, expected %r' % (
            what, v, r, e))


def eqv(v, e):
    if isinstance(e, (np.ndarray, float)) and not isinstance(e, bool):
        return agree(np.asarray(v), np.asarray(e), 1e-12)
    if isinstance(e, tuple) and isinstance(v, (tuple, list)):
        return len(v) == len(e) and all(eqv(x, y) for x, y in zip(v, e))
    if isinstance(e, list):
        return isinstance(v, list) and len(v) == len(e) and all(
            eqv(x, y) for x, y in zip(v, e))
    if e is None:
        return v is None
    if isinstance(e, (bool, np.bool_)):
        return bool(v) == bool(e) and not isinstance(v, (list, tuple))
    return v == e


def model(f):
    setattr(Model, f.__name__, f)
    return f


@model
def f_parallel_get_rank(self, i, op):
    each(self, i, lambda r: r, 'rank')


def _n(self, i, op):
    each(self, i, lambda r: self.n, 'number of workers')


Model.f_parallel_get_num_procs = Model.f_parallel_get_num_MPI_workers = _n


@model
def f_parallel_get_num_nodes(self, i, op):
    k = len(set(self.run.world.hosts))
    each(self, i, lambda r: k, 'number of nodes')


@model
def f_parallel_is_distributed(self, i, op):
    each(self, i, lambda r: self.n > 1, 'is_distributed')


@model
def f_parallel_is_rank_zero(self, i, op):
    each(self, i, lambda r: r == 0, 'is_rank_zero')


@model
def f_parallel_get_hostname(self, i, op):
    each(self, i, lambda r: self.run.world.hosts[r], 'host name')


@model
def f_parallel_get_node_ID(self, i, op):
    vals = dict(self.values(i))
    h = self.run.world.hosts
    for r in vals:
        for s in vals:
            need((vals[r] == vals[s]) == (h[r] == h[s]), 'wrong-result',
                 'node IDs of workers %d (%s) and %d (%s) are %r and %r' % (
                     r, h[r], s, h[s], vals[r], vals[s]))


@model
def f_parallel_barrier(self, i, op):
    self.values(i)
    recs = dict(self.recs(i))
    if self.n > 1 and len(recs) == self.n and not self.faults:
        t0 = max(rec['t0'] for rec in recs.values())
        for r, rec in recs.items():
            need(rec['t1'] >= t0, 'barrier-not-synchronising',
                 'worker %d left a barrier before worker %d reached it' % (
                     r, max(recs, key=lambda q: recs[q]['t0'])))


def fn_value(spec, rank, args, kw):
    return (spec['name'], spec.get('val'), rank, args, sorted(kw.items()))


def _call(self, i, op, others):
    spec = op['a'][0]['fn']
    args = tuple(op['a'][1:])
    kw = op.get('k') or {}
    v0 = fn_value(spec, 0, args, kw)
    norm = lambda v: None if v is None else (v[0], v[1], v[2], tuple(v[3]),
                                             [tuple(x) for x in v[4]])
    for r, v in self.values(i):
        e = v0 if (r == 0 or others) else None
        need((v is None) == (e is None) and (
            e is None or norm(v) == norm(e)), 'wrong-result',
            '%s gave %r on worker %d, expected %r' % (op['m'], v, r, e))
    calls = [r for s, r, nm in self.run.world.fn_calls if nm == spec['name']]
    zero = dict(self.recs(i)).get(0)
    if self.faults and (zero is None or zero['exc'] is not None):
        return
    need(calls == [0], 'call-count',
         '%s called the function on workers %s, expected once on worker 0' % (
             op['m'], calls))


@model
def f_parallel_call_and_bcast(self, i, op):
    _call(self, i, op, True)


@model
def f_parallel_call_from_rank_zero(self, i, op):
    _call(self, i, op, False)


@model
def f_parallel_bcast(self, i, op):
    spec = op['a'][0]['rankval']
    each(self, i, lambda r: rank_value(spec, 0), 'broadcast value')


@model
def f_parallel_print_from_rank_zero(self, i, op):
    self.values(i)
    msg = op['a'][0]
    who = [o[1] for o in self.run.world.outputs if msg in o[3]]
    need(who == [0], 'print-count', 'message was printed by workers %s' % who)


@model
def f_parallel_check_for_empty_tasks(self, i, op):
    e = any(len(t) == 0 for t in op['a'][0])
    each(self, i, lambda r: e, 'check_for_empty_tasks')


@model
def f_parallel_find_assignments(self, i, op):
    tasks = op['a'][0]
    w = (op.get('k') or {}).get('task_weights')
    if w is None and len(op['a']) > 1:
        w = op['a'][1]
    val = self.agreed(i)
    need(isinstance(val, (list, tuple)) and len(val) == self.n,
         'wrong-result', 'find_assignments returned %r for %d workers' % (
             val, self.n))
    flat = [t for part in val for t in part]
    need(flat == list(tasks), 'bad-partition',
         'find_assignments(%r, %r) with %d workers returned %r' % (
             tasks, w, self.n, val))
    if w is None or len(set(w)) == 1:
        sizes = [len(p) for p in val]
        need(not sizes or max(sizes) - min(sizes) <= 1, 'unbalanced',
             'find_assignments(%d tasks) with %d workers gave sizes %s' % (
                 len(tasks), self.n, sizes))


# -- reductions ---------------------------------------------------------------
def _loc(op, a, b):
    if op == 'MINLOC':
        k = min(a[0], b[0])
        return (k, min(x[1] for x in (a, b) if x[0] == k))
    k = max(a[0], b[0])
    return (k, min(x[1] for x in (a, b) if x[0] == k))


OPS = {
    'SUM': lambda a, b: a + b, 'PROD': lambda a, b: a * b,
    'MAX': lambda a, b: b if b > a else a, 'MIN': lambda a, b: b if b < a else a,
    'LAND': lambda a, b: bool(a) and bool(b),
    'LOR': lambda a, b: bool(a) or bool(b),
    'LXOR': lambda a, b: bool(a) ^ bool(b),
    'BAND': lambda a, b: a & b, 'BOR': lambda a, b: a | b,
    'BXOR': lambda a, b: a ^ b,
    'MINLOC': functools.partial(_loc, 'MINLOC'),
    'MAXLOC': functools.partial(_loc, 'MAXLOC'),
}
EXACT_FLOAT = 1e-12


@model
def op_comm(self, i, op):
    if op.get('raises'):
        return self.must_raise(i, op)
    a = op.get('a', [])
    spec = a[0]['rankval']
    k = op.get('k') or {}
    f = k.get('op', {'op': 'SUM'})
    f = OPS[f['op']] if 'op' in f else USER_OPS[f['user_op']]
    loc = 'op' in k.get('op', {}) and k['op']['op'] in ('MINLOC', 'MAXLOC')
    vals = [rank_value(spec, r) for r in range(self.n)]
    if loc:
        vals = [(v, r) for r, v in enumerate(vals)]
    pref = [vals[0]]
    for v in vals[1:]:
        pref.append(f(pref[-1], v))
    m, root = op['m'], k.get('root', 0)

    def exp(r):
        if m == 'reduce':
            return pref[-1] if r == root else None
        if m == 'allreduce':
            return pref[-1]
        if m == 'scan':
            return pref[r]
        if m == 'exscan':
            return pref[r - 1] if r else None
        raise Violation('malformed', m)
    for r, v in self.values(i):
        e = exp(r)
        ok = eqv(v, e) if not isinstance(e, (list, str)) else v == e
        need(ok, 'wrong-result', '%s(%s) on %d workers gave %r on worker %d, '
             'expected %r' % (m, k.get('op', 'SUM'), self.n, v, r, e))
