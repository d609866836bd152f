"""Serial parts of the package under histories and faults: ERA objects (C05,
C14), files of signals (C15) and the sanity check of user objects (C26)."""
import os

import numpy as np

from . import gen
from .disk import _real_open
from .harness import UVec, py_op, raw
from .oracle import brief, need
from .play import kind, live
from .props import prop

# ---------------------------------------------------------------------------
# ERA objects: a history of models and saves

ERA_HELD = ['A', 'B', 'C', 'sing_vals', 'L_sing_vecs', 'R_sing_vecs',
            'Hankel_array', 'Hankel_array2']
ERA_PUTS = {
    'put_model': ['A', 'B', 'C'],
    'put_decomp': ['sing_vals', 'L_sing_vecs', 'R_sing_vecs', 'Hankel_array',
                   'Hankel_array2'],
    'put_sing_vals': ['sing_vals']}


def era_markovs(m):
    """Impulse response of a random stable system."""
    g = np.random.RandomState(m['seed'])
    k, p, q = m['order'], m['inputs'], m['outputs']
    A = g.randn(k, k)
    A *= 0.9 / max(np.abs(np.linalg.eigvals(A)))
    B, C = g.randn(k, p), g.randn(q, k)
    out, X = [], B
    for _ in range(m['steps']):
        out.append(C.dot(X))
        X = A.dot(X)
    out = np.array(out)
    if p == 1 and m.get('flat'):
        out = out[:, :, 0]
        if q == 1 and m['flat'] > 1:
            out = out[:, 0]
    return out


def era_call(era, m):
    M = era_markovs(m)
    k = {nm: m[nm] for nm in ('mc', 'mo') if m.get(nm) is not None}
    keep = M.copy()
    out = era.compute_model(M, m['states'], **k)
    return (np.array_equal(M, keep), [np.array(x) for x in out],
            {nm: np.array(getattr(era, nm)) for nm in ERA_HELD})


class EraStore(object):
    """The user's storage function: records, and fails when it is told to."""
    def __init__(self, fail):
        self.log, self.fail, self.count = [], fail, 0

    def __call__(self, array, dest):
        self.count += 1
        if self.count - 1 in self.fail:
            raise IOError('simulated: no space left')
        self.log.append((dest, np.array(array)))


def era_obj(ctx, op):
    objs = ctx.__dict__.setdefault('era', {})
    if op['e'] not in objs:
        sc = ctx.run.sc
        st = EraStore(sc.get('era_fail', []))
        k = {'verbosity': op.get('verb', 0)}
        if not sc.get('disk'):
            k['put_array'] = st
        objs[op['e']] = ctx.modred.ERA(**k), st
    return objs[op['e']]


@py_op
def era_model(ctx, op):
    return era_call(era_obj(ctx, op)[0], op['m'])


@py_op
def era_fresh(ctx, op):
    return era_call(ctx.modred.ERA(verbosity=0), op['m'])


@py_op
def era_func(ctx, op):
    M = era_markovs(op['m'])
    return [np.array(x) for x in ctx.modred.compute_ERA_model(
        M, op['m']['states'])]


def era_path(ctx, name):
    return os.path.join(ctx.world.scratch or '/nowhere',
                        'r%d.%s' % (ctx.rank, name))


@py_op
def era_put(ctx, op):
    era, st = era_obj(ctx, op)
    held = {nm: np.array(getattr(era, nm)) for nm in ERA_PUTS[op['m']]}
    disk = ctx.run.sc.get('disk')
    dests = [era_path(ctx, d) if disk else d for d in op['d']]
    n0 = len(st.log)
    rec = ctx.era_put = {'held': held}
    exc = None
    try:
        getattr(era, op['m'])(*dests)
    except (IOError, OSError) as err:
        exc = err
    rec['log'] = st.log[n0:]
    rec['failed'] = exc is not None
    rec['injected'] = isinstance(exc, (IOError, OSError)) and (
        'simulated' in str(exc) or bool(disk))
    return rec


def era_read(path):
    if not os.path.exists(path):
        return None
    with _real_open(path, 'r') as fh:
        try:
            return np.array([[float(x) for x in ln.split()] for ln in fh
                             if ln.strip()])
        except ValueError:
            return None


def same_model(a, b):
    if isinstance(a, dict):
        return all(same_model(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same_model, a, b))
    return np.array_equal(a, b, equal_nan=True)


@kind
def play_era(pl, case):
    sc = case['sc']
    run = pl.job(sc, case['strat'])
    live(run, exceptions=False)
    faulted = {(r, i) for r, i, op, k in run.world.fault_log}
    for r in range(sc['n']):
        recs = run.results[r]
        for i, op in enumerate(sc['prog']):
            rec = recs[i]
            f = op['f']
            if f in ('era_model', 'era_func') and case['want'] == 'fresh':
                ref = [recs[j] for j, o in enumerate(sc['prog'])
                       if o['f'] == 'era_fresh' and o['m'] == op['m']]
                if not ref:
                    continue
                ref = ref[0]
                need((rec['exc'] is None) == (ref['exc'] is None),
                     'history-changed-outcome', 'operation %d (%s) %s, but '
                     'on a fresh object it %s' % (i, f, *[
                         'raised %s: %s' % tuple(x['exc'][:2]) if x['exc']
                         else 'returned' for x in (rec, ref)]))
                if rec['exc'] is not None:
                    continue
                a, b = rec['val'], ref['val']
                if f == 'era_func':
                    b = b[1]
                else:
                    need(a[0], 'argument-mutated', 'operation %d changed the '
                         'Markov parameters it was given' % i)
                    a, b = a[1:], b[1:]
                    need(same_model(a[0], [a[1][k] for k in 'ABC']),
                         'wrong-result', 'operation %d returned other arrays '
                         'than the object holds' % i)
                need(same_model(a, b), 'history-changed-result',
                     'operation %d (%s of %s) differs from the same call on '
                     'a fresh object' % (i, f, op['m']))
            if f == 'era_put' and case['want'] == 'store':
                need(rec['exc'] is None, 'unexpected-exception', 'operation '
                     '%d (%s) raised %s' % (i, op['m'], rec['exc']))
                v = rec['val']
                names = ERA_PUTS[op['m']]
                if any(x.dtype == object or not x.size
                       for x in v['held'].values()):
                    continue        # the model before it was refused
                if v['failed']:
                    need(v['injected'] and (not sc.get('disk') or
                                            (r, i) in faulted),
                         'unexpected-exception', 'operation %d (%s) raised '
                         'without any failure' % (i, op['m']))
                    continue
                if sc.get('disk'):
                    need(not any(k == 'error' and (r, i) == (a, b)
                                 for a, b, _, k in run.world.fault_log),
                         'failure-not-raised', 'operation %d (%s) returned '
                         'normally after an I/O error' % (i, op['m']))
                    for nm, d in zip(names, op['d']):
                        got = era_read(os.path.join(
                            run.scratch, 'r%d.%s' % (r, d)))
                        exp = v['held'][nm]
                        exp = exp[:, None] if exp.ndim == 1 else exp
                        need(got is not None and got.shape == exp.shape and
                             np.array_equal(got, exp), 'wrong-array',
                             '%s of operation %d, stored under %s, is %s; the '
                             'object holds %s' % (
                                 nm, i, d, None if got is None else
                                 brief(got), brief(exp)))
                    continue
                got = sorted(d for d, a in v['log'])
                need(got == sorted(op['d']), 'put-count', 'operation %d (%s) '
                     'stored %s, expected each of %s once' % (
                         i, op['m'], got, sorted(op['d'])))
                where = dict(zip(op['d'], names))
                for d, a in v['log']:
                    need(np.array_equal(a, v['held'][where[d]]),
                         'wrong-array', '%s of operation %d, stored under %s, '
                         'is %s; the object holds %s' % (
                             where[d], i, d, brief(a),
                             brief(v['held'][where[d]])))


def era_spec(rng):
    p, q = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
    m = {'seed': rng.randrange(1 << 30), 'order': rng.randrange(1, 5),
         'inputs': p, 'outputs': q, 'steps': rng.randrange(4, 17),
         'states': rng.randrange(1, 5)}
    if p == 1 and rng.random() < 0.4:
        m['flat'] = rng.choice([1, 2])
    if rng.random() < 0.4:
        m['mc'], m['mo'] = rng.randrange(1, 6), rng.randrange(1, 6)
    return m


def era_case(rng, want):
    n = rng.choice([1, 1, 1, 2])
    sc = gen.job(rng, n=n)
    sc.pop('hetero', None)
    prog = sc['prog']
    if want == 'store' and rng.random() < 0.5:
        sc['disk'] = True
        sc['cfg']['io_buffer'] = rng.choice([8192, 16, 64])
        if rng.random() < 0.6:
            sc['faults'] = [
                {'rank': rng.randrange(n), 'op': rng.choice(
                    ['io_open_w', 'io_write', 'io_close']),
                 'nth': rng.randrange(0, 6), 'kind': 'error',
                 'errno': rng.choice(['EIO', 'ENOSPC', 'EACCES'])}
                for _ in range(rng.choice([1, 2]))]
    elif rng.random() < 0.5:
        sc['era_fail'] = [rng.randrange(0, 8)]
    held, files = set(), 0
    specs = []
    for _ in range(rng.randrange(2, 7)):
        e = rng.randrange(2) if rng.random() < 0.3 else 0
        verb = rng.choice([0, 0, 1])
        if e in held and rng.random() < 0.5:
            m = rng.choice(sorted(ERA_PUTS))
            d = []
            for _ in ERA_PUTS[m]:
                d.append('a%d' % files)
                files += 1
            prog.append({'op': 'py', 'f': 'era_put', 'e': e, 'm': m, 'd': d,
                         'verb': verb, 'catch': True})
            continue
        spec = rng.choice(specs) if specs and rng.random() < 0.4 else \
            era_spec(rng)
        specs.append(spec)
        if spec.get('mc') and spec['mc'] + spec['mo'] + 2 > spec['steps'] \
                and e not in held:
            continue
        if spec['steps'] < 6 and not spec.get('mc') and e not in held:
            continue
        prog.append({'op': 'py', 'f': 'era_model', 'e': e, 'm': spec,
                     'verb': verb, 'catch': True})
        prog.append({'op': 'py', 'f': 'era_fresh', 'm': spec, 'catch': True})
        if not spec.get('mc') and rng.random() < 0.3 and want == 'fresh':
            prog.append({'op': 'py', 'f': 'era_func', 'm': spec,
                         'catch': True})
        held.add(e)
    if not held:
        return None
    if want == 'store' and not any(op['f'] == 'era_put' for op in prog):
        return None
    return {'kind': 'era', 'sc': sc, 'want': want,
            'strat': gen.strategy(rng, n), 'serial_ok': True,
            'shrink_n': False}


# ---------------------------------------------------------------------------
# C15: files of signals


def sig_array(s):
    """Columns [t signal1 signal2 ...]."""
    g = np.random.RandomState(s['seed'])
    a = g.randn(s['T'], 1 + s['k'])
    a[:, 0] = s['t0'] + s['dt'] * np.arange(s['T'])
    if s.get('wide'):
        a[:, 1:] *= 10. ** g.randint(-150, 150, size=(s['T'], s['k']))
    return a


@py_op
def sig_save(ctx, op):
    k = {} if op.get('delim') is None else {'delimiter': op['delim']}
    ctx.modred.util.save_array_text(
        sig_array(op['s']), era_path(ctx, op['file']), **k)


@py_op
def sig_load(ctx, op):
    k = {} if op.get('delim') is None else {'delimiter': op['delim']}
    paths = [era_path(ctx, f) for f in op['files']]
    u = ctx.modred.util
    if op['multi']:
        t, s = u.load_multiple_signals(paths, **k)
    else:
        t, s = u.load_signals(paths[0], **k)
    return np.array(t), np.array(s)


@kind
def play_signals(pl, case):
    sc = case['sc']
    run = pl.job(sc, case['strat'])
    live(run, exceptions=False)
    faulted = {(r, i) for r, i, op, k in run.world.fault_log
               if k in ('error', 'torn_write')}
    for r in range(sc['n']):
        state = {}
        for i, op in enumerate(sc['prog']):
            rec = run.results[r][i]
            what = 'operation %d (%s on worker %d)' % (i, op['f'], r)
            if op['f'] == 'sig_save':
                state[op['file']] = op if rec['exc'] is None else None
            if rec['exc'] is not None:
                bad = op['f'] == 'sig_load' and (op['odd'] or any(
                    state.get(f) is None for f in op['files']))
                need((r, i) in faulted or bad, 'unexpected-exception',
                     '%s raised %s: %s without any failure' % (
                         what, rec['exc'][0], rec['exc'][1]))
                continue
            if op['f'] == 'sig_save':
                continue
            sv = [state.get(f) for f in op['files']]
            if any(x is None for x in sv):
                continue
            need(not op['odd'], 'failure-not-raised', '%s accepted files '
                 'with %s' % (what, op['odd']))
            arrs = [sig_array(x['s']) for x in sv]
            t, s = rec['val']
            exp = np.array([a[:, 1:] for a in arrs]) if op['multi'] else \
                arrs[0][:, 1:]
            need(t.shape == (len(arrs[0]),) and np.array_equal(
                t, arrs[0][:, 0]), 'wrong-values', '%s gave times %s, '
                'expected %s' % (what, brief(t), brief(arrs[0][:, 0])))
            need(s.shape == exp.shape and np.array_equal(s, exp),
                 'wrong-values', '%s gave signals %s (shape %s), expected %s '
                 '(shape %s)' % (what, brief(s), s.shape, brief(exp),
                                 exp.shape))


def signals_case(rng):
    n = rng.choice([1, 1, 2])
    sc = gen.job(rng, n=n)
    sc.pop('hetero', None)
    sc['disk'] = True
    sc['cfg']['io_buffer'] = rng.choice([8192, 16, 64])
    T, k = rng.choice([1, 2, 3, 5, 9]), rng.choice([1, 1, 2, 3])
    t0, dt = rng.choice([0., 0.5, -3.]), rng.choice([1., 0.1, 1e-3])
    delim = rng.choice([None, None, None, ',', ';'])
    prog = sc['prog']
    odd = None
    count = rng.randrange(1, 4)
    files = ['s%d' % j for j in range(count)]
    for j, f in enumerate(files):
        s = {'seed': rng.randrange(1 << 30), 'T': T, 'k': k, 't0': t0,
             'dt': dt, 'wide': rng.random() < 0.3}
        if j and j == count - 1 and rng.random() < 0.15:
            s['t0'] = t0 + 7.
            odd = 'different times'
        prog.append({'op': 'py', 'f': 'sig_save', 'file': f, 's': s,
                     'delim': delim, 'catch': True})
    for _ in range(rng.randrange(1, 4)):
        multi = rng.random() < 0.6
        fs = list(files)
        if not (odd and multi):
            rng.shuffle(fs)
        if not multi:
            fs = fs[:1]
        prog.append({'op': 'py', 'f': 'sig_load', 'files': fs, 'multi': multi,
                     'delim': delim, 'odd': odd if multi else None,
                     'catch': True})
    if rng.random() < 0.5:
        sc['faults'] = [
            {'rank': rng.randrange(n), 'op': rng.choice(
                ['io_open_w', 'io_open_r', 'io_write', 'io_read',
                 'io_close']), 'nth': rng.randrange(0, 6), 'kind': 'error',
             'errno': rng.choice(['EIO', 'ENOSPC', 'EACCES'])}]
    elif rng.random() < 0.5:
        sc['faults'] = [
            {'rank': rng.randrange(n), 'op': 'io_read',
             'nth': rng.randrange(0, 8), 'kind': 'short_read',
             'frac': rng.choice([0.1, 0.5, 0.9])} for _ in range(3)]
    return {'kind': 'signals', 'sc': sc, 'strat': gen.strategy(rng, n),
            'serial_ok': True, 'shrink_n': False}


# ---------------------------------------------------------------------------
# C26: the sanity check of user objects

class SanVec(object):
    """A user vector whose arithmetic may have a defect."""
    def __init__(self, a, defect=None):
        self.a, self.defect = a, defect
        self.pending = 1.

    def _new(self, a):
        return SanVec(a, self.defect)

    def __mul__(self, c):
        d = self.defect
        if d == 'mul-in-place':
            self.a = self.a * c
            return self
        if d == 'mul-in-place-copy':
            # a copy is returned, but the operand has been changed too
            self.a = self.a * c
            return self._new(self.a.copy())
        if d == 'mul-constant':
            return self._new(np.sqrt(2.) * self.a)
        if d == 'mul-ignored':
            return self._new(self.a.copy())
        if d == 'mul-factor':
            return self._new(self.a * (c * (1 + 1e-6)))
        if d in ('mul-lazy', 'mul-lazy-big'):
            # inner products do not see the factor, additions do
            v = self._new(self.a * (1 if d == 'mul-lazy' else c * c))
            v.pending = c if d == 'mul-lazy' else 1. / c
            return v
        if d == 'mul-small':
            return self._new(self.a * (c * (1 - 1e-6)))
        if d == 'mul-zero':
            return self._new(self.a * 0)
        if d == 'mul-sign':
            return self._new(self.a * -c)
        if d == 'mul-conj':
            return self._new(np.conj(self.a * c))
        if d == 'mul-part':
            b = self.a * c
            b[:1] = self.a[:1]
            return self._new(b)
        return self._new(self.a * c)

    def __add__(self, o):
        d = self.defect
        if d == 'add-in-place':
            self.a = self.a + o.a
            return self
        if d == 'add-in-place-copy':
            self.a = self.a + o.a
            return self._new(self.a.copy())
        if d == 'add-in-place-other':
            o.a = self.a + o.a
            return o
        if d == 'add-first':
            return self._new(self.a.copy())
        if d in ('mul-lazy', 'mul-lazy-big'):
            return self._new(self.a * self.pending + o.a * o.pending)
        if d == 'add-self' and o is self:
            return self._new(self.a.copy())
        if d == 'add-doubles':
            return self._new(self.a * 2)
        if d == 'add-zero':
            return self._new(self.a * 0)
        if d == 'add-minus':
            return self._new(self.a - o.a)
        if d == 'add-small':
            return self._new((self.a + o.a) * (1 - 1e-6))
        if d == 'add-part':
            b = self.a + o.a
            b[:1] = self.a[:1]
            return self._new(b)
        return self._new(self.a + o.a)


VEC_DEFECTS = ['mul-in-place', 'mul-in-place-copy', 'mul-ignored',
               'mul-factor', 'mul-part', 'add-in-place', 'add-in-place-copy',
               'add-in-place-other', 'add-first', 'add-doubles', 'add-part',
               'add-self', 'mul-constant', 'mul-small', 'mul-zero',
               'add-zero', 'add-minus', 'add-small', 'mul-sign',
               'mul-lazy', 'mul-lazy-big', 'mul-lazy', 'mul-lazy-big']
IP_DEFECTS = ['ip-square', 'ip-norm', 'ip-offset']


def san_array(s):
    g = np.random.RandomState(s['seed'])
    a = g.randint(1, 9, size=s['shape']) * g.choice([-1, 1], size=s['shape'])
    if s['dtype'] == 'int64':
        return a
    a = a * 10. ** s['mag'] * (1 + g.rand(*s['shape']))
    if s['dtype'] == 'complex128':
        a = a * np.exp(1j * g.rand(*s['shape']))
    if s.get('zero'):
        a = a * 0.
    if s.get('order') == 'F':
        a = np.asfortranarray(a)
    elif s.get('order') == 'neg':
        a = np.ascontiguousarray(a[::-1])[::-1]
    return a


@py_op
def sanity(ctx, op):
    s = op['s']
    mr = ctx.modred
    a = san_array(s)
    keep = a.copy()
    d = s.get('defect')
    user = s['user']
    vec = SanVec(a, d) if user else a

    def ip(x, y):
        if user:
            x, y = x.a, y.a
        if d == 'ip-square':
            return np.vdot(x, y ** 2)
        v = np.vdot(x, y)
        if s.get('w'):
            v = v * s['w']
        if d == 'ip-norm':
            return np.sqrt(abs(v))
        if d == 'ip-offset':
            return v + np.vdot(a, a)
        return v
    k = {'verbosity': op['verb']}
    if s.get('mpn'):
        k['max_vecs_per_node'] = s['mpn']
    cls = op['cls']
    obj = getattr(mr, cls)(inner_product=ip, **k)
    if op['h'] == 'mem':
        h = mr.VecHandleInMemory(vec)
    else:
        class Hdl(mr.VecHandle):
            def _get(self):
                if ctx.rank in op.get('fail', []):
                    raise IOError('simulated: no such vector')
                return SanVec(a.copy(), d) if user else a.copy()
        h = Hdl()
    obj.sanity_check(h)
    now = raw(h.vec.a if user else h.vec) if op['h'] == 'mem' else keep
    return np.array_equal(now, keep)


@kind
def play_sanity(pl, case):
    sc = case['sc']
    run = pl.job(sc, case['strat'])
    live(run, exceptions=False)
    for r in range(sc['n']):
        for i, op in enumerate(sc['prog']):
            rec = run.results[r][i]
            s = op['s']
            what = 'the sanity check (%s) of %s on worker %d' % (
                op['cls'], s, r)
            if r in op.get('fail', []):
                need(rec['exc'] is not None, 'failure-not-raised',
                     '%s returned normally although the vector could not be '
                     'loaded' % what)
            elif s.get('defect'):
                need(rec['exc'] is not None and
                     rec['exc'][0] == 'ValueError', 'defect-accepted',
                     '%s %s' % (what, 'raised %s: %s' % tuple(rec['exc'][:2])
                                if rec['exc'] else 'returned normally'))
            else:
                need(rec['exc'] is None, 'sound-vector-rejected',
                     '%s raised %s: %s' % ((what,) + tuple(
                         (rec['exc'] or ['', ''])[:2])))
                need(rec['val'] is True, 'argument-mutated',
                     '%s changed the vector' % what)


@prop
def g_C26(rng):
    n = gen.wchoice(rng, [(1, 4), (2, 2), (3, 1), (5, 1)])
    sc = gen.job(rng, n=n)
    sc.pop('hetero', None)
    for _ in range(rng.randrange(1, 5)):
        s = {'seed': rng.randrange(1 << 30),
             'shape': rng.choice([[1], [2], [3], [7], [40], [2, 3], [5, 1],
                                  [1, 4], [200], [2, 2, 2]]),
             'dtype': rng.choice(['float64', 'float64', 'complex128',
                                  'int64']),
             'mag': rng.choice([0, 0, 1, 3, 6, 40, -1, -3, -6, -40]),
             'user': rng.random() < 0.7,
             'order': rng.choice(['C', 'C', 'F', 'neg'])}
        if rng.random() < 0.3:
            s['w'] = rng.choice([0.25, 3., 1e-9, 1e7])
        if rng.random() < 0.2:
            s['mpn'] = rng.choice([1, 3, 10])
        if rng.random() < 0.55:
            s['defect'] = rng.choice(
                VEC_DEFECTS * 2 + IP_DEFECTS if s['user'] else IP_DEFECTS)
        elif rng.random() < 0.1:
            s['zero'] = True
        if s.get('defect') and s['user'] and s['dtype'] == 'complex128' and \
                rng.random() < 0.1:
            s['defect'] = 'mul-conj'
        if s.get('defect') == 'ip-square' and (
                s['dtype'] == 'int64' or s['mag'] not in (0, 1)):
            s['dtype'], s['mag'] = 'float64', 0
        op = {'op': 'py', 'f': 'sanity', 's': s, 'catch': True,
              'h': rng.choice(['mem', 'own']), 'verb': rng.choice([0, 0, 1]),
              'cls': rng.choice(['VectorSpaceHandles'] * 3 + [
                  'PODHandles', 'BPODHandles', 'DMDHandles',
                  'TLSqrDMDHandles'])}
        if op['h'] == 'own' and not s.get('defect') and rng.random() < 0.2:
            op['fail'] = [rng.randrange(n)]
        sc['prog'].append(op)
    return {'kind': 'sanity', 'sc': sc, 'strat': gen.strategy(rng, n),
            'serial_ok': True, 'shrink_n': False}
