"""Vector handles (C20) and stored arrays (C15): their own small reference
models, driven by operations on files and handles instead of a whole method."""
import os
import pickle
import random

import numpy as np

from . import gen
from .disk import _real_open
from .harness import PY_OPS, UVec, arr_of, py_op, raw, wrap
from .oracle import brief, need
from .play import Violation, kind, live
from .props import prop

# ---------------------------------------------------------------------------
# C20: handles with bases and scales


def hx_scale(s):
    if isinstance(s, dict):
        if 'c' in s:
            return complex(*s['c'])
        return getattr(np, s['np'])(s['v'])
    return s


# vectors that are nearly, but not, the vector they are made from
TWEAKS = {
    None: lambda a: a,
    'tiny': lambda a: a * (1. + 2. ** -36),
    'last': lambda a: np.concatenate([a[:-1], a[-1:] + 1.]),
    'turned': lambda a: a[::-1].copy(),
    'negated': lambda a: -a,
    'other type': lambda a: a.astype(np.complex128)
    if not np.iscomplexobj(a) else a.conj(),
}


def hx_value(spec, v, d):
    """The vector of value spec v: a column of small numbers."""
    rng = np.random.RandomState(v)
    size = d.get('shape') or spec['shape']
    a = rng.randint(-8, 9, size=size).astype(float)
    if spec.get('float'):
        a = a / 3.
    if spec.get('cplx'):
        a = a + 1j * rng.randint(-8, 9, size=size)
    return TWEAKS[d.get('tweak')](a)


def hx_key(ctx, key):
    return 'r%d/%s' % (ctx.rank, key)


def hx_vec(ctx, v, d):
    spec = ctx.run.sc['hx']
    return wrap(hx_value(spec, v, d), spec['vtype'])


def hx_get_handle(ctx, i, fresh=False):
    if not hasattr(ctx, 'hx'):
        ctx.hx = {}
    if i in ctx.hx and not fresh:
        return ctx.hx[i]
    d = ctx.run.sc['hx']['defs'][i]
    cls = ctx.handle_class(d['kind'])
    base = None if d.get('base') is None else hx_get_handle(ctx, d['base'])
    scale = hx_scale(d.get('scale'))
    if d['kind'] == 'mem':
        h = cls(hx_vec(ctx, d['init'], d), base_vec_handle=base, scale=scale)
    elif d['kind'] in ('sim', 'duck'):
        h = cls(hx_key(ctx, d['key']), base_vec_handle=base, scale=scale)
    elif d['kind'] == 'noeq':
        h = cls(hx_key(ctx, d['key']), base, scale)
    else:
        path = os.path.join(ctx.world.scratch, hx_key(ctx, d['key']))
        k = {}
        if d['kind'] == 'text':
            k['is_complex'] = bool(ctx.run.sc['hx'].get('cplx'))
        h = cls(path, base_vec_handle=base, scale=scale, **k)
    ctx.hx[i] = h
    return h


@py_op
def hx_init(ctx, op):
    """Vectors that existed before the job (no yields, no faults)."""
    spec = ctx.run.sc['hx']
    for d in spec['defs']:
        if d['kind'] == 'mem':
            continue
        key, v = hx_key(ctx, d['key']), hx_vec(
            ctx, spec['init'][d['key']], d)
        if d['kind'] in ('sim', 'duck', 'noeq'):
            ctx.world.store[key] = pickle.dumps(v, 4)
            continue
        path = os.path.join(ctx.world.scratch, key)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if d['kind'] == 'pickle':
            with _real_open(path, 'wb') as fh:
                pickle.dump(v, fh, 4)
        else:
            a = raw(v)
            if np.iscomplexobj(a):
                a = np.ascontiguousarray(a).view(float)
            with _real_open(path, 'w') as fh:
                for row in a:
                    fh.write(' '.join('%.18e' % x for x in row) + '\n')


@py_op
def hx_get(ctx, op):
    h = hx_get_handle(ctx, op['h'], op.get('fresh'))
    v = h.get()
    return (isinstance(v, UVec), np.array(raw(v)))


@py_op
def hx_put(ctx, op):
    h = hx_get_handle(ctx, op['h'], op.get('fresh'))
    h.put(hx_vec(ctx, op['v'], ctx.run.sc['hx']['defs'][op['h']]))


@py_op
def hx_final(ctx, op):
    """What storage holds in the end, past every seam."""
    out = {}
    for i, d in enumerate(ctx.run.sc['hx']['defs']):
        k = hx_storage_key(i, d)
        if d['kind'] == 'mem':
            if i in getattr(ctx, 'hx', {}):
                out[k] = np.array(raw(ctx.hx[i].vec))
            continue
        key = hx_key(ctx, d['key'])
        if d['kind'] in ('sim', 'duck', 'noeq'):
            b = ctx.world.store.get(key)
            out[k] = None if b is None else raw(pickle.loads(b))
        else:
            out[k] = hx_read(os.path.join(ctx.world.scratch, key),
                             d['kind'], ctx.run.sc['hx'].get('cplx'))
    return out


def hx_read(path, how, cplx):
    if not os.path.exists(path):
        return None
    try:
        if how == 'pickle':
            with _real_open(path, 'rb') as fh:
                return raw(pickle.load(fh))
        with _real_open(path, 'r') as fh:
            a = np.array([[float(x) for x in ln.split()] for ln in fh
                          if ln.strip()])
        return a.view(complex) if cplx else a
    except Exception as exc:
        return 'unreadable: %s' % type(exc).__name__


def hx_storage_key(i, d):
    return 'mem%d' % i if d['kind'] == 'mem' else d['key']


class HandleModel(object):
    """(stored - base's value) * scale, with bases evaluated the same way."""

    def __init__(self, spec):
        self.spec, self.defs = spec, spec['defs']
        self.store = {}
        for i, d in enumerate(self.defs):
            v = d['init'] if d['kind'] == 'mem' else spec['init'][d['key']]
            self.store[hx_storage_key(i, d)] = hx_value(spec, v, d)

    def get(self, i):
        """None: depends on a vector whose last put failed."""
        d = self.defs[i]
        v = self.store[hx_storage_key(i, d)]
        if v is None:
            return None
        if d['kind'] == 'duck':
            return v
        if d.get('base') is not None:
            b = self.get(d['base'])
            if b is None:
                return None
            v = v - b
        if d.get('scale') is not None:
            v = v * hx_scale(d['scale'])
        return v


def same_values(got, exp):
    got, exp = np.asarray(got), np.asarray(exp)
    if got.shape != exp.shape:
        return False
    s = max(1., float(np.max(np.abs(exp))))
    return bool(np.max(np.abs(got - exp)) <= 1e-13 * s)


@kind
def play_handles(pl, case):
    sc = case['sc']
    run = pl.job(sc, case['strat'])
    live(run, exceptions=False)
    faulted = {(r, i) for r, i, op, k in run.world.fault_log if k != 'stall'}
    for r in range(sc['n']):
        m = HandleModel(sc['hx'])
        for i, op in enumerate(sc['prog']):
            rec = run.results[r][i] if i < len(run.results[r]) else {}
            need(rec.get('done'), 'did-not-return', 'operation %d did not '
                 'return on worker %d' % (i, r))
            bad = (r, i) in faulted
            if rec['exc'] is not None:
                if op['f'] == 'hx_put' and bad:
                    d = m.defs[op['h']]
                    if d['kind'] in ('pickle', 'text'):
                        m.store[hx_storage_key(op['h'], d)] = None
                    continue
                if op['f'] == 'hx_get' and (bad or m.get(op['h']) is None):
                    continue
                raise Violation('unexpected-exception', 'operation %d (%s of '
                                'handle %s) raised %s: %s on worker %d' % (
                                    i, op['f'], op.get('h'), rec['exc'][0],
                                    rec['exc'][1], r))
            if op['f'] == 'hx_put':
                d = m.defs[op['h']]
                m.store[hx_storage_key(op['h'], d)] = hx_value(
                    sc['hx'], op['v'], d)
            elif op['f'] == 'hx_get':
                exp = m.get(op['h'])
                if exp is None:
                    continue
                need(same_values(rec['val'][1], exp), 'wrong-vector',
                     'operation %d: get of handle %d (%s) on worker %d gave '
                     '%s, expected %s' % (
                         i, op['h'], m.defs[op['h']], r,
                         brief(rec['val'][1]), brief(exp)))
            elif op['f'] == 'hx_final':
                for k, v in sorted(rec['val'].items()):
                    if m.store[k] is None:
                        continue
                    need(v is not None and not isinstance(v, str) and
                         same_values(v, m.store[k]), 'stored-changed',
                         'stored vector %s of worker %d is %s, expected %s' % (
                             k, r, v if v is None or isinstance(v, str)
                             else brief(v), brief(m.store[k])))


# handles whose base vectors are put by the package's own operations

def bo_handle(ctx, op):
    """A handle of input vector i whose base is an output."""
    if not hasattr(ctx, 'bo'):
        ctx.bo = {}
    key = op['hk']
    h = ctx.bo.get(key)
    if h is None or op.get('fresh'):
        spec = ctx.run.data.sets['v1']
        ospec = ctx.run.data.sets['o1']
        kind = spec['hkind']
        cls = ctx.handle_class(kind)
        if op['own'] == 'same':
            base = ctx.handle('o1', op['b'])
        else:
            bb = None
            if op.get('bb') is not None:
                bb = ctx.handle('o1', op['bb'])
            base = ctx.raw_handle(cls, kind, ospec, 'o1.%d' % op['b'], None,
                                  bb, op.get('bscale'))
        h = ctx.raw_handle(cls, kind, spec, 'v1.%d' % op['i'], None, base,
                           op.get('scale'))
        ctx.bo[key] = h
    return h


@py_op
def bo_get(ctx, op):
    if ctx.rank not in op['ranks']:
        return None
    return np.array(raw(bo_handle(ctx, op).get()))


def bo_outputs(run):
    """Values of the outputs after each operation."""
    sc = run.sc
    A, C = run.data.truth['v1'], {}
    out = {}
    hist = []
    for op in sc['prog']:
        if op.get('m') == 'lin_combine':
            c = arr_of(op['a'][2])
            for k, j in enumerate(op['a'][0]['H'][1]):
                out[j] = sum(A[i] * c[q, k] for q, i in enumerate(
                    op['a'][1]['H'][1]))
        elif op.get('m') == 'compute_derivs_handles':
            for k, j in enumerate(op['a'][2]['H'][1]):
                out[j] = (A[op['a'][1]['H'][1][k]] -
                          A[op['a'][0]['H'][1][k]]) / op['a'][3]
        hist.append(dict(out))
    return hist


@kind
def play_basedout(pl, case):
    sc = case['sc']
    run = pl.job(sc, case['strat'])
    live(run)
    A = run.data.truth['v1']
    hist = bo_outputs(run)
    for i, op in enumerate(sc['prog']):
        if op.get('f') != 'bo_get':
            continue
        b = hist[i][op['b']]
        if op['own'] != 'same':
            if op.get('bb') is not None:
                b = b - hist[i][op['bb']]
            if op.get('bscale') is not None:
                b = b * op['bscale']
        exp = A[op['i']] - b
        if op.get('scale') is not None:
            exp = exp * op['scale']
        for r in op['ranks']:
            got = run.results[r][i]['val']
            need(got is not None and same_values(got, exp), 'stale-base',
                 'operation %d: vector %d minus output %d on worker %d is %s, '
                 'expected %s' % (i, op['i'], op['b'], r, brief(got),
                                  brief(exp)))


def basedout(rng):
    n = gen.wchoice(rng, [(1, 1), (2, 4), (3, 3), (4, 2), (5, 1), (6, 1)])
    sc = gen.job(rng, n=n)
    sc.pop('hetero', None)
    b = gen.Builder(rng, sc)
    b.dim = rng.choice([1, 2, 3])
    hk = rng.choice(['sim', 'sim', 'sim', 'pickle', 'text'])
    vt = 'nd2' if hk == 'text' else rng.choice(['nd', 'nd2', 'user', 'iuser'])
    if hk != 'sim':
        sc['disk'] = True
    cnt, no = rng.randrange(2, 7), rng.randrange(1, 5)
    spec = {'dim': b.dim, 'vtype': vt, 'hkind': hk}
    sc['data']['v1'] = dict(spec, count=cnt, seed=rng.randrange(1 << 30),
                            kind='int')
    sc['data']['o1'] = dict(spec, count=no, out=True)
    sc['prog'].append({'op': 'new', 'cls': 'VectorSpaceHandles', 'obj': 'vs',
                       'k': {'verbosity': 0,
                             'max_vecs_per_node': rng.choice([None, 12, 100])
                             }})
    defs = []

    def combine(outs):
        if rng.random() < 0.25:
            ia = [rng.randrange(cnt) for _ in outs]
            ib = [rng.randrange(cnt) for _ in outs]
            sc['prog'].append({
                'op': 'func', 'm': 'compute_derivs_handles', 'a': [
                    {'H': ['v1', ia]}, {'H': ['v1', ib]}, {'H': ['o1', outs]},
                    rng.choice([1.0, 0.5, 2])]})
        else:
            sc['prog'].append({
                'op': 'call', 'obj': 'vs', 'm': 'lin_combine', 'a': [
                    {'H': ['o1', outs]}, {'H': ['v1', list(range(cnt))]},
                    {'arr': {'kind': 'int', 'seed': rng.randrange(1 << 30),
                             'shape': [cnt, len(outs)]}}]})

    def gets(hot):
        for _ in range(rng.randrange(1, 5)):
            if defs and rng.random() < 0.6:
                d = rng.choice(defs)
            else:
                d = {'hk': len(defs), 'i': rng.randrange(cnt),
                     'b': rng.choice(hot), 'own': rng.choice(
                         ['same', 'same', 'new', 'new', 'new'])}
                if d['own'] == 'new' and rng.random() < 0.3:
                    d['bscale'] = rng.choice([2.0, -1.0])
                if d['own'] == 'new' and rng.random() < 0.25:
                    d['bb'] = rng.randrange(no)
                if rng.random() < 0.4:
                    d['scale'] = rng.choice([2.0, -0.5])
                defs.append(d)
            ranks = list(range(n)) if rng.random() < 0.4 else sorted(
                rng.sample(range(n), rng.randrange(1, n + 1)))
            op = dict(d, op='py', f='bo_get', ranks=ranks)
            if rng.random() < 0.2:
                op['fresh'] = True
            sc['prog'].append(op)

    combine(list(range(no)))
    hot = list(range(no))
    for _ in range(rng.choice([1, 1, 2, 3])):
        gets(hot)
        sc['prog'].append({'op': 'func', 'm': 'parallel.barrier'})
        outs = rng.sample(range(no), rng.randrange(1, no + 1))
        combine(outs)
        hot = outs
    gets(hot)
    return {'kind': 'basedout', 'sc': sc, 'strat': gen.strategy(rng, n),
            'serial_ok': True, 'shrink_n': False}


@prop
def g_C20(rng):
    if rng.random() < 0.15:
        return basedout(rng)
    n = gen.wchoice(rng, [(1, 6), (2, 2), (3, 1)])
    sc = gen.job(rng, n=n)
    sc.pop('hetero', None)
    if n == 1 and rng.random() < 0.5:
        sc['mpi'] = False
    cplx = rng.random() < 0.3
    kinds = ['sim', 'sim', 'sim', 'mem', 'mem', 'noeq', 'duck']
    vt = rng.choice(['nd', 'nd', 'user', 'iuser'])
    files = vt == 'nd' and rng.random() < 0.35
    if files:
        kinds += ['pickle', 'text', 'text']
        sc['disk'] = True
    elif rng.random() < 0.2:
        kinds += ['pickle', 'pickle']
        sc['disk'] = True
    spec = {'shape': [rng.choice([1, 2, 3]), 1], 'vtype': vt, 'cplx': cplx,
            'float': rng.random() < 0.3, 'defs': [], 'init': {}}
    scales = [None, None, 1, 2, 2.0, -1, 0.5, 0.0, 0, -2.5,
              {'np': 'float64', 'v': 2.0}, {'np': 'int64', 'v': 3}]
    if cplx:
        scales += [{'c': [0.0, 1.0]}, {'c': [1.0, -2.0]}]
    nkeys = rng.randrange(1, 5)
    names = ['%s%d'] if rng.random() < 0.5 else [
        '%s%d', 'dir/%s%d', 'dir/%s%d', 'Dir/%s%d', '%s%d.old', '%s%d0']
    # vectors of another space: the same numbers, as far as they go
    spec['shape'][0] += rng.random() < 0.1
    other = None
    if rng.random() < 0.3:
        other = [rng.choice([s for s in (1, 2, 3, 4)
                             if s != spec['shape'][0]]), 1]
    # bases that are easily taken for each other
    twins = rng.random() < 0.2
    if twins:
        kinds = [rng.choice(['mem', rng.choice(kinds)])]
        nkeys, other = 1, None
    for i in range(rng.randrange(5, 9) if twins else rng.randrange(2, 9)):
        kd = rng.choice(kinds)
        d = {'kind': kd, 'scale': rng.choice(scales)}
        if twins and (i < 3 or rng.random() < 0.5):
            d['scale'] = None
        if kd == 'mem':
            # equal stored vectors make distinct handles equal
            d['init'] = 1 if twins else rng.randrange(1, 4)
            if rng.random() < (0.7 if twins and i < 3 else 0.4):
                d['tweak'] = rng.choice(sorted(t for t in TWEAKS if t))
        else:
            d['key'] = rng.choice(names) % ('k' if kd in ('sim', 'duck', 'noeq')
                                 else kd, rng.randrange(nkeys))
        if other and rng.random() < 0.45:
            d['shape'] = other
        same = [j for j in range(i)
                if spec['defs'][j].get('shape') == d.get('shape')]
        if twins and kd != 'duck' and i > 2:
            d['base'] = rng.randrange(3)
        elif not twins and kd != 'duck' and same and rng.random() < 0.65:
            d['base'] = rng.choice(same)
        if kd != 'mem':
            d['key'] += 'b' if 'shape' in d else ''
            spec['init'].setdefault(d['key'], rng.randrange(1, 1000))
        spec['defs'].append(d)
    sc['hx'] = spec
    prog = sc['prog']
    prog.append({'op': 'py', 'f': 'hx_init', 'catch': True})
    nh = len(spec['defs'])
    hot = [rng.randrange(nh) for _ in range(3)]
    for _ in range(rng.randrange(3, 22)):
        h = rng.choice(hot) if rng.random() < 0.5 else rng.randrange(nh)
        if twins and rng.random() < 0.7:
            h = rng.randrange(3, nh)
        op = {'op': 'py', 'h': h, 'catch': True,
              'f': 'hx_put' if rng.random() < (0.08 if twins else 0.3)
              else 'hx_get'}
        if op['f'] == 'hx_put':
            if rng.random() < 0.5:
                b = spec['defs'][h].get('base')
                h = op['h'] = b if b is not None else h
            if spec['defs'][h]['kind'] == 'duck':
                # not the package's class: its puts are invisible to it
                op['f'] = 'hx_get'
            else:
                op['v'] = rng.randrange(1000, 2000)
        if spec['defs'][h]['kind'] != 'mem' and rng.random() < 0.1:
            op['fresh'] = True
        prog.append(op)
        if op['f'] == 'hx_put':
            # whoever depends on what was put
            dep = [i for i in range(nh) if depends(spec['defs'], i, h)]
            for i in rng.sample(dep, min(len(dep), rng.randrange(0, 3))):
                prog.append({'op': 'py', 'h': i, 'catch': True,
                             'f': 'hx_get'})
    prog.append({'op': 'py', 'f': 'hx_final', 'catch': True})
    if rng.random() < 0.6:
        fl = sc['faults'] = []
        for _ in range(rng.randrange(1, 5)):
            op = rng.choice(['get', 'get', 'get', 'put'] + (
                ['io_open_r', 'io_read', 'io_open_w', 'io_write', 'io_close']
                if sc.get('disk') else []))
            f = {'rank': rng.randrange(n), 'op': op,
                 'nth': rng.randrange(0, 12)}
            if op.startswith('io_'):
                f['kind'] = 'error'
                f['errno'] = rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EMFILE'])
            else:
                f['kind'] = rng.choice(['raise', 'nomem', 'oserror'])
            fl.append(f)
    return {'kind': 'handles', 'sc': sc, 'strat': gen.strategy(rng, n),
            'serial_ok': True, 'shrink_n': False}


def depends(defs, i, h):
    seen = 0
    while i is not None and seen < 20:
        if i == h:
            return True
        d = defs[i]
        if 'key' in d and d['key'] == defs[h].get('key'):
            return True
        i = d.get('base')
        seen += 1
    return False


# ---------------------------------------------------------------------------
# C15: arrays and vectors in files

SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.1, 1. / 3., np.pi, 1e-300, -1e300, 5e-324,
           2.2250738585072014e-308, 1.7976931348623157e308, 4503599627370497.5,
           9007199254740993.0, 123456789.123456789, -2.5e-17]
ODD = [np.inf, -np.inf, np.nan]


def io_array(spec):
    """The array of an array spec: values, type and memory layout."""
    rng = np.random.RandomState(spec['seed'])
    shape = tuple(spec['shape'])
    dt = np.dtype(spec['dtype'])
    size = int(np.prod(shape))

    def reals(as32=False):
        how = spec['values']
        if how == 'rand':
            a = rng.randn(size)
        elif how == 'pos':
            a = rng.rand(size) + 1.
        elif how == 'wide':
            a = rng.randn(size) * 10. ** rng.randint(-200, 200, size=size)
        elif how == 'bits':
            a = rng.randint(0, 1 << 62, size=size).astype(
                np.uint64).view(np.float64).copy()
            a[~np.isfinite(a)] = 1.5
        else:
            pool = SPECIAL + (ODD if how == 'odd' else [])
            a = np.array([pool[k] for k in rng.randint(
                0, len(pool), size=size)])
        if as32:
            a = np.clip(a, -1e37, 1e37)
        return a
    if dt.kind == 'c':
        small = dt.itemsize == 8
        a = (reals(small) + 0j)
        a.imag = reals(small)
        if spec.get('real_values'):
            a.imag = 0.
    elif dt.kind == 'f':
        a = reals(dt.itemsize < 8)
        if dt.itemsize == 2:
            a = np.clip(a, -6e4, 6e4)
    elif dt.kind == 'b':
        a = rng.randint(0, 2, size=size)
    else:
        lim = min(1 << 53, int(np.iinfo(dt).max))
        lo = 0 if dt.kind == 'u' else -lim
        a = np.array([int(x) for x in rng.randint(
            lo, lim, size=size, dtype=np.int64)])
        if size and spec['values'] == 'special':
            a[0] = lim if lim < (1 << 53) else (1 << 53)
    a = a.astype(dt)
    tw = spec.get('tweak')
    if tw and size:
        at = {'first': 0, 'last': -1, 'middle': size // 2}.get(tw)
        if tw == 'turned':
            a = a[::-1].copy()
        elif tw == 'negated' and dt.kind in 'cf':
            a = -a
        elif tw == 'ulp' and dt.kind == 'f' and np.all(np.isfinite(a)):
            a[-1] = np.nextafter(a[-1], dt.type(0))
        elif dt.kind == 'b':
            a[-1] = not a[-1]
        else:
            at = -1 if at is None else at
            a[at] = 1 if a[at] != 1 else 2
    a = a.reshape(shape)
    lay = spec.get('layout', 'C')
    if lay == 'F':
        a = np.asfortranarray(a)
    elif lay == 'T' and a.ndim == 2:
        a = np.ascontiguousarray(a.T).T
    elif lay == 'strided':
        big = np.zeros([2 * s for s in shape], dt)
        big[tuple(slice(None, None, 2) for _ in shape)] = a
        a = big[tuple(slice(None, None, 2) for _ in shape)]
    elif lay == 'neg':
        a = np.ascontiguousarray(a[::-1])[::-1]
    elif lay == 'swapped':
        a = a.astype(dt.newbyteorder())
    elif lay == 'readonly':
        a.flags.writeable = False
    elif lay == 'bcast' and a.ndim == 2:
        a = np.broadcast_to(a[:1], shape)
    elif lay == 'list':
        a = a.tolist()
    elif lay == 'matrix' and a.ndim == 2:
        a = np.matrix(a)
    return a


def io_path(ctx, name):
    return os.path.join(ctx.world.scratch, 'r%d.%s' % (ctx.rank, name))


@py_op
def io_save(ctx, op):
    a = io_array(op['arr'])
    before = np.array(a)
    path = io_path(ctx, op['file'])
    how = op['how']
    if how == 'func':
        k = {} if op.get('delim') is None else {'delimiter': op['delim']}
        ctx.modred.util.save_array_text(a, path, **k)
    elif how == 'text':
        ctx.modred.VecHandleArrayText(path).put(a)
    else:
        ctx.modred.VecHandlePickle(path).put(
            UVec(a) if op.get('user') else a)
    return bool(np.array_equal(np.array(a), before,
                               equal_nan=before.dtype.kind in 'fc'))


@py_op
def io_load(ctx, op):
    path = io_path(ctx, op['file'])
    how = op['how']
    if how == 'func':
        k = {} if op.get('delim') is None else {'delimiter': op['delim']}
        if op['cplx'] or op.get('explicit'):
            k['is_complex'] = op['cplx']
        v = ctx.modred.util.load_array_text(path, **k)
    elif how == 'text':
        k = {'is_complex': True} if op['cplx'] else {}
        v = ctx.modred.VecHandleArrayText(path, **k).get()
    else:
        v = ctx.modred.VecHandlePickle(path).get()
    return (type(v).__name__, np.array(raw(v)))


def io_expect(op):
    """What a load after a successful save must give."""
    a = np.array(io_array(op['arr']))
    if op['how'] == 'pickle':
        return a
    if a.ndim == 1:
        a = a[:, None]
    return a.astype(complex if a.dtype.kind == 'c' else float)


def io_same(got, exp):
    got, exp = np.asarray(got), np.asarray(exp)
    if got.shape != exp.shape:
        return False
    nan = got.dtype.kind in 'fc' and exp.dtype.kind in 'fc'
    return bool(np.array_equal(got, exp, equal_nan=nan))


def io_parse(path, op):
    """Reads a file without the package (past the seams)."""
    if not os.path.exists(path):
        return 'missing'
    try:
        if op['how'] == 'pickle':
            with _real_open(path, 'rb') as fh:
                return np.array(raw(pickle.load(fh)))
        with _real_open(path, 'r') as fh:
            rows = [[float(x) for x in ln.split(op.get('delim'))]
                    for ln in fh if ln.strip()]
        a = np.array(rows)
        return a.view(complex) if np.array(io_array(
            op['arr'])).dtype.kind == 'c' else a
    except Exception as exc:
        return 'unreadable (%s)' % type(exc).__name__


@kind
def play_files(pl, case):
    sc = case['sc']
    run = pl.job(sc, case['strat'])
    crashed = run.outcome == 'crash'
    if not crashed:
        live(run, exceptions=False)
    elif run.import_error:
        live(run)
    faulted = {(r, i) for r, i, op, k in run.world.fault_log
               if k in ('error', 'torn_write')}
    for r in range(sc['n']):
        state = {}           # file -> save op whose data it must hold
        for i, op in enumerate(sc['prog']):
            rec = run.results[r][i] if i < len(run.results[r]) else None
            if rec is None or not rec.get('done'):
                need(crashed, 'did-not-return', 'operation %d did not return '
                     'on worker %d' % (i, r))
                if rec is not None and op['f'] == 'io_save':
                    state.pop(op['file'], None)
                break
            what = 'operation %d (%s %s on worker %d)' % (
                i, op['f'], op['how'], r)
            if op['f'] == 'io_save':
                if rec['exc'] is not None:
                    need((r, i) in faulted, 'unexpected-exception',
                         '%s of %s raised %s: %s without any failure' % (
                             what, op['arr'], rec['exc'][0], rec['exc'][1]))
                    state.pop(op['file'], None)
                    continue
                need(rec['val'] is True, 'argument-mutated',
                     '%s modified the array it saved' % what)
                state[op['file']] = op
            else:
                sv = state.get(op['file'])
                if sv is None:
                    continue
                if rec['exc'] is not None:
                    need((r, i) in faulted, 'unexpected-exception',
                         '%s of %s raised %s: %s without any failure' % (
                             what, sv['arr'], rec['exc'][0], rec['exc'][1]))
                    continue
                exp = io_expect(sv)
                need(io_same(rec['val'][1], exp), 'wrong-values',
                     '%s gave %s (shape %s), saved was %s (shape %s, %s)' % (
                         what, brief(rec['val'][1]), rec['val'][1].shape,
                         brief(exp), exp.shape, sv['arr']))
        for f, sv in sorted(state.items()):
            got = io_parse(os.path.join(run.scratch, 'r%d.%s' % (r, f)), sv)
            exp = io_expect(sv)
            need(not isinstance(got, str) and io_same(got, exp),
                 'not-durable', 'after %s the file of an acknowledged save '
                 'on worker %d holds %s, expected %s (%s)' % (
                     'a kill' if crashed else 'the job', r,
                     got if isinstance(got, str) else brief(got),
                     brief(exp), sv['arr']))


DTYPES = ['float64'] * 5 + ['complex128'] * 4 + [
    'float32', 'complex64', 'int64', 'int32', 'int8', 'uint8', 'uint32',
    'bool', 'float16', 'int16']


@prop
def g_C15(rng):
    if rng.random() < 0.1:
        from .props_more import signals_case
        return signals_case(rng)
    n = gen.wchoice(rng, [(1, 5), (2, 1), (3, 1)])
    sc = gen.job(rng, n=n)
    sc.pop('hetero', None)
    sc['disk'] = True
    sc['cfg']['io_buffer'] = rng.choice([8192, 8192, 1, 16, 64, 300])
    files = ['f%d' % i for i in range(rng.randrange(1, 4))]
    meta = {}
    prog = sc['prog']
    for _ in range(rng.randrange(1, 6)):
        f = rng.choice(files)
        how = rng.choice(['func', 'func', 'text', 'pickle'])
        dt = rng.choice(DTYPES)
        one = rng.random() < 0.35
        big = rng.random() < 0.06
        dim = rng.choice([1, 1, 2, 3, 4, 5] + ([40] if big else []))
        shape = [dim] if one else [dim, rng.choice([1, 1, 2, 3, 5] + (
            [30] if big else []))]
        arr = {'shape': shape, 'dtype': dt, 'seed': rng.randrange(1 << 30),
               'values': rng.choice(['rand', 'rand', 'wide', 'special', 'odd',
                                     'bits', 'pos']),
               'layout': rng.choice(['C', 'C', 'F', 'T', 'strided', 'neg',
                                     'swapped', 'readonly', 'bcast', 'list',
                                     'matrix'])}
        if how == 'pickle' and arr['layout'] in ('list', 'matrix'):
            arr['layout'] = 'C'
        if dt in ('complex128', 'complex64') and rng.random() < 0.2:
            arr['real_values'] = True
        op = {'op': 'py', 'f': 'io_save', 'how': how, 'file': f, 'arr': arr,
              'catch': True}
        if how == 'func' and rng.random() < 0.35:
            op['delim'] = rng.choice([',', ';', '\t', ' ', '|'])
        if how == 'pickle' and rng.random() < 0.3:
            op['user'] = True
        old = meta.get(f)
        if old is not None and rng.random() < 0.5:
            # nearly what the file holds, or what it held earlier
            arr = dict(old['arr'])
            if rng.random() < 0.2:
                arr.pop('tweak', None)
            else:
                arr['tweak'] = rng.choice(['last', 'last', 'first', 'middle',
                                           'turned', 'negated', 'ulp'])
            op = dict(old, arr=arr)
        prog.append(op)
        meta[f] = op
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            g = rng.choice(sorted(meta)) if rng.random() < 0.3 else f
            sv = meta[g]
            ld = {'op': 'py', 'f': 'io_load', 'how': sv['how'], 'file': g,
                  'cplx': sv['arr']['dtype'].startswith('complex'),
                  'catch': True}
            if sv['how'] != 'pickle' and sv.get('delim') is None and \
                    rng.random() < 0.3:
                ld['how'] = 'text' if sv['how'] == 'func' else 'func'
            if sv.get('delim') is not None:
                ld['delim'] = sv['delim']
            if rng.random() < 0.3:
                ld['explicit'] = True
            prog.append(ld)
    m = rng.random()
    if m < 0.55:
        fl = sc['faults'] = []
        for _ in range(rng.randrange(1, 4)):
            op = rng.choice(['io_open_w', 'io_open_r', 'io_write', 'io_write',
                             'io_write', 'io_read', 'io_close', 'io_close'])
            f = {'rank': rng.randrange(n), 'op': op,
                 'nth': rng.randrange(0, rng.choice([2, 4, 12])),
                 'kind': 'error', 'errno': rng.choice(
                     ['EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EDQUOT'])}
            if op == 'io_write':
                f['kind'] = rng.choice(['error', 'short_write', 'torn_write'])
                f['frac'] = rng.choice([0.0, 0.3, 0.5, 0.9])
            if op == 'io_read':
                f['kind'] = rng.choice(['error', 'short_read', 'short_read'])
                f['frac'] = rng.choice([0.1, 0.5, 0.9])
            fl.append(f)
    elif m < 0.75:
        sc['crash_step'] = rng.randrange(2, rng.choice([12, 40, 120]))
        if rng.random() < 0.6:
            sc['cfg']['torn_crash'] = rng.choice([0.01, 0.3, 0.5, 0.99])
    return {'kind': 'files', 'sc': sc, 'strat': gen.strategy(rng, n),
            'serial_ok': True, 'shrink_n': False}
