"""Runs a scenario: a JSON program of modred API calls executed by every worker
of a simulated job, against user callbacks the simulator owns."""
import copy
import json
import os
import pickle
import shutil
import tempfile
import zlib

import numpy as np

from . import mpi
from .core import Decider, HarnessError, SimKill
from .world import InjectedFault, World

# --------------------------------------------------------------------------
# user vectors


class UVec(object):
    """A user-defined vector object (add and scalar multiply only), whose live
    instances are counted per worker."""
    __array_ufunc__ = None
    __slots__ = ('a', '_r', '_w', '__weakref__')

    def __init__(self, a):
        self.a = a
        self._born()

    def _born(self):
        w = mpi._cur.world
        if w is not None and w.active:
            self._w = w
            self._r = w.current_rank()
            live = w.live
            live[self._r] = live.get(self._r, 0) + 1
            if live[self._r] > w.peak.get(self._r, 0):
                w.peak[self._r] = live[self._r]
        else:
            self._w = None

    def __del__(self):
        w = self._w
        if w is not None:
            w.live[self._r] -= 1

    def __reduce__(self):
        return (UVec, (self.a,))

    def __add__(self, other):
        return UVec(self.a + other.a)

    def __sub__(self, other):
        return UVec(self.a - other.a)

    def __mul__(self, s):
        return UVec(self.a * s)

    __rmul__ = __mul__

    def __eq__(self, other):
        return isinstance(other, UVec) and np.array_equal(self.a, other.a)

    __hash__ = None


class IVec(UVec):
    """As UVec, with in-place addition that really works in place."""
    __slots__ = ()

    def __reduce__(self):
        return (IVec, (self.a,))

    def __add__(self, other):
        return IVec(self.a + other.a)

    def __sub__(self, other):
        return IVec(self.a - other.a)

    def __mul__(self, s):
        return IVec(self.a * s)

    __rmul__ = __mul__

    def __iadd__(self, other):
        if self.a.dtype.kind != 'c' and other.a.dtype.kind == 'c':
            self.a = self.a + other.a
        else:
            self.a += other.a
        return self


def raw(v):
    return v.a if isinstance(v, UVec) else np.asarray(v)


def wrap(a, vtype):
    if vtype == 'user':
        return UVec(np.array(a))
    if vtype == 'iuser':
        return IVec(np.array(a))
    return np.array(a)


# --------------------------------------------------------------------------
# data

def step_limit(sc):
    """Far more steps than any sound execution of this size takes."""
    n = sc['n']
    longest = max([d.get('count') or 0 for d in (
        sc.get('data') or {}).values()] or [0])
    return 60000 + 40 * (longest + n) ** 2 * max(4, len(sc.get('prog') or ()))


def vec_shape(spec):
    d = spec['dim']
    if spec.get('vtype') == 'nd2':
        k = spec.get('cols', 1)
        return (d, k)
    return (d,)


def gen_raw(spec):
    """The raw arrays of a vector set, before base subtraction and scaling."""
    rng = np.random.RandomState(spec['seed'])
    shape = vec_shape(spec)
    n = spec['count']
    kind = spec.get('kind', 'int')

    def one():
        if kind == 'int':
            a = rng.randint(-3, 4, size=shape).astype(float)
            if spec.get('cplx'):
                a = a + 1j * rng.randint(-3, 4, size=shape)
        else:
            a = rng.randn(*shape)
            if spec.get('cplx'):
                a = a + 1j * rng.randn(*shape)
        return a
    gen = spec.get('gen')
    if gen is None:
        out = [one() for _ in range(n)]
        if spec.get('mix'):          # every vector has a type of its own
            out = [mixed_type(a, rng.choice(['i', 'f', 'c'])) for a in out]
    elif gen == 'degen':             # repeated eigenvalues
        out = []
        flat = int(np.prod(shape))
        where = rng.permutation(flat)
        for i in range(n):
            v = np.zeros(flat, dtype=complex if spec.get('cplx') else float)
            v[where[i % flat]] = rng.choice([1., 1., 2., 2., -2.]) * (
                1j if spec.get('cplx') and rng.rand() < 0.5 else 1.)
            out.append(v.reshape(shape))
    elif gen == 'zeros':
        out = [one() if rng.rand() < 0.5 else 0 * one() for _ in range(n)]
    elif gen == 'lowrank':
        r = spec['rank']
        basis = [one() for _ in range(r)]
        out = []
        for _ in range(n):
            c = rng.randint(-2, 3, size=r) if kind == 'int' else rng.randn(r)
            out.append(sum(ci * b for ci, b in zip(c, basis)) + 0 * basis[0])
    elif gen == 'lti':
        out = lti_data(spec)
    elif gen == 'explicit':
        out = [np.array(v) for v in spec['values']]
    else:
        raise HarnessError('gen %r' % gen)
    if spec.get('mag'):              # a power of two: exact
        out = [a * spec['mag'] for a in out]
    if spec.get('mags'):             # another power of two for every vector
        m = spec['mags']
        out = [a * 2. ** m[i % len(m)] for i, a in enumerate(out)]
    return out


def mixed_type(a, how):
    if how == 'c':
        return a + 1j * np.roll(a.real, 1)
    a = a.real.copy()
    return np.round(a).astype(int) if how == 'i' else a


def lti_matrices(spec):
    """A, B, C and the weights of the system behind an 'lti' vector set."""
    rng = np.random.RandomState(spec['seed'])
    d = spec['dim'] * (spec.get('cols', 1) if spec.get('vtype') == 'nd2'
                       else 1)
    cplx = spec.get('cplx')
    q, _ = np.linalg.qr(rng.randn(d, d) + (1j * rng.randn(d, d) if cplx else 0))
    ev = np.linspace(0.55, 0.97, d) * rng.choice([-1, 1], size=d)
    if cplx:
        ev = ev * np.exp(1j * rng.rand(d))
    mix = np.eye(d) + 0.3 * np.triu(rng.randn(d, d), 1) / np.sqrt(d)
    A = q.dot(mix).dot(np.diag(ev)).dot(np.linalg.inv(mix)).dot(q.conj().T)
    if not cplx:
        A = A.real
    p, m = spec.get('inputs', 1), spec.get('outputs', 1)
    B = rng.randn(d, p) + (1j * rng.randn(d, p) if cplx else 0)
    C = rng.randn(m, d) + (1j * rng.randn(m, d) if cplx else 0)
    return A, B, C


def lti_data(spec):
    A, B, C = lti_matrices(spec)
    shape = vec_shape(spec)
    W = weights_of(spec.get('ipw'), A.shape[0])
    if spec['side'] == 'direct':
        step, cur = A, B
    else:
        # adjoint with respect to the weighted inner product
        Wi = np.linalg.inv(W)
        step = Wi.dot(A.conj().T).dot(W)
        cur = Wi.dot(C.conj().T)
    out = []
    while len(out) < spec['count']:
        out.extend(cur[:, j].reshape(shape) for j in range(cur.shape[1]))
        cur = step.dot(cur)
    return out[:spec['count']]


def weights_of(w, d):
    """Weight matrix of the scenario's inner product."""
    if not w:
        return np.eye(d)
    rng = np.random.RandomState(w['seed'])
    if w['dim'] == 1:
        return np.diag(rng.randint(1, 5, size=d).astype(float))
    m = rng.randint(-1, 2, size=(d, d)).astype(float)
    if w.get('cplx'):
        m = m + 1j * rng.randint(-1, 2, size=(d, d))
    return np.eye(d) * (3 * d + 2) + m + m.conj().T


def ip_raw(a, b, W):
    a, b = np.ravel(a), np.ravel(b)
    if W is None:
        return np.vdot(a, b)
    return np.vdot(a, W.dot(b))


class Data(object):
    """Every vector set of a scenario with its true values."""

    def __init__(self, scenario):
        self.sets = {}
        self.truth = {}
        self.raws = {}
        self.bases = {}
        for name, spec in (scenario.get('data') or {}).items():
            self.sets[name] = spec
            if spec.get('out'):
                continue
            vals = gen_raw(spec)
            self.raws[name] = vals
            base = None
            if spec.get('base'):
                bspec = dict(spec, count=1, seed=spec['base']['seed'],
                             gen=None)
                base = gen_raw(bspec)[0]
                if spec['base'].get('scale') is not None:
                    base_true = base * spec['base']['scale']
                else:
                    base_true = base
                self.bases[name] = base
                vals = [v - base_true for v in vals]
            if spec.get('scale') is not None:
                sc = spec['scale']
                vals = [v * (sc[i % len(sc)] if isinstance(sc, list) else sc)
                        for i, v in enumerate(vals)]
            self.truth[name] = vals
        w = (scenario.get('ip') or {}).get('w')
        self.W = None
        if w and self.sets:
            spec = next(s for s in self.sets.values())
            d = int(np.prod(vec_shape(spec)))
            self.W = weights_of(w, d)

    def mat(self, name, idx):
        return np.array([np.ravel(self.truth[name][i]) for i in idx]).T

    def gram(self, n1, i1, n2, i2):
        X, Y = self.mat(n1, i1), self.mat(n2, i2)
        return X.conj().T.dot(Y if self.W is None else self.W.dot(Y))


# --------------------------------------------------------------------------
# running


class RankCtx(object):
    def __init__(self, run, rank, env):
        self.run, self.world = run, run.world
        self.rank, self.env = rank, env
        self.modred = None
        self.objs = {}
        self.handles = {}
        self.lists = {}
        self.slot = None
        self.classes = {}
        self.ip_count = 0
        self.get_count = {}

    # user callbacks
    def inner_product(self):
        W = self.run.data.W
        spec = self.run.sc.get('ip') or {}
        py = spec.get('type') == 'py'
        w, rank = self.world, self.rank
        ctx = self

        def ip(v1, v2):
            w.callback(rank, 'ip')
            ctx.ip_count += 1
            w.tally(rank, 'ip')
            val = ip_raw(raw(v1), raw(v2), W)
            if py:
                return complex(val) if isinstance(
                    val, np.complexfloating) else float(val)
            return val
        return ip

    def store_get(self, key):
        w = self.world
        w.callback(self.rank, 'get', 'get %s' % key)
        w.tally(self.rank, 'get')
        self.get_count[key] = self.get_count.get(key, 0) + 1
        if key in w.in_progress:
            w.violate('torn-read', 'worker %d read %s while worker %d was '
                      'writing it' % (self.rank, key, w.in_progress[key]))
        if key not in w.store:
            raise OSError(2, 'no such vector', key)
        return pickle.loads(w.store[key])

    def store_put(self, key, vec):
        w = self.world
        w.callback(self.rank, 'put', 'put %s' % key)
        data = pickle.dumps(vec, 4)
        if key in w.in_progress:
            w.violate('concurrent-put', 'workers %d and %d write %s at the '
                      'same time' % (self.rank, w.in_progress[key], key))
        w.in_progress[key] = self.rank
        w.store.pop(key, None)
        w.step(self.rank, 'writing %s' % key, 1e-4)
        f = w._due(self.rank, 'put_late')
        if f:
            w.fire('put_late_raise')
            w.in_progress.pop(key, None)
            raise InjectedFault('put failed half way on worker %d' % self.rank)
        w.store[key] = data
        w.in_progress.pop(key, None)
        w.puts.append((w.sched.step, self.rank, key, zlib.crc32(data)))

    def handle_class(self, kind):
        if kind in self.classes:
            return self.classes[kind]
        ctx = self
        m = self.modred
        if kind == 'sim':
            class SimHandle(m.VecHandle):
                def __init__(self, key, base_vec_handle=None, scale=None):
                    m.VecHandle.__init__(self, base_vec_handle, scale)
                    self.key = key

                def _get(self):
                    return ctx.store_get(self.key)

                def _put(self, vec):
                    ctx.store_put(self.key, vec)

                def __eq__(self, other):
                    return type(other) == type(self) and \
                        other.key == self.key
                __hash__ = None
            cls = SimHandle
        elif kind == 'noeq':
            class IdHandle(m.VecHandle):
                """A handle that does not define equality."""

                def __init__(self, key, base_vec_handle=None, scale=None):
                    m.VecHandle.__init__(self, base_vec_handle, scale)
                    self.key = key

                def _get(self):
                    return ctx.store_get(self.key)

                def _put(self, vec):
                    ctx.store_put(self.key, vec)
            cls = IdHandle
        elif kind == 'duck':
            class DuckHandle(object):
                def __init__(self, key, base_vec_handle=None, scale=None):
                    self.key = key

                def get(self):
                    return ctx.store_get(self.key)

                def put(self, vec):
                    ctx.store_put(self.key, vec)
            cls = DuckHandle
        elif kind in ('pickle', 'text'):
            base = (m.VecHandlePickle if kind == 'pickle'
                    else m.VecHandleArrayText)

            class FileHandle(base):
                """The package's own handle; get and put are also fault
                points of the user's storage."""

                def get(self):
                    ctx.world.callback(ctx.rank, 'get')
                    return base.get(self)

                def put(self, vec):
                    w = ctx.world
                    key = os.path.basename(self.vec_path)
                    w.callback(ctx.rank, 'put')
                    out = base.put(self, vec)
                    w.puts.append((w.sched.step, ctx.rank, key, None))
                    return out
            cls = FileHandle if kind == 'pickle' else FileHandle
            if not self.run.sc.get('wrap_files', True):
                cls = base
        elif kind == 'mem':
            cls = m.VecHandleInMemory
        else:
            raise HarnessError(kind)
        self.classes[kind] = cls
        return cls

    def handle(self, name, i):
        key = (name, i)
        h = self.handles.get(key)
        if h is None or self.run.sc.get('fresh_handles'):
            h = self.make_handle(name, i)
            self.handles[key] = h
        return h

    def make_handle(self, name, i):
        run = self.run
        spec = run.data.sets[name]
        kind = spec.get('hkind', 'sim')
        cls = self.handle_class(kind)
        base = None
        if spec.get('base') is not None and not spec.get('out'):
            bkey = (name, 'base', i if spec['base'].get('own') else 0)
            base = self.handles.get(bkey)
            if base is None:
                base = self.raw_handle(
                    cls, kind, spec, '%s.base' % name,
                    None if kind != 'mem' else wrap(
                        run.data.bases[name], spec.get('vtype')),
                    None, spec['base'].get('scale'))
                self.handles[bkey] = base
        scale = spec.get('scale')
        if isinstance(scale, list):
            scale = scale[i % len(scale)]
        if spec.get('out'):
            scale = None
        vec = None
        if kind == 'mem' and not spec.get('out'):
            vec = wrap(run.data.raws[name][i], spec.get('vtype'))
        return self.raw_handle(cls, kind, spec, '%s.%d' % (
            spec.get('alias', name), i), vec, base, scale)

    def raw_handle(self, cls, kind, spec, key, vec, base, scale):
        if kind == 'mem':
            return cls(vec, base_vec_handle=base, scale=scale)
        if kind in ('sim', 'duck'):
            return cls(key, base_vec_handle=base, scale=scale)
        path = os.path.join(self.world.scratch, key)
        if kind == 'pickle':
            return cls(path, base_vec_handle=base, scale=scale)
        return cls(path, base_vec_handle=base, scale=scale,
                   is_complex=bool(spec.get('cplx')))

    # array put/get callbacks of the decomposition classes
    def put_array(self, array, dest):
        w = self.world
        w.callback(self.rank, 'put_array', 'put_array %s' % dest)
        data = pickle.dumps(array, 4)
        key = 'arr.' + dest
        if key in w.in_progress:
            w.violate('concurrent-put', 'workers %d and %d write array %s at '
                      'the same time' % (self.rank, w.in_progress[key], dest))
        w.in_progress[key] = self.rank
        w.store.pop(key, None)
        w.step(self.rank, 'writing %s' % dest, 1e-4)
        f = w._due(self.rank, 'put_array_late')
        if f:
            w.fire('put_array_late_raise')
            w.in_progress.pop(key, None)
            raise InjectedFault('put_array failed half way')
        w.store[key] = data
        w.in_progress.pop(key, None)
        w.array_puts.append((w.sched.step, self.rank, dest))

    def get_array(self, src):
        w = self.world
        w.callback(self.rank, 'get_array', 'get_array %s' % src)
        w.array_gets.append((w.sched.step, self.rank, src))
        key = 'arr.' + src
        if key in w.in_progress:
            w.violate('torn-read', 'worker %d read array %s while worker %d '
                      'was writing it' % (self.rank, src, w.in_progress[key]))
        if key not in w.store:
            raise OSError(2, 'no such array', src)
        return pickle.loads(w.store[key])

    # arguments
    def same_list(self, a, hs):
        """Callers may pass one list again, also with other contents."""
        w = self.run.sc.get('lists')
        if w == 'kept':
            k = json.dumps(a, sort_keys=True)
            old = self.lists.get(k)
            if old is not None and len(old) == len(hs) and all(
                    x is y for x, y in zip(old, hs)):
                return old
            self.lists[k] = hs
        elif w == 'slot' and self.slot is not None:
            old = self.lists.get(self.slot)
            if old is not None:
                old[:] = hs
                return old
            self.lists[self.slot] = hs
        return hs

    def call_args(self, op, cls=None):
        slots = cls == 'VectorSpaceHandles' or op['m'] == 'compute_decomp'
        items = list(enumerate(op.get('a', []))) + list(
            (op.get('k') or {}).items())
        out = {}
        for k, x in items:
            self.slot = (op.get('obj'), op['m'], k) if slots else None
            out[k] = self.arg(x)
        self.slot = None
        return [out[k] for k in range(len(op.get('a', [])))], {
            k: v for k, v in out.items() if not isinstance(k, int)}

    def arg(self, a):
        if isinstance(a, dict):
            if 'H' in a:
                name, idx = a['H']
                if a.get('single'):
                    return self.handle(name, idx[0])
                hs = [self.handle(name, i) for i in idx]
                if a.get('tuple'):
                    return tuple(hs)
                hs = self.same_list(a, hs)
                self.arg_lists.append((hs, list(hs)))
                return hs
            if 'arr' in a:
                arr = arr_of(a)
                self.arg_arrays.append((arr, np.array(arr)))
                return arr
            if 'path' in a:
                if self.run.sc.get('array_io') == 'text':
                    return os.path.join(self.world.scratch,
                                        'arr.' + a['path'])
                return a['path']
            if 'range' in a:
                return range(*a['range'])
            if 'np' in a:
                arr = np.array(a['np'])
                self.arg_arrays.append((arr, arr.copy()))
                return arr
            if 'fn' in a:
                return self.fn(a['fn'])
            if 'rankval' in a:
                v = rank_value(a['rankval'], self.rank)
                self.arg_arrays.append((v, copy.deepcopy(v)))
                return v
            if 'M' in a:             # matrix whose columns are the vectors
                m = self.run.data.mat(*a['M'])
                if a.get('as') == 'list':
                    m = m.tolist()
                elif a.get('as') == 'matrix':
                    m = np.matrix(m)
                elif a.get('as') == 'F':
                    m = np.asfortranarray(m)
                self.arg_arrays.append((m, copy.deepcopy(m)))
                return m
            if 'W' in a:
                W = self.run.data.W
                if W is None:
                    return None
                return np.diag(W).copy() if a['W'] == 1 else W.copy()
            if 'op' in a:
                return getattr(self.env.mods['mpi4py.MPI'], a['op'])
            if 'ref' in a:           # attribute of an object
                o = self.objs[a['ref'][0]]
                return getattr(o, a['ref'][1])
            if 'user_op' in a:
                return USER_OPS[a['user_op']]
        if isinstance(a, list):
            a = copy.deepcopy(a)
            self.arg_arrays.append((a, copy.deepcopy(a)))
        return a

    def fn(self, spec):
        """A user function passed to a parallel primitive."""
        w, rank = self.world, self.rank

        def f(*args, **kw):
            w.callback(rank, 'fn', 'fn %s' % spec['name'])
            w.fn_calls.append((w.sched.step, rank, spec['name']))
            if spec.get('raise'):
                raise InjectedFault('user function failed')
            return (spec['name'], spec.get('val'), rank, args,
                    sorted(kw.items()))
        return f


def rank_value(spec, rank):
    """A worker-dependent value for communication primitives."""
    k = spec['kind']
    seed = spec.get('seed', 0) * 1009 + rank
    rng = np.random.RandomState(seed)
    if k == 'int':
        return int(rng.randint(-50, 50))
    if k == 'float':
        return float(rng.randint(-50, 50)) / 4.
    if k == 'array':
        return rng.randint(-9, 10, size=spec.get('shape', [3])).astype(
            spec.get('dtype', 'float64'))
    if k == 'str':
        return 's%d' % rank
    if k == 'list':
        return [int(x) for x in rng.randint(0, 9, size=2)] + [rank]
    if k == 'mat':
        return rng.randint(-2, 3, size=(2, 2)).astype(float)
    if k == 'bool':
        return bool(rng.randint(0, 2))
    if k == 'small':
        return int(rng.randint(0, 3))
    if k == 'none':
        return None
    if k == 'big':
        return rng.randn(spec.get('size', 2000))
    raise HarnessError(k)


def _op_concat(a, b):
    return a + b


def _op_matmul(a, b):
    return a.dot(b)


def _op_left(a, b):
    return '(' + a + b + ')'


def _op_inplace(a, b):
    a += b
    return a


USER_OPS = {'concat': _op_concat, 'matmul': _op_matmul, 'left': _op_left}


def arr_of(a):
    """Array argument: {'arr': {...spec}} or explicit nested list."""
    s = a['arr']
    if isinstance(s, list):
        return np.array(s)
    rng = np.random.RandomState(s['seed'])
    shape = tuple(s['shape'])
    if s.get('kind', 'int') == 'int':
        x = rng.randint(-3, 4, size=shape).astype(float)
        if s.get('cplx'):
            x = x + 1j * rng.randint(-3, 4, size=shape)
    else:
        x = rng.randn(*shape)
        if s.get('cplx'):
            x = x + 1j * rng.randn(*shape)
    if s.get('dtype'):
        x = x.astype(s['dtype'])
    if s.get('rows'):                # another power of two for every row
        x = x * 2. ** np.array(s['rows'], float).reshape(
            (-1,) + (1,) * (x.ndim - 1))
    if s.get('order') == 'F':
        x = np.asfortranarray(x)
    return x


def freeze(v):
    """Picklable, independent copy of a returned value."""
    if isinstance(v, np.ndarray):
        return np.array(v)
    if isinstance(v, tuple):
        if hasattr(v, '_fields'):
            return {k: freeze(x) for k, x in zip(v._fields, v)}
        return tuple(freeze(x) for x in v)
    if isinstance(v, list):
        return [freeze(x) for x in v]
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, (int, float, complex, str, bytes, bool, type(None),
                      np.generic)):
        return v
    if isinstance(v, UVec):
        return np.array(v.a)
    return ('object', type(v).__name__)


def unchanged(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return a == b


def needs_disk(sc):
    return bool(sc.get('disk') or sc.get('array_io') == 'text' or any(
        d.get('hkind') in ('pickle', 'text')
        for d in (sc.get('data') or {}).values()))


class Run(object):
    """One execution of a scenario (one job)."""

    def __init__(self, scenario, decider, scratch=None, store=None,
                 data=None, observer=None, wall_limit=60.0):
        self.sc = scenario
        self.data = data or Data(scenario)
        self.own_scratch = scratch is None
        self.scratch = scratch
        if scratch is None and needs_disk(scenario):
            self.scratch = tempfile.mkdtemp(prefix='dst-', dir=SCRATCH_ROOT)
        cfg = dict(scenario.get('cfg') or {})
        cfg['n'] = scenario['n']
        for k in ('hosts', 'mpi', 'clock', 'faults', 'hetero', 'crash_step'):
            if k in scenario:
                cfg[k] = scenario[k]
        self.world = w = World(cfg, decider, scratch=self.scratch,
                               store=store,
                               max_steps=scenario.get(
                                   'max_steps', step_limit(scenario)),
                               wall_limit=wall_limit)
        w.live, w.peak = {}, {}
        w.puts, w.array_puts, w.array_gets, w.fn_calls = [], [], [], []
        w.tallies = {}
        w.tally = self._tally
        self.results = [[] for _ in range(scenario['n'])]
        self.ctxs = [None] * scenario['n']
        self.import_error = {}
        self.peaks = {}          # (worker, operation) -> live user vectors
        self.observer = observer
        self.cur_op = {}
        self.outcome = None

    def _tally(self, rank, what):
        key = (rank, self.cur_op.get(rank), what)
        t = self.world.tallies
        t[key] = t.get(key, 0) + 1

    def setup_data(self):
        """Writes the input vectors where their handles will look."""
        w = self.world
        for name, spec in self.data.sets.items():
            if spec.get('out'):
                continue
            kind = spec.get('hkind', 'sim')
            items = [('%s.%d' % (spec.get('alias', name), i), v)
                     for i, v in enumerate(self.data.raws[name])]
            if name in self.data.bases:
                items.append(('%s.base' % name, self.data.bases[name]))
            for key, v in items:
                if kind in ('sim', 'duck'):
                    w.store[key] = pickle.dumps(wrap(v, spec.get('vtype')), 4)
                elif kind == 'pickle':
                    with open(os.path.join(self.scratch, key), 'wb') as fh:
                        pickle.dump(wrap(v, spec.get('vtype')), fh, 4)
                elif kind == 'text':
                    a = np.array(v)
                    if a.ndim == 1:
                        a = a[:, None]
                    if np.iscomplexobj(a):
                        a = np.ascontiguousarray(a).view(float)
                    np.savetxt(os.path.join(self.scratch, key), a)

    def out_keys(self):
        out = []
        for name, spec in self.data.sets.items():
            if spec.get('out'):
                out.extend('%s.%d' % (name, i) for i in range(spec['count']))
        return out

    def read_out(self, name, i):
        """Final value of an output vector, or None; reads past the seams."""
        spec = self.data.sets[name]
        key = '%s.%d' % (name, i)
        kind = spec.get('hkind', 'sim')
        if kind in ('sim', 'duck'):
            if key in self.world.in_progress:
                return 'in progress'
            b = self.world.store.get(key)
            return None if b is None else raw(pickle.loads(b))
        if kind == 'mem':
            for ctx in self.ctxs:
                h = ctx.handles.get((name, i))
                if h is not None and h.vec is not None:
                    return raw(h.vec)
            return None
        path = os.path.join(self.scratch, key)
        if not os.path.exists(path):
            return None
        try:
            if kind == 'pickle':
                with _plain_open(path, 'rb') as fh:
                    return raw(pickle.load(fh))
            with _plain_open(path, 'r') as fh:
                rows = [[float(x) for x in line.split()] for line in fh
                        if line.strip()]
            a = np.array(rows)
            if spec.get('cplx'):
                a = a.view(complex)
            return a
        except Exception as exc:
            return 'unreadable: %s' % type(exc).__name__

    def read_array(self, dest):
        if self.sc.get('array_io') == 'text':
            path = os.path.join(self.scratch, 'arr.' + dest)
            if not os.path.exists(path):
                return None
            try:
                with _plain_open(path, 'r') as fh:
                    rows = [[float(x) for x in line.split()] for line in fh
                            if line.strip()]
                return np.array(rows)
            except Exception as exc:
                return 'unreadable: %s' % type(exc).__name__
        key = 'arr.' + dest
        if key in self.world.in_progress:
            return 'in progress'
        b = self.world.store.get(key)
        return None if b is None else pickle.loads(b)

    def main(self, rank, env):
        w = self.world
        ctx = RankCtx(self, rank, env)
        self.ctxs[rank] = ctx
        self.cur_op[rank] = 'import'
        try:
            ctx.modred = env.load('modred')
        except SimKill:
            raise
        except Exception as exc:
            self.import_error[rank] = '%s: %s' % (type(exc).__name__, exc)
            return
        for i, op in enumerate(self.sc['prog']):
            if op.get('only') is not None and rank not in op['only']:
                self.results[rank].append({'skip': True})
                continue
            self.cur_op[rank] = i
            ctx.arg_arrays, ctx.arg_lists = [], []
            rec = {'t0': w.sched.step, 'val': None, 'exc': None}
            w.peak[rank] = w.live.get(rank, 0)
            w.note(rank, 'call %d %s' % (i, op.get('m', op['op'])))
            self.results[rank].append(rec)
            try:
                rec['val'] = freeze(self.exec_op(ctx, op))
            except SimKill:
                rec['killed'] = True
                raise
            except HarnessError:
                raise
            except Exception as exc:
                rec['exc'] = (type(exc).__name__, str(exc)[:300])
                rec['injected'] = isinstance(exc, InjectedFault) or \
                    'simulated' in str(exc)
                exc.__traceback__ = None
                if os.environ.get('DST_TRACE'):
                    import traceback
                    traceback.print_exc()
                del exc
            rec['t1'] = w.sched.step
            rec['done'] = True
            if op['op'] == 'call':
                self.peaks[(rank, i)] = w.peak[rank]
            rec['mutated'] = [not unchanged(a, b)
                              for a, b in ctx.arg_arrays]
            rec['mutated'] += [len(a) != len(b) or any(
                x is not y for x, y in zip(a, b)) for a, b in ctx.arg_lists]
            if rec['exc'] is None and op.get('vis'):
                rec['vis'] = self.snapshot(op['vis'])
            if self.observer is not None:
                self.observer(self, rank, i, op, rec)
            w.note(rank, 'ret %d %s' % (i, rec['exc'] or 'ok'))
            if rec['exc'] is not None and not op.get('catch') and not \
                    self.sc.get('catch_all'):
                return
            w.step(rank, None)
        self.cur_op[rank] = 'end'

    def snapshot(self, what):
        """What storage holds at this instant (no yields)."""
        out = {}
        for name, idx in what.get('vecs', []):
            for i in idx:
                v = self.read_out(name, i)
                out['%s.%d' % (name, i)] = v if v is None or isinstance(
                    v, str) else np.array(v)
        for dest in what.get('arrays', []):
            v = self.read_array(dest)
            out['arr.' + dest] = v if v is None or isinstance(
                v, str) else np.array(v)
        return out

    def exec_op(self, ctx, op):
        kind = op['op']
        m = ctx.modred
        if kind == 'new':
            cls = getattr(m, op['cls'])
            kw = {k: ctx.arg(v) for k, v in (op.get('k') or {}).items()}
            a = [ctx.arg(x) for x in op.get('a', [])]
            if op.get('ip', True):
                kw['inner_product'] = ctx.inner_product()
            if op.get('arrays'):
                if self.sc.get('array_io', 'sim') == 'sim':
                    kw['put_array'] = ctx.put_array
                    if op['arrays'] != 'put':
                        kw['get_array'] = ctx.get_array
            ctx.objs[op['obj']] = cls(*a, **kw)
            return None
        if kind == 'call':
            o = ctx.objs[op['obj']]
            a, kw = ctx.call_args(op, type(o).__name__)
            return getattr(o, op['m'])(*a, **kw)
        if kind == 'func':
            f = m
            for part in op['m'].split('.'):
                f = getattr(f, part)
            a = [ctx.arg(x) for x in op.get('a', [])]
            kw = {k: ctx.arg(v) for k, v in (op.get('k') or {}).items()}
            return f(*a, **kw)
        if kind == 'attr':
            o = ctx.objs[op['obj']]
            return {nm: getattr(o, nm, None) for nm in op['names']}
        if kind == 'set':
            o = ctx.objs[op['obj']]
            for k, v in op['k'].items():
                setattr(o, k, ctx.arg(v))
            return None
        if kind == 'comm':
            c = m.parallel.custom_comm if op.get('custom', True) else \
                m.parallel.comm
            a = [ctx.arg(x) for x in op.get('a', [])]
            kw = {k: ctx.arg(v) for k, v in (op.get('k') or {}).items()}
            return getattr(c, op['m'])(*a, **kw)
        if kind == 'hget':
            v = ctx.handle(*op['h']).get()
            return np.array(raw(v))
        if kind == 'hput':
            v = wrap(arr_of(op['v']), self.data.sets[op['h'][0]].get('vtype'))
            ctx.handle(*op['h']).put(v)
            return None
        if kind == 'forget':
            ctx.handles.clear()
            ctx.lists.clear()
            return None
        if kind == 'py':
            return PY_OPS[op['f']](ctx, op)
        raise HarnessError('op %r' % kind)

    def execute(self):
        self.cur_op = self.world.cur_op
        try:
            self.setup_data_once()
            self.outcome = self.world.run([self.main] * self.sc['n'])
        finally:
            pass
        if self.outcome == 'harness-error':
            raise HarnessError(self.world.sched.detail)
        return self

    def setup_data_once(self):
        if not self.sc.get('_no_setup'):
            self.setup_data()

    def cleanup(self):
        if self.own_scratch and self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)
        for ctx in self.ctxs:
            if ctx is not None:
                ctx.objs.clear()
                ctx.handles.clear()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.cleanup()


from .disk import _real_open as _plain_open  # noqa: E402

PY_OPS = {}


def py_op(f):
    PY_OPS[f.__name__] = f
    return f


def _scratch_root():
    for d in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


SCRATCH_ROOT = _scratch_root()
