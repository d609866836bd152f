"""Reference model: walks a scenario's program and checks every worker's results
against definitions computed independently with numpy."""
import numpy as np
import scipy.linalg

from .harness import arr_of, rank_value


class Violation(Exception):
    def __init__(self, cls, text):
        Exception.__init__(self, '%s: %s' % (cls, text))
        self.cls, self.text = cls, text


def need(cond, cls, text):
    if not cond:
        raise Violation(cls, text)


def is_num(a):
    return isinstance(a, (np.ndarray, np.generic, int, float, complex))


def same(a, b):
    """Bitwise-equal results (arrays, nested tuples, dicts, scalars)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return (a.shape == b.shape and a.dtype == b.dtype and
                bool(np.array_equal(a, b) or
                     (a.dtype.kind in 'fc' and
                      np.array_equal(a, b, equal_nan=True))))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return (type(a) == type(b) and len(a) == len(b) and
                all(same(x, y) for x, y in zip(a, b)))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return type(a) == type(b) and (a == b or (a != a and b != b))


def agree(a, b, tol=1e-11):
    """Equal results, up to rounding of floating-point numbers."""
    num = (np.ndarray, np.generic, float, complex, int)
    if isinstance(a, num) and isinstance(b, num) and not (
            isinstance(a, bool) or isinstance(b, bool)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.dtype.kind not in 'fciu' or y.dtype.kind not in 'fciu':
            return bool(np.array_equal(x, y))
        if np.array_equal(x, y):
            return True
        if x.dtype.kind in 'iu' and y.dtype.kind in 'iu':
            return False
        bad = ~(np.isfinite(x) & np.isfinite(y))
        if np.any(bad):
            return bool(np.array_equal(x, y, equal_nan=True))
        s = max(float(np.max(np.abs(x))), float(np.max(np.abs(y))))
        return bool(np.max(np.abs(x - y)) <= tol * s)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(agree(x, y, tol)
                                        for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(agree(a[k], b[k], tol) for k in a)
    return type(a) == type(b) and bool(a == b)


def close(a, b, scale=None, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    s = scale if scale is not None else max(1.0, float(np.max(np.abs(b))))
    s = max(s, 1e-300)
    return float(np.max(np.abs(a - b))) <= tol * s


def brief(a):
    s = np.array2string(np.asarray(a), precision=5, threshold=40,
                        max_line_width=200).replace('\n', ' ')
    return s if len(s) < 300 else s[:300] + '...'


def scalar_of(x):
    return x


class OpFailed(Exception):
    """This operation failed on every worker (faults allowed)."""


def handle_refs(a):
    """Every handle list named in an operation's arguments."""
    if isinstance(a, dict):
        if 'H' in a:
            yield a['H']
            return
        a = list(a.values())
    if isinstance(a, (list, tuple)):
        for x in a:
            for h in handle_refs(x):
                yield h


def path_refs(a):
    if isinstance(a, dict):
        if 'path' in a:
            yield a['path']
            return
        a = list(a.values())
    if isinstance(a, (list, tuple)):
        for x in a:
            for h in path_refs(x):
                yield h


class Model(object):
    """Reference model of a scenario: walks the program once, checking the
    values every worker got (``run.results``) against independent numpy
    definitions.

    ``faults``: injected failures are allowed, so an operation may fail or not
    return; on workers where it returned normally everything is still checked.
    """

    def __init__(self, run, check_mutation=True, faults=False):
        self.run = run
        self.sc = run.sc
        self.data = run.data
        self.n = run.sc['n']
        self.objs = {}
        self.outs = {}          # (set, i) -> expected raw value
        # size of the vectors
        self.unit = max([x.get('mag') or 0. for x in
                         run.data.sets.values()] + [0.]) or 1.
        self.out_tol = {}
        self.out_scale = {}          # what rounding errors are relative to
        self.arrays = {}        # dest -> expected value
        self.array_count = {}
        self.array_tol = {}
        self.loose_keys = set()     # outputs of operations nobody acknowledged
        self.loose_arrays = set()
        self.check_mutation = check_mutation
        self.results = run.results
        self.put_count = {}
        self.faults = faults
        self.acked = 0
        self.log = []           # (operation, agreed value)

    # -- access to results -------------------------------------------------
    def ranks(self, i):
        op = self.sc['prog'][i]
        for r in range(self.n):
            if op.get('only') is not None and r not in op['only']:
                continue
            yield r

    def recs(self, i):
        for r in self.ranks(i):
            res = self.results[r]
            if not (i < len(res) and res[i].get('done')):
                if self.faults:
                    continue
                raise Violation('did-not-return',
                                'operation %d (%s) did not return on worker '
                                '%d' % (i, self.opname(i), r))
            yield r, res[i]

    def opname(self, i):
        op = self.sc['prog'][i]
        return op.get('m', op['op'])

    def values(self, i):
        out = []
        for r, rec in self.recs(i):
            if rec['exc'] is not None:
                if self.faults:
                    continue
                raise Violation('unexpected-exception',
                                'operation %d (%s) raised %s: %s on worker %d'
                                % (i, self.opname(i), rec['exc'][0],
                                   rec['exc'][1], r))
            if self.check_mutation:
                need(not any(rec.get('mutated') or []), 'argument-mutated',
                     'operation %d (%s) modified an argument' % (
                         i, self.opname(i)))
            out.append((r, rec['val']))
        if self.faults:
            if not out:
                raise OpFailed()
            self.acked += 1
        return out

    def agreed(self, i):
        """The value every worker returned; they must be identical."""
        vals = self.values(i)
        r0, v0 = vals[0]
        for r, v in vals[1:]:
            if not agree(v, v0):
                raise Violation(
                    'workers-disagree',
                    'operation %d (%s) returned different results on workers '
                    '%d and %d: %s' % (
                        i, self.opname(i), r0, r, _where_differs(v0, v)))
        self.log.append((i, v0))
        return v0

    # -- walking ---------------------------------------------------------------
    def walk(self):
        for i, op in enumerate(self.sc['prog']):
            self.i, self.op = i, op
            f = getattr(self, 'op_' + op['op'])
            o = self.objs.get(op.get('obj'))
            try:
                if o and o.get('tainted') and op['op'] == 'call' and \
                        op['m'] != 'compute_decomp':
                    raise OpFailed()
                f(i, op)
                if o and op.get('m') == 'compute_decomp':
                    o.pop('tainted', None)
            except OpFailed:
                # after a failed call nothing is promised about the object
                # until it is computed anew
                if o and o['cls'] != 'VectorSpaceHandles':
                    o['tainted'] = True
                if not self.entered(i):
                    break
                for name, idx in handle_refs([op.get('a'), op.get('k')]):
                    if self.data.sets[name].get('out'):
                        self.loose_keys.update((name, j) for j in idx)
                self.loose_arrays.update(path_refs([op.get('a'),
                                                    op.get('k')]))
                continue
            if op.get('vis'):
                self.check_vis(i, op)
        self.finish()
        return self

    def entered(self, i):
        return any(i < len(self.results[r]) for r in self.ranks(i))

    def finish(self):
        self.check_outputs()
        self.check_arrays()
        self.check_inputs_untouched()

    def check_vis(self, i, op):
        """What a worker saw in storage at the moment its call returned."""
        for r, rec in self.recs(i):
            if rec['exc'] is not None or 'vis' not in rec:
                continue
            for name, idx in op['vis'].get('vecs', []):
                for j in idx:
                    if (name, j) not in self.outs:
                        continue
                    v = rec['vis']['%s.%d' % (name, j)]
                    need(v is not None and not isinstance(v, str) and
                         self.veq(v, self.outs[(name, j)], name,
                                  (name, j)),
                         'not-visible', 'when operation %d (%s) returned on '
                         'worker %d, output %s.%d was %s, expected %s' % (
                             i, self.opname(i), r, name, j,
                             v if v is None or isinstance(v, str)
                             else brief(v), brief(self.outs[(name, j)])))
            for dest in op['vis'].get('arrays', []):
                if dest not in self.arrays:
                    continue
                v = rec['vis']['arr.' + dest]
                need(self.array_matches(v, dest), 'not-visible',
                     'when operation %d (%s) returned on worker %d, array %s '
                     'was %s, expected %s' % (
                         i, self.opname(i), r, dest,
                         v if v is None or isinstance(v, str) else brief(v),
                         brief(self.arrays[dest])))

    def array_matches(self, v, dest):
        if v is None or isinstance(v, str):
            return False
        v, exp = np.asarray(v), np.asarray(self.arrays[dest])
        if self.sc.get('array_io') == 'text':
            e = np.array(exp)
            if e.ndim < 2:
                e = e.reshape((-1, 1))
            if np.iscomplexobj(e):
                e = np.ascontiguousarray(e, dtype=complex).view(float)
            exp = e
        return agree(v, exp, self.array_tol[dest])

    def check_arrays(self):
        for dest, exp in sorted(self.arrays.items()):
            v = self.run.read_array(dest)
            need(v is not None, 'array-missing',
                 'array %s was never stored' % dest)
            need(self.array_matches(v, dest), 'wrong-array',
                 'stored array %s is %s, expected %s' % (
                     dest, v if isinstance(v, str) else brief(v), brief(exp)))
        if self.sc.get('array_io', 'sim') != 'sim':
            return
        counts = {}
        for step, r, dest in self.run.world.array_puts:
            counts.setdefault(dest, []).append(r)
        for dest, ranks in sorted(counts.items()):
            if dest in self.loose_arrays:
                continue
            need(dest in self.array_count, 'stray-put',
                 'worker %d stored array %s, which no operation asked for' % (
                     ranks[0], dest))
            need(len(ranks) == self.array_count[dest], 'put-count',
                 'array %s was stored %d times (by workers %s), expected %d'
                 % (dest, len(ranks), ranks, self.array_count[dest]))

    def expect_array(self, dest, val, tol=1e-15):
        self.arrays[dest] = np.array(val)
        self.array_tol[dest] = tol
        self.array_count[dest] = self.array_count.get(dest, 0) + 1

    def op_forget(self, i, op):
        self.values(i)

    def op_new(self, i, op):
        if op.get('raises'):
            return self.must_raise(i, op)
        self.values(i)
        self.objs[op['obj']] = {'cls': op['cls'], 'k': op.get('k') or {},
                                'a': op.get('a', [])}

    def op_call(self, i, op):
        if op.get('raises'):
            return self.must_raise(i, op)
        o = self.objs[op['obj']]
        cls = o['cls']
        f = getattr(self, 'm_%s_%s' % (cls, op['m']), None) or \
            getattr(self, 'm_any_' + op['m'], None)
        if f is None:
            raise KeyError('no model for %s.%s' % (cls, op['m']))
        f(i, op, o)

    def op_func(self, i, op):
        if op.get('raises'):
            return self.must_raise(i, op)
        getattr(self, 'f_' + op['m'].replace('.', '_'))(i, op)

    def op_attr(self, i, op):
        self.m_attr(i, op, self.objs[op['obj']], self.agreed(i))

    def op_set(self, i, op):
        self.values(i)
        o = self.objs[op['obj']]
        for k, v in op['k'].items():
            o[k] = self.argval(v)

    def op_hget(self, i, op):
        name, j = op['h']
        exp = self.outs.get((name, j))
        if exp is None:
            exp = self.data.truth[name][j]
        for r, v in self.values(i):
            need(self.veq(v, exp, name), 'wrong-vector',
                 'worker %d got %s from %s.%d, expected %s' % (
                     r, brief(v), name, j, brief(exp)))

    def op_hput(self, i, op):
        self.values(i)
        self.expect_out(tuple(op['h']), arr_of(op['v']))

    def op_py(self, i, op):
        self.values(i)

    def must_raise(self, i, op):
        for r, rec in self.recs(i):
            need(rec['exc'] is not None, 'missing-exception',
                 'operation %d (%s) returned on worker %d although %s' % (
                     i, op.get('m', op['op']), r, op['raises'].get('why', '')))
            allowed = op['raises'].get('types')
            if allowed:
                need(rec['exc'][0] in allowed, 'wrong-exception',
                     'operation %d raised %s: %s on worker %d, expected %s' % (
                         i, rec['exc'][0], rec['exc'][1], r,
                         '/'.join(allowed)))

    # -- helpers -----------------------------------------------------------------
    def argval(self, a):
        if isinstance(a, dict):
            if 'arr' in a:
                return arr_of(a)
            if 'H' in a:
                return a
            if 'np' in a:
                return np.array(a['np'])
            if 'range' in a:
                return list(range(*a['range']))
        return a

    def hidx(self, a):
        """(set, indices) of a handle-list argument."""
        name, idx = a['H'] if 'H' in a else a['M']
        return name, list(idx)

    def args(self, op, names):
        """Positional and keyword arguments by name."""
        out = dict(zip(names, op.get('a', [])))
        out.update(op.get('k') or {})
        return out

    def truth_vec(self, name, j):
        if (name, j) in self.outs:
            return self.outs[(name, j)]
        return self.data.truth[name][j]

    def mat(self, name, idx):
        return np.array([np.ravel(self.truth_vec(name, j)) for j in idx]).T

    def gram(self, n1, i1, n2, i2):
        X, Y = self.mat(n1, i1), self.mat(n2, i2)
        if X.size == 0 or Y.size == 0:
            return np.zeros((len(i1), len(i2)))
        W = self.data.W
        return X.conj().T.dot(Y if W is None else W.dot(Y))

    def is_exact(self, *names):
        for nm in names:
            s = self.data.sets[nm]
            if s.get('out') or s.get('kind', 'int') != 'int' or \
                    s.get('gen') == 'lti':
                return False
        return True

    def veq(self, v, exp, name, key=None):
        if isinstance(v, str) or v is None:
            return False
        v, exp = np.asarray(v), np.asarray(exp)
        if v.size != exp.size:
            return False
        if v.shape != exp.shape and not (
                self.data.sets[name].get('hkind') == 'text' and
                v.squeeze().shape == exp.squeeze().shape):
            return False
        s = self.out_scale.get(key)
        if s is not None and exp.size:
            s = max(s * 1e-3, float(np.max(np.abs(exp))))
        return close(np.ravel(v), np.ravel(exp), scale=s,
                     tol=self.out_tol.get(name, 1e-9))

    def expect_out(self, key, val, scale=None):
        self.outs[key] = np.array(val)
        self.out_scale[key] = scale
        self.put_count[key] = self.put_count.get(key, 0) + 1

    def gram_size(self, n1, i1, n2, i2):
        """What rounding errors of inner products are relative to."""
        X, Y = np.abs(self.mat(n1, i1)), np.abs(self.mat(n2, i2))
        if X.size == 0 or Y.size == 0:
            return np.zeros((len(i1), len(i2)))
        W = self.data.W
        return X.T.dot(Y if W is None else np.abs(W).dot(Y))

    def check_gram(self, i, val, exp, exact, what, size):
        need(isinstance(val, np.ndarray), 'wrong-result',
             '%s is not an array' % what)
        need(val.shape == exp.shape, 'wrong-shape',
             '%s has shape %s, expected %s' % (what, val.shape, exp.shape))
        if exact:
            bad = val != exp
        else:
            bad = ~(np.abs(val - exp) <= 1e-10 * size)
        if np.any(bad):
            j = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation('wrong-result', '%s: element %s is %r, expected '
                            '%r' % (what, j, val[j], exp[j]))

    # -- vector space -----------------------------------------------------------
    def m_any_compute_inner_product_array(self, i, op, o):
        a = self.args(op, ['row_vec_handles', 'col_vec_handles'])
        rn, ri = self.hidx(a['row_vec_handles'])
        cn, ci = self.hidx(a['col_vec_handles'])
        val = self.agreed(i)
        self.check_gram(i, val, self.gram(rn, ri, cn, ci),
                        self.is_exact(rn, cn), 'inner product array',
                        self.gram_size(rn, ri, cn, ci))

    def m_any_compute_symm_inner_product_array(self, i, op, o):
        a = self.args(op, ['vec_handles'])
        nm, idx = self.hidx(a['vec_handles'])
        val = self.agreed(i)
        self.check_gram(i, val, self.gram(nm, idx, nm, idx),
                        self.is_exact(nm), 'symmetric inner product array',
                        self.gram_size(nm, idx, nm, idx))
        need(np.array_equal(np.triu(val, 1), np.tril(val, -1).conj().T),
             'not-hermitian',
             'symmetric inner product array is not exactly Hermitian')

    def m_any_lin_combine(self, i, op, o):
        a = self.args(op, ['sum_vec_handles', 'basis_vec_handles',
                           'coeff_array', 'coeff_array_col_indices'])
        self.agreed(i)
        sn, si = self.hidx(a['sum_vec_handles'])
        bn, bi = self.hidx(a['basis_vec_handles'])
        c = np.array(self.argval(a['coeff_array']))
        if c.ndim < 2:
            c = c.reshape((1, -1)) if len(bi) == 1 else c.reshape((-1, 1))
        cols = a.get('coeff_array_col_indices')
        if cols is not None:
            cols = self.argval(cols)
            cols = list(cols) if not isinstance(cols, int) else [cols]
            c = c[:, cols]
        self.combine(sn, si, bn, bi, c)

    def combine(self, sn, si, bn, bi, c):
        vecs = [self.truth_vec(bn, j) for j in bi]
        for k, j in enumerate(si):
            val = sum(vecs[b] * c[b, k] for b in range(len(bi)))
            size = sum(np.abs(vecs[b]) * abs(c[b, k]) for b in range(len(bi)))
            self.expect_out((sn, j), val, float(np.max(size)) if np.size(
                size) else None)

    # -- outputs ---------------------------------------------------------------
    def check_outputs(self):
        for (name, j), exp in sorted(self.outs.items()):
            v = self.run.read_out(name, j)
            need(v is not None, 'output-missing',
                 'output vector %s.%d was never put' % (name, j))
            need(not isinstance(v, str), 'output-damaged',
                 'output vector %s.%d is %s' % (name, j, v))
            need(self.veq(v, exp, name, (name, j)), 'wrong-output',
                 'output vector %s.%d is %s, expected %s' % (
                     name, j, brief(v), brief(exp)))
        self.check_put_counts()

    def check_put_counts(self):
        if not self.sc.get('count_puts', True):
            return
        counts = {}
        for step, r, key, crc in self.run.world.puts:
            counts.setdefault(key, []).append(r)
        outs = {'%s.%d' % k: c for k, c in self.put_count.items()}
        loose = set('%s.%d' % k for k in self.loose_keys)
        for key, ranks in sorted(counts.items()):
            if key in loose:
                continue
            need(key in outs, 'stray-put', 'worker %d put %s, which no '
                 'operation asked for' % (ranks[0], key))
            need(len(ranks) == outs[key], 'put-count',
                 '%s was put %d times (by workers %s), expected %d' % (
                     key, len(ranks), ranks, outs[key]))

    def check_inputs_untouched(self):
        for name, spec in self.data.sets.items():
            if spec.get('out') or spec.get('hkind') != 'mem':
                continue
            for ctx in self.run.ctxs:
                for key, h in ctx.handles.items():
                    if len(key) != 2:
                        continue
                    nm, j = key
                    if nm == name:
                        v = h.vec.a if hasattr(h.vec, 'a') else h.vec
                        need(np.array_equal(v, self.data.raws[name][j]),
                             'input-mutated',
                             'input vector %s.%s was modified in memory' % (
                                 nm, j))

    # -- shared decomposition pieces ---------------------------------------
    def gap_ok(self, vals):
        """True where neighbouring values are well separated."""
        v = np.sort(np.abs(vals))[::-1]
        ok = np.ones(v.size, bool)
        for k in range(v.size):
            for m in (k - 1, k + 1):
                if 0 <= m < v.size and abs(v[k] - v[m]) < 1e-3 * v[0]:
                    ok[k] = False
        return ok

    def check_kept(self, got, full, atol, rtol, what, maxnum=None,
                   noise=1e-13):
        """``got`` must be the leading values of ``full`` that exceed the
        tolerances; values near a threshold may go either way."""
        full = np.sort(np.abs(full))[::-1]
        top = full[0] if full.size else 0.
        thr = 0.
        if atol is not None:
            thr = max(thr, atol)
        if rtol is not None:
            thr = max(thr, rtol * top)
        lo = int(np.sum(full > max(thr * 1.01, noise * top * 100)))
        hi = int(np.sum(full > thr * 0.99 - noise * top))
        if thr <= noise * top:
            hi = full.size
        if maxnum is not None:
            lo, hi = min(lo, maxnum), min(hi, maxnum)
        got = np.asarray(got)
        need(got.ndim == 1, 'wrong-shape', '%s has shape %s, expected a 1D '
             'array' % (what, got.shape))
        need(lo <= got.size <= hi, 'wrong-truncation',
             '%d values of %s were kept, expected %s (values %s, atol %s, '
             'rtol %s, max %s)' % (
                 got.size, what, lo if lo == hi else '%d to %d' % (lo, hi),
                 brief(full), atol, rtol, maxnum))
        need(close(got, full[:got.size], scale=max(top, 1e-300), tol=1e-8),
             'wrong-result', '%s are %s, expected %s' % (
                 what, brief(got), brief(full[:got.size])))
        return got.size

    def check_eigh(self, C, vals, vecs, what):
        k = vals.size
        s = max(float(np.abs(C).max()), 1e-300) if C.size else 1.
        need(vecs.shape == (C.shape[0], k), 'wrong-shape',
             '%s eigenvectors have shape %s, expected %s' % (
                 what, vecs.shape, (C.shape[0], k)))
        need(close(vecs.conj().T.dot(vecs), np.eye(k), tol=1e-8),
             'wrong-result', '%s eigenvectors are not orthonormal' % what)
        need(close(C.dot(vecs), vecs * vals, scale=s * C.shape[0], tol=1e-9),
             'wrong-result', '%s eigenvectors do not satisfy the eigenvalue '
             'equation' % what)

    def atols(self, a):
        return a.get('atol', 1e-13), a.get('rtol')

    def mode_args(self, a, hkey):
        idx = self.argval(a['mode_indices'])
        idx = [idx] if isinstance(idx, int) else list(idx)
        sn, si = self.hidx(a['mode_handles'])
        if a.get(hkey) is not None:
            return idx, sn, si, self.hidx(a[hkey])
        return idx, sn, si, None

    # -- POD -----------------------------------------------------------------
    def m_PODHandles_compute_decomp(self, i, op, o):
        if op.get('bare'):
            return self.bare(i, op, 'PODHandles')
        a = self.args(op, ['vec_handles', 'atol', 'rtol'])
        nm, idx = self.hidx(a['vec_handles'])
        o['vecs'] = (nm, idx)
        C = self.gram(nm, idx, nm, idx)
        o['C'] = C
        vals, vecs = self.agreed(i)
        self.pod_decomp(o, C, vals, vecs, *self.atols(a))

    def bare(self, i, op, cls):
        """Nothing but rounding errors separates what is kept from what is
        not: only positive eigenvalues can be used."""
        val = self.agreed(i)
        nms = ['vec_handles'] + ([] if cls[0] == 'P' else ['adv_vec_handles'])
        a = self.args(op, nms + ['atol', 'rtol', 'max_num_eigvals'])
        X = Y = self.hidx(a['vec_handles'])
        if cls[0] != 'P':
            if a.get('adv_vec_handles') is None:
                X, Y = (X[0], X[1][:-1]), (X[0], X[1][1:])
            else:
                Y = self.hidx(a['adv_vec_handles'])
        full = self.gram(X[0], X[1], X[0], X[1])
        if cls[0] == 'T':
            full = full + self.gram(Y[0], Y[1], Y[0], Y[1])
        self.check_kept(val[0 if cls[0] == 'P' else 3],
                        np.linalg.eigvalsh(full), *self.atols(a),
                        what='eigenvalues', maxnum=a.get('max_num_eigvals'))
        for k in {'P': [0], 'D': [3], 'T': [3, 5]}[cls[0]]:
            need(np.all(np.asarray(val[k]) > 0), 'wrong-result',
                 'eigenvalues %s of a correlation array were kept' % (
                     np.asarray(val[k]).tolist(),))

    def pod_decomp(self, o, C, vals, vecs, atol, rtol):
        full = np.linalg.eigvalsh(C)
        self.check_kept(vals, full, atol, rtol, 'POD eigenvalues')
        self.check_eigh(C, vals, vecs, 'POD')
        o['vals'], o['V'] = vals, vecs

    def m_PODHandles_compute_eigendecomp(self, i, op, o):
        self.agreed(i)
        a = self.args(op, ['atol', 'rtol'])
        o['pending'] = self.atols(a)
        if 'correlation_array' in o:
            o['C'] = np.asarray(o.pop('correlation_array'))

    def m_PODHandles_compute_modes(self, i, op, o):
        self.agreed(i)
        a = self.args(op, ['mode_indices', 'mode_handles', 'vec_handles'])
        idx, sn, si, h = self.mode_args(a, 'vec_handles')
        coef = o['V'].dot(np.diag(o['vals'] ** -0.5))[:, idx]
        self.tol_for(sn, o['vals'])
        self.combine(sn, si, *(self.source(o, 'vecs', h) + (coef,)))

    def source(self, o, key, h):
        """The vectors that modes are made of: those named, else the stored.

        Vectors unrelated to the decomposition (``other``) are not what its
        coefficients refer to.
        """
        if not h:
            return tuple(o[key])
        if not self.data.sets[h[0]].get('other'):
            o[key] = h
        return tuple(h)

    def tol_for(self, sn, vals):
        vals = np.abs(vals)
        r = float(np.max(vals) / np.min(vals)) if vals.size else 1.
        self.out_tol[sn] = max(self.out_tol.get(sn, 0), 1e-9 * max(1., r ** .5))

    def m_PODHandles_compute_proj_coeffs(self, i, op, o):
        val = self.agreed(i)
        o['proj_coeffs'] = val
        exp = np.diag(o['vals'] ** 0.5).dot(o['V'].conj().T)
        need(val.shape == exp.shape and close(
            val, exp, float(np.abs(exp).max())), 'wrong-result',
             'POD projection coefficients are %s, expected %s' % (
                 brief(val), brief(exp)))
        self.proj_def('POD', val, self.modes_mat(o, o['V'], o['vals']),
                      o.get('vecs'), o['vals'])

    def modes_mat(self, o, V, vals, vecs=None):
        vecs = vecs or o.get('vecs')
        if vecs is None:
            return None
        return self.mat(*vecs).dot(V).dot(np.diag(np.asarray(vals) ** -0.5))

    def proj_def(self, what, val, modes, vecs, vals, X=None):
        """Coefficients are inner products of (adjoint) modes and vectors."""
        if modes is None:
            return
        X = self.mat(*vecs) if X is None else X
        W = self.data.W
        exp = modes.conj().T.dot(X if W is None else W.dot(X))
        s = float(np.abs(exp).max()) if exp.size else 1.
        r = float(np.max(np.abs(vals)) / np.min(np.abs(vals))) \
            if np.size(vals) else 1.
        need(val.shape == exp.shape and close(
            val, exp, scale=s * max(1., r ** .5), tol=1e-8), 'wrong-result',
            '%s projection coefficients are not the inner products with the '
            'modes: %s, expected %s' % (what, brief(val), brief(exp)))

    def m_attr(self, i, op, o, val):
        """Attributes read back after operations whose results they hold."""
        cls = o['cls']
        if o.get('pending') is not None:
            f = getattr(self, 'pend_' + cls)
            f(o, val)
            o['pending'] = None
        for k, v in val.items():
            exp = o.get('exp', {}).get(k)
            tol = 1e-9
            if exp is None and k in KEYS[cls] and not o.get('tainted'):
                exp = self.known(o, k)
                tol = 1e-9 if k in INEXACT else 1e-15
            if exp is not None:
                need(v is not None and np.shape(v) == np.shape(exp) and
                     close(v, exp, tol=tol),
                     'wrong-result', 'attribute %s is %s, expected %s' % (
                         k, None if v is None else brief(v), brief(exp)))
        for k, v in (o.get('restored') or {}).items():
            if k in val:
                need(val[k] is not None and (same(
                    np.asarray(val[k]), np.asarray(v)) or
                    (k in INEXACT and not self.sc.get('saved') and agree(
                        np.asarray(val[k]), np.asarray(v), 1e-10))),
                    'restore-mismatch', 'restored %s is %s, saved %s' % (
                        k, brief(val[k]) if val[k] is not None else None,
                        brief(v)))

    def pend_PODHandles(self, o, val):
        self.pod_decomp(o, o['C'], val['eigvals'], val['eigvecs'],
                        *o['pending'])

    # -- BPOD -----------------------------------------------------------------
    def m_BPODHandles_compute_decomp(self, i, op, o):
        a = self.args(op, ['direct_vec_handles', 'adjoint_vec_handles',
                           'num_inputs', 'num_outputs', 'atol', 'rtol'])
        o['lti'] = op.get('lti')
        dn, di = self.hidx(a['direct_vec_handles'])
        an, ai = self.hidx(a['adjoint_vec_handles'])
        o['dvecs'], o['avecs'] = (dn, di), (an, ai)
        G = self.gram(an, ai, dn, di)
        H = G
        o['H'] = H
        s, U, V = self.agreed(i)
        self.svd_check(o, H, s, U, V, *self.atols(a))

    def svd_check(self, o, H, s, U, V, atol, rtol):
        full = np.linalg.svd(H, compute_uv=False)
        k = self.check_kept(s, full, atol, rtol, 'Hankel singular values')
        need(U.shape == (H.shape[0], k) and V.shape == (H.shape[1], k),
             'wrong-shape', 'singular vectors have shapes %s and %s' % (
                 U.shape, V.shape))
        sc = max(float(np.abs(H).max()), 1e-300) * max(H.shape)
        for nm, M in (('left', U), ('right', V)):
            need(close(M.conj().T.dot(M), np.eye(k), tol=1e-8),
                 'wrong-result', '%s singular vectors not orthonormal' % nm)
        need(close(H.dot(V), U * s, scale=sc) and
             close(H.conj().T.dot(U), V * s, scale=sc), 'wrong-result',
             'singular vectors do not match the Hankel array')
        o['s'], o['U'], o['V'] = s, U, V
        o['exp'] = {'Hankel_array': H}

    def m_BPODHandles_compute_SVD(self, i, op, o):
        self.agreed(i)
        o['pending'] = self.atols(self.args(op, ['atol', 'rtol']))
        if 'Hankel_array' in o:
            o['H'] = np.asarray(o.pop('Hankel_array'))

    def pend_BPODHandles(self, o, val):
        self.svd_check(o, o['H'], val['sing_vals'], val['L_sing_vecs'],
                       val['R_sing_vecs'], *o['pending'])

    def m_BPODHandles_compute_direct_modes(self, i, op, o):
        self.bpod_modes(i, op, o, 'direct_vec_handles', 'dvecs', 'V')

    def m_BPODHandles_compute_adjoint_modes(self, i, op, o):
        self.bpod_modes(i, op, o, 'adjoint_vec_handles', 'avecs', 'U')

    def bpod_modes(self, i, op, o, hkey, vkey, mkey):
        self.agreed(i)
        a = self.args(op, ['mode_indices', 'mode_handles', hkey])
        idx, sn, si, h = self.mode_args(a, hkey)
        coef = o[mkey].dot(np.diag(o['s'] ** -0.5))[:, idx]
        self.tol_for(sn, o['s'])
        self.combine(sn, si, *(self.source(o, vkey, h) + (coef,)))

    def m_BPODHandles_compute_direct_proj_coeffs(self, i, op, o):
        self.bpod_proj(i, o, 'V', 'direct', 'avecs', 'U', 'dvecs')

    def m_BPODHandles_compute_adjoint_proj_coeffs(self, i, op, o):
        self.bpod_proj(i, o, 'U', 'adjoint', 'dvecs', 'V', 'avecs')

    def bpod_proj(self, i, o, key, what, mv, mk, xv):
        val = self.agreed(i)
        exp = np.diag(o['s'] ** 0.5).dot(o[key].conj().T)
        o[what + '_proj_coeffs'] = val
        need(val.shape == exp.shape and close(
            val, exp, float(np.abs(exp).max())), 'wrong-result',
             'BPOD %s projection coefficients are %s, expected %s' % (
                 what, brief(val), brief(exp)))
        # for Hankel-structured data they are inner products with the modes
        # of the other kind
        if o.get('lti') and o.get(mv) and o.get(xv):
            modes = self.mat(*o[mv]).dot(o[mk]).dot(np.diag(o['s'] ** -0.5))
            self.proj_def('BPOD ' + what, val, modes, o[xv], o['s'])

    # -- DMD -------------------------------------------------------------------
    def dmd_inputs(self, a, o):
        nm, idx = self.hidx(a['vec_handles'])
        if a.get('adv_vec_handles') is not None:
            an, ai = self.hidx(a['adv_vec_handles'])
            o['vecs'], o['adv'] = (nm, idx), (an, ai)
            o['seq'] = False
        else:
            o['vecs'], o['adv'] = (nm, idx[:-1]), (nm, idx[1:])
            o['seq'] = True
        v, w = o['vecs'], o['adv']
        o['C'] = self.gram(v[0], v[1], v[0], v[1])
        o['Cx'] = self.gram(v[0], v[1], w[0], w[1])
        o['Ca'] = self.gram(w[0], w[1], w[0], w[1])

    def m_DMDHandles_compute_decomp(self, i, op, o):
        if op.get('bare'):
            return self.bare(i, op, 'DMDHandles')
        a = self.args(op, ['vec_handles', 'adv_vec_handles', 'atol', 'rtol',
                           'max_num_eigvals'])
        self.dmd_inputs(a, o)
        lam, R, L, s, V = self.agreed(i)
        self.dmd_decomp(o, lam, R, L, s, V, self.atols(a),
                        a.get('max_num_eigvals'))

    def dmd_decomp(self, o, lam, R, L, s, V, tols, maxnum):
        C, Cx = o['C'], o['Cx']
        full = np.linalg.eigvalsh(C)
        self.check_kept(s, full, tols[0], tols[1],
                        'correlation array eigenvalues', maxnum)
        self.check_eigh(C, s, V, 'correlation array')
        self.low_order(o, lam, R, L, s, V, Cx, C)
        o['exp'] = {'correlation_array': C, 'cross_correlation_array': Cx}

    def unit_of(self, vecs):
        """The size of these vectors."""
        return self.data.sets[vecs[0]].get('mag') or 1. if vecs else self.unit

    def low_order(self, o, lam, R, L, s, V, Cx, C):
        k = s.size
        Si = np.diag(s ** -0.5)
        A = Si.dot(V.conj().T).dot(Cx).dot(V).dot(Si)
        cond = float(np.max(s) / np.min(s)) if k else 1.
        # rounding errors of the cross correlations
        err = float(np.abs(Cx).max())
        if o.get('Ca') is not None:
            err = max(err, float(np.abs(C).max() *
                                 np.abs(o['Ca']).max()) ** .5)
        sc = max(err / float(np.max(s)), float(np.abs(A).max())) * max(
            1., cond ** .5) if k else 1.
        lam = np.asarray(lam)
        need(lam.shape == (k,), 'wrong-shape',
             'DMD eigenvalues have shape %s, expected %s' % (lam.shape, (k,)))
        need(R.shape == (k, k) and L.shape == (k, k), 'wrong-shape',
             'low-order eigenvectors have shapes %s, %s' % (R.shape, L.shape))
        nL = max(1., float(np.abs(L).max())) if k else 1.
        need(close(A.dot(R), R * lam, scale=sc, tol=1e-7), 'wrong-result',
             'right low-order eigenvectors do not satisfy the eigenvalue '
             'equation')
        need(close(A.conj().T.dot(L), L * np.conj(lam), scale=sc * nL,
                   tol=1e-7),
             'wrong-result', 'left low-order eigenvectors do not satisfy the '
             'eigenvalue equation')
        need(close(L.conj().T.dot(R), np.eye(k), scale=nL, tol=1e-7),
             'wrong-result', 'low-order eigenvectors are not biorthonormal')
        need(close(np.sum(np.abs(R) ** 2, axis=0), np.ones(k), tol=1e-8),
             'wrong-result', 'right low-order eigenvectors do not have unit '
             'norm')
        ref = scipy.linalg.eigvals(A) if k else np.zeros(0)
        need(match_sets(lam, ref, 1e-4 * sc), 'wrong-result',
             'DMD eigenvalues are %s, expected %s' % (brief(lam), brief(ref)))
        o.update(lam=lam, R=R, L=L, s=s, Vs=V, A=A, cond=cond * nL,
                 lamsc=sc / max(1., cond ** .5))

    def m_DMDHandles_compute_eigendecomp(self, i, op, o):
        self.agreed(i)
        a = self.args(op, ['atol', 'rtol', 'max_num_eigvals'])
        o['pending'] = (self.atols(a), a.get('max_num_eigvals'))
        for k, d in (('correlation_array', 'C'),
                     ('cross_correlation_array', 'Cx'),
                     ('adv_correlation_array', 'Ca')):
            if k in o:
                o[d] = np.asarray(o.pop(k))

    m_TLSqrDMDHandles_compute_eigendecomp = m_DMDHandles_compute_eigendecomp

    def pend_DMDHandles(self, o, val):
        self.dmd_decomp(o, val['eigvals'], val['R_low_order_eigvecs'],
                        val['L_low_order_eigvecs'],
                        val['correlation_array_eigvals'],
                        val['correlation_array_eigvecs'], *o['pending'])

    def dmd_T(self, o):
        """Linear map from snapshots to (projected) POD coordinates."""
        T = o['Vs'].dot(np.diag(o['s'] ** -0.5))
        if o.get('P') is not None:
            T = o['P'].dot(T)
        return T

    def dmd_modes(self, i, op, o, hkey, which):
        self.agreed(i)
        a = self.args(op, ['mode_indices', 'mode_handles', hkey])
        idx, sn, si, h = self.mode_args(a, hkey)
        T = self.dmd_T(o)
        if which == 'exact':
            coef = T.dot(o['R']).dot(np.diag(o['lam'] ** -1.))
            src = self.source(o, 'adv', h)
            self.out_tol[sn] = 1e-8 * max(
                1., o['cond'] ** .5 / max(1e-3, float(np.min(np.abs(
                    o['lam']))) / o.get('lamsc', 1.)))
        else:
            coef = T.dot(o['R'] if which == 'proj' else o['L'])
            if h:
                hn, hi = h
                if len(hi) - coef.shape[0] == 1:
                    hi = hi[:-1]
                h = hn, hi
            src = self.source(o, 'vecs', h)
            self.out_tol[sn] = 1e-8 * max(1., o['cond'] ** .5)
        self.combine(sn, si, src[0], src[1], coef[:, idx])

    def m_any_compute_exact_modes(self, i, op, o):
        self.dmd_modes(i, op, o, 'adv_vec_handles', 'exact')

    def m_any_compute_proj_modes(self, i, op, o):
        self.dmd_modes(i, op, o, 'vec_handles', 'proj')

    def m_any_compute_adjoint_modes(self, i, op, o):
        if o['cls'] == 'BPODHandles':
            return self.m_BPODHandles_compute_adjoint_modes(i, op, o)
        self.dmd_modes(i, op, o, 'vec_handles', 'adjoint')

    def dmd_adjoint(self, o, M):
        """(adjoint modes)^* W M for a matrix of snapshots' Gram columns."""
        return self.dmd_T(o).dot(o['L']).conj().T.dot(M)

    def m_any_compute_spectrum(self, i, op, o):
        val = self.agreed(i)
        o['spectral_coeffs'] = val
        P = o.get('P')
        C = o['C'] if P is None else o['C'].dot(P)
        exp = np.abs(self.dmd_adjoint(o, C)[:, 0])
        sc = max(self.unit_of(o.get('vecs')), float(np.abs(exp).max())) * max(
            1., o['cond'] ** .5)
        need(np.shape(val) == exp.shape, 'wrong-shape',
             'spectral coefficients have shape %s, expected %s' % (
                 np.shape(val), exp.shape))
        need(close(val, exp, scale=sc, tol=1e-7), 'wrong-result',
             'spectral coefficients are %s, expected %s' % (
                 brief(val), brief(exp)))

    def m_DMDHandles_compute_proj_coeffs(self, i, op, o):
        val, adv = self.agreed(i)
        o['proj_coeffs'], o['adv_proj_coeffs'] = val, adv
        P = o.get('P')
        I = np.eye(o['C'].shape[0]) if P is None else P
        for nm, v, G, vs in (('', val, o['C'].dot(I), 'vecs'),
                             ('advanced ', adv, o['Cx'].dot(I), 'adv')):
            exp = self.dmd_adjoint(o, G)
            sc = max(self.unit_of(o.get(vs)), float(np.abs(exp).max())) * max(
                1., o['cond'])
            need(v.shape == exp.shape and close(v, exp, scale=sc, tol=1e-8),
                 'wrong-result', '%sprojection coefficients are %s, expected '
                 '%s' % (nm, brief(v), brief(exp)))

    m_TLSqrDMDHandles_compute_proj_coeffs = m_DMDHandles_compute_proj_coeffs

    # -- TLSqrDMD ---------------------------------------------------------------
    def m_TLSqrDMDHandles_compute_decomp(self, i, op, o):
        if op.get('bare'):
            return self.bare(i, op, 'TLSqrDMDHandles')
        a = self.args(op, ['vec_handles', 'adv_vec_handles', 'atol', 'rtol',
                           'max_num_eigvals'])
        self.dmd_inputs(a, o)
        self.tls_decomp(o, self.agreed(i), self.atols(a),
                        a.get('max_num_eigvals'))

    def tls_decomp(self, o, val, tols, maxnum):
        lam, R, L, ss, Vs, ps, Vp = val
        C, Cx = o['C'], o['Cx']
        S = C + o['Ca']
        self.check_kept(ss, np.linalg.eigvalsh(S), tols[0], tols[1],
                        'summed correlation array eigenvalues', maxnum)
        self.check_eigh(S, ss, Vs, 'summed correlation array')
        P = Vs.dot(Vs.conj().T)
        Cp = P.dot(C).dot(P)
        self.check_kept(ps, np.linalg.eigvalsh(Cp), tols[0], tols[1],
                        'projected correlation array eigenvalues', maxnum)
        self.check_eigh(Cp, ps, Vp, 'projected correlation array')
        o['P'] = P
        self.low_order(o, lam, R, L, ps, Vp, P.dot(Cx).dot(P), Cp)
        o['exp'] = {'correlation_array': C, 'cross_correlation_array': Cx,
                    'adv_correlation_array': o['Ca'],
                    'sum_correlation_array': S,
                    'proj_correlation_array': Cp}
        o['ss'], o['VS'], o['S'], o['Cp'] = ss, Vs, S, Cp

    def pend_TLSqrDMDHandles(self, o, val):
        self.tls_decomp(o, [val[k] for k in (
            'eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs',
            'sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs',
            'proj_correlation_array_eigvals',
            'proj_correlation_array_eigvecs')], *o['pending'])

    # -- puts and gets ----------------------------------------------------------
    PUTS = {
        'PODHandles': {
            'put_decomp': ['eigvals', 'eigvecs'],
            'put_eigvals': ['eigvals'], 'put_eigvecs': ['eigvecs'],
            'put_correlation_array': ['correlation_array'],
            'put_proj_coeffs': ['proj_coeffs']},
        'BPODHandles': {
            'put_decomp': ['sing_vals', 'L_sing_vecs', 'R_sing_vecs'],
            'put_sing_vals': ['sing_vals'], 'put_L_sing_vecs': ['L_sing_vecs'],
            'put_R_sing_vecs': ['R_sing_vecs'],
            'put_Hankel_array': ['Hankel_array'],
            'put_direct_proj_coeffs': ['direct_proj_coeffs'],
            'put_adjoint_proj_coeffs': ['adjoint_proj_coeffs']},
        'DMDHandles': {
            'put_decomp': ['eigvals', 'R_low_order_eigvecs',
                           'L_low_order_eigvecs', 'correlation_array_eigvals',
                           'correlation_array_eigvecs'],
            'put_eigvals': ['eigvals'],
            'put_R_low_order_eigvecs': ['R_low_order_eigvecs'],
            'put_L_low_order_eigvecs': ['L_low_order_eigvecs'],
            'put_correlation_array_eigvals': ['correlation_array_eigvals'],
            'put_correlation_array_eigvecs': ['correlation_array_eigvecs'],
            'put_correlation_array': ['correlation_array'],
            'put_cross_correlation_array': ['cross_correlation_array'],
            'put_spectral_coeffs': ['spectral_coeffs'],
            'put_proj_coeffs': ['proj_coeffs', 'adv_proj_coeffs']},
        'TLSqrDMDHandles': {
            'put_decomp': ['eigvals', 'R_low_order_eigvecs',
                           'L_low_order_eigvecs',
                           'sum_correlation_array_eigvals',
                           'sum_correlation_array_eigvecs',
                           'proj_correlation_array_eigvals',
                           'proj_correlation_array_eigvecs'],
            'put_eigvals': ['eigvals'],
            'put_R_low_order_eigvecs': ['R_low_order_eigvecs'],
            'put_L_low_order_eigvecs': ['L_low_order_eigvecs'],
            'put_sum_correlation_array_eigvals': [
                'sum_correlation_array_eigvals'],
            'put_sum_correlation_array_eigvecs': [
                'sum_correlation_array_eigvecs'],
            'put_proj_correlation_array_eigvals': [
                'proj_correlation_array_eigvals'],
            'put_proj_correlation_array_eigvecs': [
                'proj_correlation_array_eigvecs'],
            'put_correlation_array': ['correlation_array'],
            'put_adv_correlation_array': ['adv_correlation_array'],
            'put_sum_correlation_array': ['sum_correlation_array'],
            'put_proj_correlation_array': ['proj_correlation_array'],
            'put_cross_correlation_array': ['cross_correlation_array'],
            'put_spectral_coeffs': ['spectral_coeffs'],
            'put_proj_coeffs': ['proj_coeffs', 'adv_proj_coeffs']},
        'LTIGalerkinProjectionHandles': {
            'put_A_reduced': ['A_reduced'], 'put_B_reduced': ['B_reduced'],
            'put_C_reduced': ['C_reduced'],
            'put_model': ['A_reduced', 'B_reduced', 'C_reduced']},
    }

    GETS = {
        'PODHandles': {
            'get_decomp': ['eigvals', 'eigvecs'],
            'get_correlation_array': ['correlation_array'],
            'get_proj_coeffs': ['proj_coeffs']},
        'BPODHandles': {
            'get_decomp': ['sing_vals', 'L_sing_vecs', 'R_sing_vecs'],
            'get_Hankel_array': ['Hankel_array'],
            'get_direct_proj_coeffs': ['direct_proj_coeffs'],
            'get_adjoint_proj_coeffs': ['adjoint_proj_coeffs']},
        'DMDHandles': {
            'get_decomp': ['eigvals', 'R_low_order_eigvecs',
                           'L_low_order_eigvecs', 'correlation_array_eigvals',
                           'correlation_array_eigvecs'],
            'get_correlation_array': ['correlation_array'],
            'get_cross_correlation_array': ['cross_correlation_array'],
            'get_spectral_coeffs': ['spectral_coeffs'],
            'get_proj_coeffs': ['proj_coeffs', 'adv_proj_coeffs']},
        'TLSqrDMDHandles': {
            'get_decomp': ['eigvals', 'R_low_order_eigvecs',
                           'L_low_order_eigvecs',
                           'sum_correlation_array_eigvals',
                           'sum_correlation_array_eigvecs',
                           'proj_correlation_array_eigvals',
                           'proj_correlation_array_eigvecs'],
            'get_correlation_array': ['correlation_array'],
            'get_cross_correlation_array': ['cross_correlation_array'],
            'get_adv_correlation_array': ['adv_correlation_array'],
            'get_sum_correlation_array': ['sum_correlation_array'],
            'get_proj_correlation_array': ['proj_correlation_array'],
            'get_spectral_coeffs': ['spectral_coeffs'],
            'get_proj_coeffs': ['proj_coeffs', 'adv_proj_coeffs']},
    }

    # -- Galerkin -----------------------------------------------------------------
    def galerkin_init(self, o):
        if 'basis' in o:
            return
        tail = '_handles' if o['cls'].endswith('Handles') else 's'
        names = ['inner_product', 'basis_vec' + tail,
                 'adjoint_basis_vec' + tail, 'is_basis_orthonormal']
        a = dict(o['k'])
        for nm, v in zip(names[1:], o['a']):
            a[nm] = v
        o['basis'] = self.hidx(a[names[1]])
        adj = a.get(names[2])
        o['adj'] = self.hidx(adj) if adj is not None else o['basis']
        o['orth'] = a.get('is_basis_orthonormal', False)
        if not o['orth']:
            G = self.gram(o['adj'][0], o['adj'][1], *o['basis'])
            o['proj'] = np.linalg.inv(G)
            o['gcond'] = float(np.linalg.cond(G))
        else:
            o['proj'] = None
            o['gcond'] = 1.

    def galerkin_reduce(self, o, h, val, what):
        self.galerkin_init(o)
        nm, idx = self.hidx(h)
        exp = self.gram(o['adj'][0], o['adj'][1], nm, idx)
        if o['proj'] is not None:
            exp = o['proj'].dot(exp)
        s = max(self.unit ** 2 if o['proj'] is None else 1.,
                float(np.abs(exp).max())) * max(
            1., o['gcond'])
        need(val.shape == exp.shape and close(val, exp, scale=s, tol=1e-9),
             'wrong-result', 'reduced %s array is %s, expected %s' % (
                 what, brief(val), brief(exp)))
        o[what + '_reduced'] = val

    def galerkin_C_array(self, o, arg, val):
        exp = np.array(arg, ndmin=2)
        need(val.shape == exp.shape and np.array_equal(val, exp),
             'wrong-result', 'reduced C array is %s, expected %s' % (
                 brief(val), brief(exp)))
        o['C_reduced'] = val

    def m_LTIGalerkinProjectionArrays_reduce_A(self, i, op, o):
        self.galerkin_reduce(o, op['a'][0], self.agreed(i), 'A')

    def m_LTIGalerkinProjectionArrays_reduce_B(self, i, op, o):
        self.galerkin_reduce(o, op['a'][0], self.agreed(i), 'B')

    def m_LTIGalerkinProjectionArrays_reduce_C(self, i, op, o):
        self.galerkin_C_array(o, op['a'][0], self.agreed(i))

    def m_LTIGalerkinProjectionArrays_compute_model(self, i, op, o):
        A, B, C = self.agreed(i)
        self.galerkin_reduce(o, op['a'][0], A, 'A')
        self.galerkin_reduce(o, op['a'][1], B, 'B')
        self.galerkin_C_array(o, op['a'][2], C)

    def f_standard_basis(self, i, op):
        val = self.agreed(i)
        n = op['a'][0]
        need(len(val) == n and all(
            np.array_equal(v, [float(j == k) for j in range(n)])
            for k, v in enumerate(val)), 'wrong-result',
            'the standard basis of %d dimensions is %s' % (n, val))

    def f_compute_derivs_arrays(self, i, op):
        val = self.agreed(i)
        a = self.args(op, ['vecs', 'adv_vecs', 'dt'])
        X, Y = self.mat(*self.hidx(a['vecs'])), self.mat(
            *self.hidx(a['adv_vecs']))
        exp = (Y - X) / a['dt']
        need(np.shape(val) == exp.shape and close(
            val, exp, scale=max(self.unit / abs(a['dt']), float(
                np.abs(exp).max())), tol=1e-12),
            'wrong-result', 'time derivatives are %s, expected %s' % (
                brief(val), brief(exp)))

    def m_LTIGalerkinProjectionHandles_reduce_A(self, i, op, o):
        self.galerkin_reduce(o, op['a'][0], self.agreed(i), 'A')

    def m_LTIGalerkinProjectionHandles_reduce_B(self, i, op, o):
        self.galerkin_reduce(o, op['a'][0], self.agreed(i), 'B')

    def galerkin_C(self, o, arg, val):
        C = np.atleast_2d(np.array([np.array(c) for c in arg]))
        if C.ndim == 2 and np.ndim(arg[0]) == 0:
            pass
        exp = C.T
        need(val.shape == exp.shape and np.array_equal(val, exp),
             'wrong-result', 'reduced C array is %s, expected %s' % (
                 brief(val), brief(exp)))
        o['C_reduced'] = val

    def m_LTIGalerkinProjectionHandles_reduce_C(self, i, op, o):
        self.galerkin_C(o, op['a'][0], self.agreed(i))

    def m_LTIGalerkinProjectionHandles_compute_model(self, i, op, o):
        A, B, C = self.agreed(i)
        self.galerkin_reduce(o, op['a'][0], A, 'A')
        self.galerkin_reduce(o, op['a'][1], B, 'B')
        self.galerkin_C(o, op['a'][2], C)

    def f_compute_derivs_handles(self, i, op):
        self.agreed(i)
        a = self.args(op, ['vec_handles', 'adv_vec_handles',
                           'deriv_vec_handles', 'dt'])
        vn, vi = self.hidx(a['vec_handles'])
        an, ai = self.hidx(a['adv_vec_handles'])
        dn, di = self.hidx(a['deriv_vec_handles'])
        for k in range(len(vi)):
            self.expect_out((dn, di[k]), (
                self.truth_vec(an, ai[k]) - self.truth_vec(vn, vi[k])) /
                a['dt'], float(np.max((
                    np.abs(self.truth_vec(an, ai[k])) +
                    np.abs(self.truth_vec(vn, vi[k]))) / abs(a['dt']))))


Model.PUTS['LTIGalerkinProjectionArrays'] = Model.PUTS[
    'LTIGalerkinProjectionHandles']


def _install_puts():
    def mk_put(cls, meth, names):
        def f(self, i, op, o):
            self.agreed(i)
            dests = list(op.get('a', []))
            for nm, d in zip(names, dests):
                val = self.known(o, nm)
                if val is not None:
                    self.expect_array(
                        d['path'], val, 1e-10 if nm in INEXACT else 1e-15)
                elif self.faults:
                    self.loose_arrays.add(d['path'])
        return f

    def mk_get(cls, meth, names):
        def f(self, i, op, o):
            self.agreed(i)
            r = o.setdefault('restored', {})
            for nm, d in zip(names, op.get('a', [])):
                val = self.arrays.get(d['path'])
                if val is None:
                    val = (self.sc.get('saved') or {}).get(d['path'])
                if val is not None:
                    r[nm] = val
                    self.learn(o, nm, val)
        return f
    for cls, ms in Model.PUTS.items():
        for meth, names in ms.items():
            setattr(Model, 'm_%s_%s' % (cls, meth), mk_put(cls, meth, names))
    for cls, ms in Model.GETS.items():
        for meth, names in ms.items():
            setattr(Model, 'm_%s_%s' % (cls, meth), mk_get(cls, meth, names))


# values the model computes itself instead of taking them from a result
INEXACT = ('correlation_array', 'cross_correlation_array',
           'adv_correlation_array', 'sum_correlation_array',
           'proj_correlation_array', 'Hankel_array', 'C_reduced')

# attribute name -> key in the model's object state
KEYS = {
    'PODHandles': dict(eigvals='vals', eigvecs='V', correlation_array='C',
                       proj_coeffs='proj_coeffs'),
    'BPODHandles': dict(sing_vals='s', L_sing_vecs='U', R_sing_vecs='V',
                        Hankel_array='H',
                        direct_proj_coeffs='direct_proj_coeffs',
                        adjoint_proj_coeffs='adjoint_proj_coeffs'),
    'DMDHandles': dict(
        eigvals='lam', R_low_order_eigvecs='R', L_low_order_eigvecs='L',
        correlation_array_eigvals='s', correlation_array_eigvecs='Vs',
        correlation_array='C', cross_correlation_array='Cx',
        spectral_coeffs='spectral_coeffs', proj_coeffs='proj_coeffs',
        adv_proj_coeffs='adv_proj_coeffs'),
    'TLSqrDMDHandles': dict(
        eigvals='lam', R_low_order_eigvecs='R', L_low_order_eigvecs='L',
        sum_correlation_array_eigvals='ss',
        sum_correlation_array_eigvecs='VS',
        proj_correlation_array_eigvals='s',
        proj_correlation_array_eigvecs='Vs',
        correlation_array='C', cross_correlation_array='Cx',
        adv_correlation_array='Ca', sum_correlation_array='S',
        proj_correlation_array='Cp',
        spectral_coeffs='spectral_coeffs', proj_coeffs='proj_coeffs',
        adv_proj_coeffs='adv_proj_coeffs'),
    'LTIGalerkinProjectionHandles': dict(
        A_reduced='A_reduced', B_reduced='B_reduced', C_reduced='C_reduced'),
}
KEYS['LTIGalerkinProjectionArrays'] = KEYS['LTIGalerkinProjectionHandles']


def _known(self, o, nm):
    return o.get(KEYS[o['cls']][nm])


def _learn(self, o, nm, val):
    o[KEYS[o['cls']][nm]] = np.asarray(val)
    if o['cls'] == 'TLSqrDMDHandles' and nm == \
            'sum_correlation_array_eigvecs':
        V = np.asarray(val)
        o['P'] = V.dot(V.conj().T)
    if nm in ('L_low_order_eigvecs', 'R_low_order_eigvecs'):
        o.setdefault('cond', 1e4)


Model.known = _known
Model.learn = _learn
_install_puts()


def match_sets(a, b, tol):
    """Greedy multiset matching of complex numbers."""
    a, b = list(np.ravel(a)), list(np.ravel(b))
    if len(a) != len(b):
        return False
    for x in a:
        d = [abs(x - y) for y in b]
        j = int(np.argmin(d)) if d else -1
        if j < 0 or not d[j] <= tol:
            return False
        b.pop(j)
    return True


def _where_differs(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and \
            len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if not agree(x, y):
                return 'item %d: %s' % (k, _where_differs(x, y))
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if not agree(a[k], b.get(k)):
                return '%s: %s' % (k, _where_differs(a[k], b.get(k)))
    try:
        return '%s vs %s' % (brief(a), brief(b))
    except Exception:
        return '%r vs %r' % (a, b)


from . import oracle_par  # noqa: E402,F401  (adds the remaining models)
