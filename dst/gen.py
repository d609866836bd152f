"""Seeded generators of scenarios: job shapes, data, programs, faults."""
import math

import numpy as np

from . import harness

N_WEIGHTS = [(1, 3), (2, 8), (3, 8), (4, 8), (5, 6), (6, 3), (7, 3), (8, 2),
             (9, 1), (10, 1), (11, 1), (12, 1)]


def wchoice(rng, pairs):
    tot = sum(w for _, w in pairs)
    x = rng.random() * tot
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def hosts_of(rng, n):
    k = rng.choice([1, 1, 2, 2, 3, n])
    k = max(1, min(k, n))
    style = rng.choice(['block', 'cyclic', 'random'])
    if style == 'block':
        per = -(-n // k)
        h = [r // per for r in range(n)]
    elif style == 'cyclic':
        h = [r % k for r in range(n)]
    else:
        h = [rng.randrange(k) for _ in range(n)]
    seen = {}
    return [seen.setdefault(x, len(seen)) for x in h]


def clocks(rng, n, wild=False):
    out = []
    for _ in range(n):
        c = {}
        p = rng.random()
        if p < 0.5:
            c['offset'] = rng.choice([0.0, 1.0, 1.5e9, 2.0e9, -5.0, 11.0])
        if rng.random() < 0.4:
            c['rate'] = rng.choice([0.0, 0.5, 2.0, 1e3, 1e6])
        if rng.random() < (0.8 if wild else 0.4):
            c['jumps'] = [[rng.randrange(1, 40),
                           rng.choice([-1e9, -3600., -20., 11., 30., 3600.,
                                       1e9])]
                          for _ in range(rng.randrange(1, 6))]
        out.append(c)
    return out


def strategy(rng, n):
    nm = wchoice(rng, [('random', 5), ('sticky', 3), ('starve', 4),
                       ('lazynet', 2), ('eagernet', 1), ('pct', 4),
                       ('default', 0.5)])
    s = {'name': nm, 'seed': rng.randrange(1 << 30)}
    if nm == 'sticky':
        s['p'] = rng.choice([0.6, 0.85, 0.95])
    if nm == 'starve':
        s['victim'] = rng.randrange(n)
        s['net'] = rng.random() < 0.5
    if nm == 'pct':
        s['depth'] = rng.choice([1, 2, 3, 5])
        s['horizon'] = rng.choice([60, 300, 1500])
    return s


def job(rng, n=None, nmin=1, nmax=12):
    """Shape and adversary of one job."""
    if n is None:
        n = wchoice(rng, [p for p in N_WEIGHTS if nmin <= p[0] <= nmax])
        if nmax == 12 and rng.random() < 0.015:
            n = rng.choice([13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33])
    sc = {'n': n, 'cfg': {}, 'data': {}, 'prog': []}
    sc['hosts'] = hosts_of(rng, n)
    cfg = sc['cfg']
    cfg['p_rendezvous'] = rng.choice([0.0, 0.5, 1.0, 1.0])
    cfg['p_sync'] = rng.choice([0.0, 0.3, 1.0])
    if rng.random() < 0.5:
        sc['clock'] = clocks(rng, n)
    if rng.random() < 0.2:
        cfg['slow'] = {str(rng.randrange(n)): rng.choice([0.01, 1.0, 30.])}
    if rng.random() < 0.35:
        sc['hetero'] = rng.randrange(1, 1 << 20)
    if rng.random() < 0.1:
        cfg['tag_ub'] = rng.choice([32767, 1 << 20])
    return sc


def mpn(rng, sc):
    """A max_vecs_per_node value and the per-worker limit it gives."""
    n = sc['n']
    nodes = len(set(sc['hosts']))
    mode = wchoice(rng, [('small', 7), ('tiny', 2), ('none', 1), ('big', 2)])
    if mode == 'none':
        return None
    if mode == 'big':
        return rng.choice([40, 500, 10000])
    if mode == 'tiny':
        return rng.choice([1, 2, 3])
    per = rng.choice([3, 3, 4, 5, 7])
    return int(math.ceil(per * n / float(nodes))) + rng.choice([0, 0, 1])


def ncount(rng, n, lo=1, hi=None):
    """A list length chosen for its relation to the number of workers."""
    c = rng.choice([1, 2, 3, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1,
                    rng.randrange(1, 3 * n + 3), rng.randrange(1, 12)])
    if hi is None and n <= 8 and rng.random() < 0.012:
        return rng.choice([16, 17, 25, 32, 33, 40, 50, 64, 65, 70, 100])
    if hi == 10 and rng.random() < 0.03:
        return rng.choice([11, 12, 15, 16, 17, 20, 24, 32, 33])
    hi = hi if hi is not None else 3 * n + 3
    return max(lo, min(c, hi))


def idx_of(rng, count, k=None):
    """Ordered list of indices into a set, sometimes permuted or repeated."""
    m = wchoice(rng, [('all', 5), ('perm', 3), ('sub', 3), ('rep', 1)])
    if k is not None:
        if k <= count and m != 'rep':
            out = list(range(count))
            if m != 'all':
                rng.shuffle(out)
            return out[:k]
        return [rng.randrange(count) for _ in range(k)]
    out = list(range(count))
    if m == 'perm':
        rng.shuffle(out)
    elif m == 'sub':
        rng.shuffle(out)
        out = sorted(out[:rng.randrange(1, count + 1)])
    elif m == 'rep':
        out = [rng.randrange(count) for _ in range(count)]
    return out


MAGS = [-150, -60, -43, -30, -10, 0, 0, 0, 10, 30, 43, 60, 150]


class Builder(object):
    def __init__(self, rng, sc):
        self.rng, self.sc = rng, sc
        self.n = sc['n']
        self.data = sc['data']
        self.prog = sc['prog']
        self.k = 0
        self.grp = 0
        self.dim = None
        self.cplx = False
        self.io = 'sim'
        self.user_vecs_only = False
        self.no_files = False
        self.no_text_out = False
        self.mixed = False
        self.spread = False         # vectors of very different magnitudes
        self.mag = None
        self.lam_unit = 1.          # size of the eigenvalues of DMDs
        self.near = False           # tolerances that sit on a value
        self.degen = False
        self.with_vis = True

    def name(self, pre):
        self.k += 1
        return '%s%d' % (pre, self.k)

    def group(self):
        self.grp += 1

    def op(self, **kw):
        kw['g'] = self.grp
        self.prog.append(kw)
        return len(self.prog) - 1

    def world_kind(self, dim=None, cplx=None):
        """Dimension, field and weights shared by all vectors of the job."""
        rng = self.rng
        self.dim = dim or rng.choice([1, 2, 3, 4, 5, 6])
        if dim is None and rng.random() < 0.05:
            self.dim = rng.choice([7, 8, 9, 12, 16, 17, 32, 40])
        self.cplx = (rng.random() < 0.4) if cplx is None else cplx
        if rng.random() < 0.35:
            self.sc['ip'] = {'w': {'seed': rng.randrange(999),
                                   'dim': rng.choice([1, 2])}}
            if self.cplx and self.sc['ip']['w']['dim'] == 2 and \
                    rng.random() < 0.5:
                self.sc['ip']['w']['cplx'] = True    # Hermitian
        if rng.random() < 0.2:
            self.sc.setdefault('ip', {})['type'] = 'py'
        self.mag = None
        if rng.random() < 0.2:
            # power of two, so that what is exact stays exact
            self.mag = 2. ** rng.choice([-22, -18, -8, 10, 20, 28])
        return self

    def style(self, out=False):
        rng = self.rng
        if self.user_vecs_only:
            hk = rng.choice(['sim', 'sim', 'duck'])
            return hk, rng.choice(['user', 'iuser'])
        kinds = [('sim', 8), ('duck', 1.5)]
        if not self.no_files:
            kinds += [('pickle', 1.2), ('text', 1)]
        if not out or self.n == 1:
            kinds.append(('mem', 1.5))
        hk = wchoice(rng, kinds)
        if hk == 'text':
            vt = 'nd2'
        else:
            vt = wchoice(rng, [('user', 3), ('iuser', 2), ('nd', 3),
                               ('nd2', 1)])
        return hk, vt

    def pick_style(self):
        """One vector type for all sets that meet in one operation."""
        hk, vt = self.style()
        self.vt = vt
        return hk

    def inset(self, count, vt=None, hk=None, kind=None, gen=None, **kw):
        rng = self.rng
        if hk is None:
            for _ in range(50):
                hk, v = self.style()
                if vt is None or v == vt or (hk != 'text'):
                    break
            vt = vt or v
            if hk == 'text':
                vt = 'nd2'
        spec = {'dim': self.dim, 'count': count, 'vtype': vt, 'hkind': hk,
                'seed': rng.randrange(1 << 30),
                'kind': kind or rng.choice(['int', 'int', 'float'])}
        if self.cplx:
            spec['cplx'] = True
        if self.mag and gen != 'explicit':
            spec['mag'] = self.mag
        if gen:
            spec['gen'] = gen
        elif self.spread:
            spec['mags'] = [rng.choice(MAGS) for _ in range(min(count, 7))]
        elif self.mixed and hk != 'text':
            spec['mix'] = True
        spec.update(kw)
        if 'base' not in kw and hk != 'duck' and rng.random() < 0.2 and \
                gen is None and 'mags' not in spec:
            spec['base'] = {'seed': rng.randrange(1 << 30),
                            'own': rng.random() < 0.5}
            if rng.random() < 0.4:
                spec['base']['scale'] = rng.choice([2.0, -1.0, 0.5])
        if 'scale' not in kw and hk != 'duck' and rng.random() < 0.15 and \
                gen is None:
            spec['scale'] = rng.choice([2.0, -0.5, [1.0, 2.0, -1.0], 0.0])
        nm = self.name('v')
        self.data[nm] = spec
        return nm

    def alias(self, A):
        """Other handles of the same stored vectors: equal to the first ones
        by the package's definition, but with scales and bases of their
        own."""
        rng = self.rng
        spec = dict(self.data[A])
        if spec['hkind'] == 'duck':
            return A
        spec.setdefault('alias', A)
        old = spec.pop('scale', None), spec.pop('base', None)
        if rng.random() < 0.3 and 'mags' not in spec:
            spec['base'] = {'seed': rng.randrange(1 << 30),
                            'own': rng.random() < 0.5}
        if 'base' not in spec or rng.random() < 0.5:
            spec['scale'] = rng.choice([
                x for x in (2.0, -0.5, 4.0, [1.0, 2.0, -1.0]) if x != old[0]])
        nm = self.name('v')
        self.data[nm] = spec
        return nm

    def outset(self, count, vt, hk=None):
        if hk is None:
            for _ in range(50):
                hk, v = self.style(out=True)
                if hk != 'text' or (vt == 'nd2' and not self.no_text_out):
                    break
            else:
                hk = 'sim'
        spec = {'dim': self.dim, 'count': count, 'vtype': vt, 'hkind': hk,
                'out': True}
        if self.cplx:
            spec['cplx'] = True
        nm = self.name('o')
        self.data[nm] = spec
        return nm

    def H(self, name, idx, **kw):
        idx = [int(i) for i in idx]
        d = {'H': [name, idx]}
        if len(idx) == 1 and self.rng.random() < kw.get('single', 0.2):
            d['single'] = True
        elif self.rng.random() < kw.get('tuple', 0.0):
            d['tuple'] = True
        return d

    def HL(self, name, idx):
        return {'H': [name, [int(i) for i in idx]]}

    def vis(self, name, idx):
        if self.with_vis:
            return {'vecs': [[name, [int(i) for i in idx]]]}
        return None

    # ---- vector space ------------------------------------------------------
    def new_vs(self, obj=None):
        rng = self.rng
        obj = obj or self.name('vs')
        k = {'max_vecs_per_node': mpn(rng, self.sc),
             'verbosity': rng.choice([0, 1, 1])}
        if rng.random() < 0.6:
            k['print_interval'] = rng.choice([0, 0.001, 0.01, 1, -1, 1e9])
        self.op(op='new', cls='VectorSpaceHandles', obj=obj, k=k)
        return obj

    def ip(self, vs, A=None, B=None, hi=None):
        rng = self.rng
        if A is None:
            vt = self.style()[1]
            A = self.inset(ncount(rng, self.n, hi=hi), vt=vt)
            vt = self.data[A]['vtype']
            r = rng.random()
            B = A if r < 0.15 else self.alias(A) if r < 0.3 else self.inset(
                ncount(rng, self.n, hi=hi), vt=vt)
        ia = idx_of(rng, self.data[A]['count'])
        ib = idx_of(rng, self.data[B]['count'])
        if self.data[A]['count'] == self.data[B]['count'] and \
                rng.random() < 0.4:
            ib = list(ia)
        a = [self.H(A, ia), self.H(B, ib)]
        self.op(op='call', obj=vs, m='compute_inner_product_array', a=a)
        return A, B

    def symm(self, vs, A=None, hi=None):
        rng = self.rng
        if A is None:
            c = ncount(rng, self.n, hi=hi)
            g = rng.choice([None, None, 'zeros', 'lowrank'])
            A = self.inset(c, gen=g, **({'rank': 2} if g == 'lowrank' else {}))
        self.op(op='call', obj=vs, m='compute_symm_inner_product_array',
                a=[self.H(A, idx_of(rng, self.data[A]['count']))])
        return A

    def coeff(self, nb, ns, mags=None):
        """A coefficient argument and what it means for column selection."""
        rng = self.rng
        kind = rng.choice(['int', 'int', 'float'])
        cx = self.cplx and rng.random() < 0.6
        spec = {'kind': kind, 'seed': rng.randrange(1 << 30)}
        if cx:
            spec['cplx'] = True
        elif kind == 'int' and mags is None and rng.random() < 0.2:
            spec['dtype'] = 'int64'
        if mags is not None and (nb > 1 or ns == 1):
            # terms of like size, from small and large factors
            spec['rows'] = [-m + rng.choice([0, 0, 0, 3]) for m in mags]
        if rng.random() < 0.2:
            spec['order'] = 'F'
        if rng.random() < 0.25 and (nb == 1 or ns == 1):
            spec['shape'] = [ns if nb == 1 else nb]
            return {'arr': spec}, None
        if rng.random() < 0.4:
            ncols = ns + rng.randrange(0, 4)
            spec['shape'] = [nb, ncols]
            m = rng.choice(['perm', 'rep', 'one'])
            cols = list(range(ncols))
            rng.shuffle(cols)
            cols = cols[:ns]
            if m == 'rep':
                cols = [rng.randrange(ncols) for _ in range(ns)]
            if m == 'one' and ns == 1:
                return {'arr': spec}, cols[0]
            if rng.random() < 0.2:
                return {'arr': spec}, {'np': cols}
            return {'arr': spec}, cols
        spec['shape'] = [nb, ns]
        return {'arr': spec}, None

    def lin(self, vs, A=None, hi=None):
        rng = self.rng
        if A is None:
            A = self.inset(ncount(rng, self.n, hi=hi))
        ib = idx_of(rng, self.data[A]['count'])
        ns = ncount(rng, self.n, hi=hi)
        O = self.outset(ns, self.data[A]['vtype'])
        m = self.data[A].get('mags')
        if m:
            m = [m[j % len(m)] for j in ib] if rng.random() < 0.8 else None
        c, cols = self.coeff(len(ib), ns, m)
        si = list(range(ns))
        if rng.random() < 0.3:
            rng.shuffle(si)
        k = {}
        if cols is not None:
            k['coeff_array_col_indices'] = cols
        self.op(op='call', obj=vs, m='lin_combine', k=k,
                a=[self.H(O, si), self.H(A, ib), c], vis=self.vis(O, si))
        return A, O

    # ---- decompositions ---------------------------------------------------
    def vals(self, names):
        """True values of sets of this builder's scenario, as matrices."""
        d = harness.Data({'data': {k: self.data[k] for k in names},
                          'ip': self.sc.get('ip')})
        return d

    def gram(self, n1, i1, n2, i2):
        d = self.vals([n1, n2])
        return d.gram(n1, i1, n2, i2)

    def tols(self, eigs, need=1, noise=1e-10):
        """Tolerances that cut clearly between two values (JSON kwargs).
        Returns (kwargs, number kept) or None."""
        rng = self.rng
        e = np.sort(np.abs(eigs))[::-1]
        if e.size == 0 or e[0] <= 0:
            return None
        ok = []
        for k in range(need, e.size + 1):
            lo = e[k] if k < e.size else 0.0
            hi = e[k - 1]
            if hi < noise * e[0]:
                break
            if lo < 0.8 * hi:
                ok.append(k)
        if not ok:
            return None
        k = rng.choice(ok) if rng.random() < 0.6 else ok[-1]
        if self.near and k < e.size and e[k] > 1e-8 * e[0]:
            # value k is kept on some nodes only
            if rng.random() < 0.6:
                return {'atol': float(e[k])}, k
            kw = {'rtol': float(e[k] / e[0])}
            if e[k] < 2e-13:
                kw['atol'] = 0.0
            return kw, k
        lo = max(e[k] if k < e.size else 0.0, 1e-2 * noise * e[0])
        thr = float(math.sqrt(lo * e[k - 1]))
        if not (lo * 1.05 < thr < e[k - 1] * 0.95):
            return None
        kw = {}
        m = rng.choice(['atol', 'rtol', 'both'])
        if k == e.size and e[-1] > 1e-6 * e[0] and e[-1] > 1e-6 and \
                rng.random() < 0.5:
            m = 'default'
        elif e[0] < 1e-2 and lo < 0.8e-13 and e[k - 1] > 1.2e-13 and \
                e[k - 1] > noise * e[0] and rng.random() < 0.6:
            m = 'default'         # which cuts between these
        if m == 'atol':
            kw['atol'] = thr
        elif m == 'rtol':
            kw['rtol'] = float(thr / e[0])
            if rng.random() < 0.5 or thr < 1.2e-13:
                kw['atol'] = 0.0
            elif rng.random() < 0.3:
                kw['atol'] = None
        elif m == 'both':
            if rng.random() < 0.5:
                kw = {'atol': thr, 'rtol': float(thr / e[0] * 0.5)}
            else:
                kw = {'atol': thr * 0.5, 'rtol': float(thr / e[0])}
            # the looser of the two must not sit on a value
            t = 0.5 * thr
            if np.any(np.abs(e - t) < 0.02 * t):
                kw = {'atol': thr}
        return kw, k

    def io_args(self, cls):
        if self.io is None:
            return {}
        return {'arrays': True}

    def new_dec(self, cls, obj=None, a=None, k=None):
        rng = self.rng
        obj = obj or self.name('d')
        kw = {'max_vecs_per_node': mpn(rng, self.sc),
              'verbosity': rng.choice([0, 1])}
        if cls == 'LTIGalerkinProjectionHandles':
            if kw['max_vecs_per_node'] is None:
                kw.pop('max_vecs_per_node')
        kw.update(k or {})
        self.op(op='new', cls=cls, obj=obj, k=kw, a=a or [],
                arrays='put' if cls.startswith('LTI') else True)
        return obj

    def modesel(self, kept, hi=6):
        rng = self.rng
        k = rng.randrange(1, kept + 1)
        m = rng.choice(['first', 'perm', 'one', 'rev', 'ends', 'gap'])
        if m == 'first':
            return list(range(k)), k
        if m == 'ends' and kept > 3:
            # starts and ends like a range
            a, b = sorted(rng.sample(range(kept), 2))
            mid = list(range(a + 1, b))
            rng.shuffle(mid)
            return [a] + mid + [b], b - a + 1
        if m == 'gap' and kept > 2:
            idx = sorted(rng.sample(range(kept), max(2, k - 1)))
            return idx, len(idx)
        if m == 'rev':
            return list(range(kept))[::-1], kept
        idx = list(range(kept))
        rng.shuffle(idx)
        if m == 'one':
            return [idx[0]], 1
        if rng.random() < 0.06:
            # the same mode may be asked for more than once
            idx = [rng.choice(idx) for _ in idx]
        return idx[:k], k

    def other(self, c, vt):
        """Handles of c vectors unrelated to a decomposition's, or None."""
        nm = self.inset(c, vt=vt)
        if self.data[nm]['vtype'] != vt:
            del self.data[nm]
            return None
        self.data[nm]['other'] = True
        return self.HL(nm, range(c))

    def modes(self, obj, meth, kept, vt, extra=None, as_kw=None):
        rng = self.rng
        idx, k = self.modesel(kept)
        O = self.outset(k, vt)
        si = list(range(k))
        arg = {'np': idx} if rng.random() < 0.1 else idx
        if rng.random() < 0.1 and idx == list(range(k)):
            arg = {'range': [k]}
        kw = {}
        if extra is not None:
            kw[as_kw] = extra
        self.op(op='call', obj=obj, m=meth, a=[arg, self.HL(O, si)], k=kw,
                vis=self.vis(O, si))
        return O

    def puts(self, obj, cls, prob=0.6, tag=''):
        """Random save calls of an object; returns {attr: dest}."""
        from .oracle import Model
        rng = self.rng
        saved = {}
        avail = self.state[obj]
        for meth, names in sorted(Model.PUTS[cls].items()):
            if not all(nm in avail for nm in names):
                continue
            if rng.random() > prob:
                continue
            dests = [self.name('a') for _ in names]
            self.op(op='call', obj=obj, m=meth,
                    a=[{'path': d} for d in dests],
                    vis={'arrays': dests} if self.with_vis else None)
            saved[meth] = dests
        return saved

    state = None

    def know(self, obj, *names):
        if self.state is None:
            self.state = {}
        self.state.setdefault(obj, set()).update(names)

    def attr(self, obj, names):
        self.op(op='attr', obj=obj, names=list(names))

    # POD
    def pod_data(self, tries=30):
        rng = self.rng
        for _ in range(tries):
            c = ncount(rng, self.n, hi=10)
            g = rng.choice([None, None, 'lowrank'])
            if self.degen and rng.random() < 0.6:
                g = 'degen'
            kw = {'rank': rng.choice([1, 2, 3])} if g == 'lowrank' else {}
            A = self.inset(c, gen=g, **kw)
            idx = idx_of(rng, c)
            if g is None and len(set(idx)) > self.size_of(A) and \
                    rng.random() < 0.7:
                del self.data[A]
                continue
            t = self.tols(np.linalg.eigh(self.gram(A, idx, A, idx))[0])
            if t is not None:
                return A, idx, t
            del self.data[A]
        return None

    def size_of(self, nm):
        return int(np.prod(harness.vec_shape(self.data[nm])))

    def pod(self, full=True, obj=None, puts=0.2, data=None):
        rng = self.rng
        d = data or self.pod_data()
        if d is None:
            return None
        A, idx, (kw, kept) = d
        obj = obj or self.new_dec('PODHandles')
        self.op(op='call', obj=obj, m='compute_decomp',
                a=[self.HL(A, idx)], k=kw)
        self.know(obj, 'eigvals', 'eigvecs', 'correlation_array')
        vt = self.data[A]['vtype']
        d = dict(obj=obj, A=A, idx=idx, kw=kw, kept=kept, vt=vt,
                 cls='PODHandles')
        if full:
            self.pod_rest(d, puts)
        return d

    def pod_rest(self, d, puts):
        rng = self.rng
        obj, A, idx, vt = d['obj'], d['A'], d['idx'], d['vt']
        cnt = rng.choice([1, 1, 2])
        for j in range(cnt):
            # Vectors named in the call replace the stored ones for good,
            # so unrelated ones come last.
            ex = self.other(len(idx), vt) if j == cnt - 1 and \
                self.unrelated and rng.random() < 0.15 else None
            if ex is None and rng.random() < 0.3:
                ex = self.HL(A, idx)
            self.modes(obj, 'compute_modes', d['kept'], vt, ex,
                       'vec_handles')
        if rng.random() < 0.7:
            self.op(op='call', obj=obj, m='compute_proj_coeffs')
            self.know(obj, 'proj_coeffs')
        if rng.random() < 0.3:
            self.attr(obj, ['eigvals', 'eigvecs', 'correlation_array'])
        self.puts(obj, 'PODHandles', puts)

    def bare(self, cls):
        """Dependent vectors and no tolerance that cuts them off."""
        rng = self.rng
        A = self.inset(rng.randrange(1, 6), kind=rng.choice(
            ['int', 'float', 'float']))
        c = self.data[A]['count']
        idx = idx_of(rng, c, rng.randrange(1, c + 1))
        idx += [rng.choice(idx) for _ in range(rng.randrange(1, 3))]
        rng.shuffle(idx)
        if not np.any(np.diag(self.gram(A, idx[:-1], A, idx[:-1]))):
            return              # nothing to decompose
        a = [self.HL(A, idx)]
        kw = rng.choice([{'atol': None}, {'atol': None}, {'atol': 0.0}, {},
                         {'atol': 1e-300}, {'atol': None, 'rtol': None}])
        kw = dict(kw)
        if cls != 'PODHandles' and rng.random() < 0.5:
            a.append(self.HL(A, rng.sample(idx, len(idx))))
        if cls != 'PODHandles' and rng.random() < 0.3:
            kw['max_num_eigvals'] = rng.randrange(1, len(idx) + 1)
        self.op(op='call', obj=self.new_dec(cls), m='compute_decomp', a=a,
                k=kw, bare=True)

    unrelated = True

    def again(self, d, puts=0.2):
        """The same object and vectors with another truncation."""
        rng = self.rng
        cls, obj = d['cls'], d['obj']
        plain = rng.random() < 0.35     # the default tolerances, if they cut
        for i in range(14 if plain else 8):
            if cls == 'PODHandles':
                C = self.gram(d['A'], d['idx'], d['A'], d['idx'])
                t = self.tols(np.linalg.eigh(C)[0])
            elif cls == 'BPODHandles':
                s = np.linalg.svd(self.gram(d['J'], d['ai'], d['D'], d['di']),
                                  compute_uv=False)
                t = self.tols(s, noise=1e-6)
            else:
                v = self.vals([nm for nm in (d['A'], d['B']) if nm])
                X, Y = d['X'], d['Y']
                self.lam_unit = d['lu']
                t = self.dmd_tols(
                    v.gram(X[0], X[1], X[0], X[1]),
                    v.gram(X[0], X[1], Y[0], Y[1]),
                    v.gram(Y[0], Y[1], Y[0], Y[1]), cls[0] == 'T')
            if t is not None and not (plain and i < 6 and (
                    'atol' in t[0] or 'rtol' in t[0])):
                break
        else:
            return False
        self.op(op='call', obj=obj, m='compute_SVD' if cls == 'BPODHandles'
                else 'compute_eigendecomp', k=dict(t[0]))
        self.attr(obj, self.dec_names(cls))
        d['kept'] = t[1]
        self.rest(d, puts)
        return True

    def rest(self, d, puts=0.2):
        {'P': self.pod_rest, 'B': self.bpod_rest}.get(
            d['cls'][0], self.dmd_rest)(d, puts)

    # BPOD
    def bpod(self, full=True, obj=None, puts=0.2, d=None):
        rng = self.rng
        ipw = (self.sc.get('ip') or {}).get('w')
        for _ in range(0 if d else 30):
            hk, vt = self.style()
            p, q = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
            nc, nr = rng.choice([1, 2, 3, 4, 5]), rng.choice([1, 2, 3, 4, 5])
            seed = rng.randrange(1 << 30)
            spec = dict(dim=self.dim, vtype=vt, hkind=hk, seed=seed,
                        kind='float', gen='lti', inputs=p, outputs=q)
            if ipw:
                spec['ipw'] = ipw
            if self.cplx:
                spec['cplx'] = True
            if self.mag:
                spec['mag'] = self.mag
            hk2 = self.style()[0]
            if hk2 == 'text' and vt != 'nd2':
                hk2 = 'sim'
            D, J = self.name('v'), self.name('v')
            self.data[D] = dict(spec, count=p * nc, side='direct')
            self.data[J] = dict(spec, count=q * nr, side='adjoint', hkind=hk2)
            di, ai = list(range(p * nc)), list(range(q * nr))
            s = np.linalg.svd(self.gram(J, ai, D, di), compute_uv=False)
            t = self.tols(s, noise=1e-6)
            if t is not None:
                break
            del self.data[D], self.data[J]
        else:
            if d is None:
                return None
        if d:
            D, J, di, ai, vt = [d[x] for x in ('D', 'J', 'di', 'ai', 'vt')]
            p, q, t = d['p'], d['q'], (d['cut'], d['kept'])
        kw, kept = t
        obj = obj or self.new_dec('BPODHandles')
        k = dict(kw)
        if p != 1 or rng.random() < 0.5:
            k['num_inputs'] = p
        if q != 1 or rng.random() < 0.5:
            k['num_outputs'] = q
        self.op(op='call', obj=obj, m='compute_decomp', lti=True,
                a=[self.HL(D, di), self.HL(J, ai)], k=k)
        self.know(obj, 'sing_vals', 'L_sing_vecs', 'R_sing_vecs',
                  'Hankel_array')
        d = dict(obj=obj, D=D, J=J, di=di, ai=ai, kw=k, kept=kept, vt=vt,
                 p=p, q=q, cut=kw,
                 cls='BPODHandles')
        if full:
            self.bpod_rest(d, puts)
        return d

    def bpod_rest(self, d, puts):
        rng = self.rng
        obj = d['obj']
        cnt = rng.choice([1, 2, 3])
        for j in range(cnt):
            m, hk, S, ix = rng.choice([
                ('compute_direct_modes', 'direct_vec_handles', d['D'],
                 d['di']),
                ('compute_adjoint_modes', 'adjoint_vec_handles', d['J'],
                 d['ai'])])
            ex = self.other(len(ix), d['vt']) if j == cnt - 1 and \
                self.unrelated and rng.random() < 0.15 else None
            if ex is None and rng.random() < 0.3:
                ex = self.HL(S, ix)
            self.modes(obj, m, d['kept'], d['vt'], ex, hk)
        for w in ('direct', 'adjoint'):
            if rng.random() < 0.6:
                self.op(op='call', obj=obj,
                        m='compute_%s_proj_coeffs' % w)
                self.know(obj, w + '_proj_coeffs')
        if rng.random() < 0.3:
            self.attr(obj, ['sing_vals', 'L_sing_vecs', 'R_sing_vecs',
                            'Hankel_array'])
        self.puts(obj, 'BPODHandles', puts)

    # DMD and TLSqrDMD
    def dmd_data(self, tls, tries=60, cmax=7, seq=None):
        """Snapshot sets whose decomposition is well conditioned."""
        rng = self.rng
        for _ in range(tries):
            self.lam_unit = 1.
            seq_ = rng.random() < 0.5 if seq is None else seq
            c = rng.randrange(2, cmax + 1)
            kind = rng.choice(['int', 'float'])
            A = self.inset(c if not seq_ else c + 1, kind=kind)
            names = [A]
            vt = self.data[A]['vtype']
            if seq_:
                ia = idx_of(rng, c + 1, c + 1)
                X, Y = (A, ia[:-1]), (A, ia[1:])
                B = None
            else:
                B = self.inset(c, vt=vt, kind=kind)
                if self.data[B]['vtype'] != vt:
                    del self.data[A], self.data[B]
                    continue
                names.append(B)
                if not tls and rng.random() < 0.2:
                    # eigenvalues far from one
                    self.lam_unit = 2. ** rng.choice([-30, -20, -12, 12, 24])
                    self.data[B]['mag'] = (self.mag or 1.) * self.lam_unit
                ia, ib = idx_of(rng, c, c), idx_of(rng, c, c)
                X, Y = (A, ia), (B, ib)
            d = self.vals(names)
            C = d.gram(X[0], X[1], X[0], X[1])
            Cx = d.gram(X[0], X[1], Y[0], Y[1])
            Ca = d.gram(Y[0], Y[1], Y[0], Y[1])
            r = self.dmd_tols(C, Cx, Ca, tls)
            if r is not None:
                return dict(A=A, B=B, X=X, Y=Y, ia=ia, vt=vt, kw=r[0],
                            kept=r[1], lu=self.lam_unit)
            for nm in names:
                del self.data[nm]
        return None

    def dmd_tols(self, C, Cx, Ca, tls):
        rng = self.rng
        maxnum = None
        size = float(np.abs(C).max())
        if tls:
            S = C + Ca
            w, V = np.linalg.eigh(S)
            w, V = w[::-1], V[:, ::-1]
            t = self.tols(w, noise=1e-8)
            if t is None:
                return None
            kw, k = t
            if rng.random() < 0.6:
                maxnum = rng.randrange(1, len(w) + 1)
                if maxnum < k and not w[maxnum] < 0.8 * w[maxnum - 1]:
                    return None
                k = min(k, maxnum)
            P = V[:, :k].dot(V[:, :k].conj().T)
            C, Cx = P.dot(C).dot(P), P.dot(Cx).dot(P)
        else:
            kw = None
        w, V = np.linalg.eigh(C)
        w, V = w[::-1], V[:, ::-1]
        if w[0] <= 1e-6 * size:      # nothing left but rounding errors
            return None
        if tls:
            atol = kw.get('atol', 1e-13) or 0.
            rtol = kw.get('rtol') or 0.
            thr = max(atol, rtol * w[0])
            if thr < 1e-11 * w[0]:
                # rank deficient by construction: cut explicitly
                thr = max(thr, 1e-11 * w[0])
                if k < len(w) and maxnum != k or np.any(
                        w[:k] < 1e-7 * w[0]) or (
                            k == len(w) and w[-1] < 1e-7 * w[0]):
                    return None
            if np.any((w > thr * 0.8) & (w < thr * 1.25)):
                return None
            if np.any((w > 1e-12 * w[0]) & (w < 1e-7 * w[0])):
                return None
            m = int(np.sum(w > thr))
            if maxnum is not None and maxnum < m:
                return None
            k = m
        else:
            t = self.tols(w, noise=1e-8)
            if t is None:
                return None
            kw, k = t
            if rng.random() < 0.4:
                maxnum = rng.randrange(1, len(w) + 1)
                if maxnum < k and not w[maxnum] < 0.8 * w[maxnum - 1]:
                    return None
                k = min(k, maxnum)
        if self.near and k + 1 < len(w) and w[k + 1] > 0.8 * w[k]:
            return None
        for kk in [k, k + 1] if self.near and not tls and k < len(w) and (
                maxnum is None or maxnum > k) else [k]:
            if not self.low_order_ok(w, V, Cx, kk):
                return None
        kw = dict(kw)
        if maxnum is not None:
            kw['max_num_eigvals'] = maxnum
        return kw, k

    def low_order_ok(self, w, V, Cx, k):
        if k < 1 or w[k - 1] < 1e-7 * w[0]:
            return False
        T = V[:, :k] / np.sqrt(w[:k])
        A = T.conj().T.dot(Cx).dot(T)
        lam, R = np.linalg.eig(A)
        if np.linalg.cond(R) > 200 or \
                np.min(np.abs(lam)) < 1e-2 * self.lam_unit or \
                np.max(np.abs(lam)) > 1e3 * self.lam_unit:
            return False
        for i in range(k):
            for j in range(i):
                if abs(lam[i] - lam[j]) < 0.02 * np.max(np.abs(lam)):
                    return False
        return True

    def dmd(self, tls=False, full=True, obj=None, puts=0.2, d=None):
        rng = self.rng
        cls = 'TLSqrDMDHandles' if tls else 'DMDHandles'
        d = d or self.dmd_data(tls)
        if d is None:
            return None
        obj = obj or self.new_dec(cls)
        k = dict(d['kw'])
        if d['B'] is not None:
            k['adv_vec_handles'] = self.HL(*d['Y'])
        self.op(op='call', obj=obj, m='compute_decomp',
                a=[self.HL(d['A'], d['ia'])], k=k)
        self.know(obj, 'eigvals', 'R_low_order_eigvecs',
                  'L_low_order_eigvecs', 'correlation_array',
                  'cross_correlation_array')
        if tls:
            self.know(obj, 'adv_correlation_array', 'sum_correlation_array',
                      'proj_correlation_array',
                      'sum_correlation_array_eigvals',
                      'sum_correlation_array_eigvecs',
                      'proj_correlation_array_eigvals',
                      'proj_correlation_array_eigvecs')
        else:
            self.know(obj, 'correlation_array_eigvals',
                      'correlation_array_eigvecs')
        d.update(obj=obj, cls=cls, kwcall=k)
        if full:
            self.dmd_rest(d, puts)
        return d

    def dmd_rest(self, d, puts):
        rng = self.rng
        obj = d['obj']
        # modes of real data may be real or complex, which a text handle
        # cannot tell apart
        self.no_text_out = not self.cplx
        todo = [rng.choice(['exact', 'proj', 'adjoint'])
                for _ in range(rng.choice([1, 2, 3]))]
        for j, w in enumerate(todo):
            kwn = 'adv_vec_handles' if w == 'exact' else 'vec_handles'
            ex = self.other(len(d['Y'][1]), d['vt']) if \
                j == len(todo) - 1 and self.unrelated and \
                rng.random() < 0.15 else None
            if ex is None and rng.random() < 0.25:
                if w == 'exact':
                    ex = self.HL(*d['Y'])
                elif d['B'] is None:
                    ex = self.HL(d['A'], d['ia'])
                else:
                    ex = self.HL(*d['X'])
            self.modes(obj, 'compute_%s_modes' % w, d['kept'], d['vt'],
                       ex, kwn)
        self.no_text_out = False
        if rng.random() < 0.6:
            self.op(op='call', obj=obj, m='compute_spectrum')
            self.know(obj, 'spectral_coeffs')
        if rng.random() < 0.6:
            self.op(op='call', obj=obj, m='compute_proj_coeffs')
            self.know(obj, 'proj_coeffs', 'adv_proj_coeffs')
        if rng.random() < 0.3:
            self.attr(obj, self.dec_names(d['cls']))
        self.puts(obj, d['cls'], puts)

    def dec_names(self, cls):
        from .oracle import Model
        return list(Model.GETS[cls]['get_decomp']) + (
            ['correlation_array', 'cross_correlation_array']
            if 'DMD' in cls else [])

    # Galerkin
    def galerkin(self, obj=None, puts=0.4):
        rng = self.rng
        for _ in range(60):
            r = rng.randrange(1, 5)
            A = self.inset(r)
            vt = self.data[A]['vtype']
            if self.size_of(A) < r:
                del self.data[A]
                continue
            adj = None
            names = [A]
            if rng.random() < 0.5:
                adj = self.alias(A) if rng.random() < 0.3 else \
                    self.inset(r, vt=vt)
                if adj != A and self.data[adj]['vtype'] != vt:
                    del self.data[adj], self.data[A]
                    continue
                names.append(adj)
            orth = rng.random() < 0.4
            G = self.gram(adj or A, range(r), A, range(r))
            if orth or np.linalg.cond(G) < 1e3:
                break
            for nm in set(names):
                del self.data[nm]
        else:
            return None
        k = {}
        if adj:
            k['adjoint_basis_vec_handles'] = self.HL(adj, range(r))
        if orth or rng.random() < 0.4:
            k['is_basis_orthonormal'] = orth
        k['basis_vec_handles'] = self.HL(A, range(r))
        obj = obj or self.new_dec('LTIGalerkinProjectionHandles', k=k)

        def img(c):
            for _ in range(40):
                nm = self.inset(c, vt=vt)
                if self.data[nm]['vtype'] == vt:
                    return self.HL(nm, range(c))
                del self.data[nm]
            return self.HL(A, [rng.randrange(r) for _ in range(c)])

        def carg():
            m = rng.randrange(1, 4)
            g = np.random.RandomState(rng.randrange(1 << 30))
            return [[float(x) for x in g.randint(-4, 5, size=m)]
                    for _ in range(r)]
        todo = rng.choice([['A', 'B', 'C'], ['B', 'A'], ['A', 'A', 'B'],
                           ['model'], ['model', 'A'], ['B', 'model'],
                           ['B', 'C', 'A', 'B']])
        for w in todo:
            if w == 'model':
                self.op(op='call', obj=obj, m='compute_model',
                        a=[img(r), img(rng.randrange(1, 4)), carg()])
                self.know(obj, 'A_reduced', 'B_reduced', 'C_reduced')
            elif w == 'C':
                self.op(op='call', obj=obj, m='reduce_C', a=[carg()])
                self.know(obj, 'C_reduced')
            else:
                c = r if w == 'A' else rng.randrange(1, 4)
                self.op(op='call', obj=obj, m='reduce_' + w, a=[img(c)])
                self.know(obj, w + '_reduced')
        self.puts(obj, 'LTIGalerkinProjectionHandles', puts)
        return dict(obj=obj)

    def M(self, name, idx):
        m = {'M': [name, list(idx)]}
        r = self.rng.random()
        if r < 0.3:
            m['as'] = self.rng.choice(['F', 'matrix', 'list'])
        return m

    def weights_arg(self):
        w = (self.sc.get('ip') or {}).get('w')
        return {'inner_product_weights': {'W': w['dim']}} if w else {}

    def array_image(self, c, vt):
        rng = self.rng
        while True:
            nm = self.inset(c, vt=vt)
            if self.data[nm]['vtype'] == vt:
                return nm
            del self.data[nm]

    def galerkin_arrays(self, puts=0.4):
        """The array class, which runs in a job of one worker only."""
        rng = self.rng
        for _ in range(60):
            r = rng.randrange(1, 5)
            A = self.inset(r)
            vt = self.data[A]['vtype']
            if self.size_of(A) < r:
                del self.data[A]
                continue
            adj = self.array_image(r, vt) if rng.random() < 0.5 else None
            orth = rng.random() < 0.4
            G = self.gram(adj or A, range(r), A, range(r))
            if orth or np.linalg.cond(G) < 1e3:
                break
            for nm in [A, adj]:
                self.data.pop(nm, None)
        else:
            return None
        k = dict(self.weights_arg(), basis_vecs=self.M(A, range(r)))
        if adj:
            k['adjoint_basis_vecs'] = self.M(adj, range(r))
        if orth or rng.random() < 0.4:
            k['is_basis_orthonormal'] = orth
        obj = self.name('d')
        op = dict(op='new', cls='LTIGalerkinProjectionArrays', obj=obj, k=k,
                  ip=False, **({'arrays': 'put'} if self.io else {}))
        if self.n > 1:
            self.op(raises={'types': ['RuntimeError'], 'why': 'there are %d '
                            'workers' % self.n}, catch=True, **op)
            return dict(obj=None)
        self.op(**op)

        def img(c):
            return self.M(self.array_image(c, vt), range(c))

        def carg():
            g = np.random.RandomState(rng.randrange(1 << 30))
            return g.randint(-4, 5, size=(rng.randrange(1, 4), r)
                             ).astype(float).tolist()
        for w in rng.choice([['A', 'B', 'C'], ['B', 'A'], ['A', 'A', 'B'],
                             ['model'], ['model', 'A'], ['B', 'model'],
                             ['B', 'C', 'A', 'B']]):
            if w == 'model':
                self.op(op='call', obj=obj, m='compute_model',
                        a=[img(r), img(rng.randrange(1, 4)), carg()])
                self.know(obj, 'A_reduced', 'B_reduced', 'C_reduced')
            elif w == 'C':
                self.op(op='call', obj=obj, m='reduce_C', a=[carg()])
                self.know(obj, 'C_reduced')
            else:
                self.op(op='call', obj=obj, m='reduce_' + w,
                        a=[img(r if w == 'A' else rng.randrange(1, 4))])
                self.know(obj, w + '_reduced')
        self.puts(obj, 'LTIGalerkinProjectionArrays', puts)
        return dict(obj=obj)

    def derivs_arrays(self):
        rng = self.rng
        c = rng.randrange(1, 6)
        A = self.inset(c)
        B = self.array_image(c, self.data[A]['vtype'])
        k = rng.randrange(1, c + 1)
        self.op(op='func', m='compute_derivs_arrays',
                a=[self.M(A, idx_of(rng, c, k)), self.M(B, idx_of(rng, c, k)),
                   rng.choice([1.0, 0.5, 0.1, 2, -0.25])])
        if rng.random() < 0.3:
            self.op(op='func', m='standard_basis', a=[rng.randrange(1, 7)])

    def derivs(self):
        rng = self.rng
        c = ncount(rng, self.n)
        A = self.inset(c)
        vt = self.data[A]['vtype']
        B = A
        if rng.random() < 0.6:
            for _ in range(40):
                B = self.inset(c, vt=vt)
                if self.data[B]['vtype'] == vt:
                    break
                del self.data[B]
                B = A
        k = rng.randrange(1, c + 1)
        O = self.outset(k, vt)
        ia, ib = idx_of(rng, c, k), idx_of(rng, c, k)
        self.op(op='func', m='compute_derivs_handles',
                a=[self.HL(A, ia), self.HL(B, ib), self.HL(O, range(k)),
                   rng.choice([1.0, 0.5, 0.1, 2, -0.25])],
                vis=self.vis(O, range(k)))

    # ---- parallel helpers --------------------------------------------------
    def value_arg(self, big=True):
        rng = self.rng
        k = rng.choice(['int', 'float', 'array', 'str', 'list', 'none', 'bool']
                       + (['big'] if big else []))
        v = {'kind': k, 'seed': rng.randrange(9999)}
        if k == 'array':
            v['shape'] = rng.choice([[3], [2, 2], [1], [0], [4, 1]])
        return {'rankval': v}

    def weights(self, c):
        """Task weights (None: uniform)."""
        rng = self.rng
        m = rng.choice(['none', 'ones', 'const', 'int', 'int', 'float',
                        'zeros', 'tail', 'huge', 'tri', 'desc'])
        if m == 'none' or c == 0:
            return None
        if m == 'ones':
            return [1] * c
        if m == 'const':
            return [rng.choice([0.1, 2.5, 7, 1e-9, 1e12])] * c
        if m == 'int':
            return [rng.randrange(1, 9) for _ in range(c)]
        if m == 'float':
            return [rng.random() * 10 ** rng.randrange(-3, 4)
                    for _ in range(c)]
        if m == 'zeros':
            w = [rng.choice([0, 0, 1, 3]) for _ in range(c)]
            w[rng.randrange(c)] = 2
            return w
        if m == 'tail':
            k = rng.randrange(1, c + 1)
            return [rng.randrange(1, 5) for _ in range(k)] + [
                rng.choice([0, 0.0, 1e-18])] * (c - k)
        if m == 'huge':
            w = [1] * c
            w[rng.randrange(c)] = 10 ** rng.randrange(2, 9)
            return w
        if m == 'tri':
            return list(range(1, c + 1))
        return [c - i for i in range(c)]

    def helper(self, m=None):
        rng = self.rng
        m = m or rng.choice([
            'get_rank', 'get_num_procs', 'get_num_MPI_workers',
            'get_num_nodes', 'is_distributed', 'is_rank_zero',
            'get_hostname', 'get_node_ID', 'barrier', 'barrier',
            'call_and_bcast', 'call_and_bcast', 'call_from_rank_zero',
            'bcast', 'bcast', 'print_from_rank_zero', 'check_for_empty_tasks',
            'find_assignments', 'find_assignments', 'find_assignments',
            'find_assignments'])
        a, k = [], {}
        if m in ('call_and_bcast', 'call_from_rank_zero'):
            a = [{'fn': {'name': self.name('f'),
                         'val': rng.choice([None, 1, 'x', [1, 2], 2.5])}}]
            a += [rng.randrange(9) for _ in range(rng.randrange(3))]
            for nm in rng.sample(['p', 'q'], rng.randrange(3)):
                k[nm] = rng.randrange(9)
        elif m == 'bcast':
            a = [self.value_arg()]
        elif m == 'print_from_rank_zero':
            a = ['<%s>' % self.name('m')]
        elif m == 'check_for_empty_tasks':
            a = [[list(range(rng.choice([0, 1, 1, 2])))
                  for _ in range(rng.randrange(0, 5))]]
        elif m == 'find_assignments':
            c = rng.choice([0, 1, 2, self.n - 1, self.n, self.n + 1,
                            2 * self.n + 1, rng.randrange(0, 40)])
            a = [[rng.choice([i, 't%d' % i]) for i in range(c)]]
            w = self.weights(c)
            if w is not None:
                if rng.random() < 0.3:
                    a.append(w)
                else:
                    k['task_weights'] = w
        self.op(op='func', m='parallel.' + m, a=a, k=k)

    RED_KINDS = {
        'SUM': ['int', 'float', 'array', 'str', 'list', 'mat', 'big'],
        'PROD': ['int', 'float', 'array'],
        'MAX': ['int', 'float', 'str'], 'MIN': ['int', 'float', 'str'],
        'LAND': ['bool', 'small'], 'LOR': ['bool', 'small'],
        'LXOR': ['bool', 'small'],
        'BAND': ['small', 'int'], 'BOR': ['small', 'int'],
        'BXOR': ['small', 'int'],
        'MINLOC': ['small', 'int', 'float'], 'MAXLOC': ['small', 'int',
                                                        'float'],
        'concat': ['str', 'list'], 'matmul': ['mat'],
    }

    def reduction(self, n=None):
        rng = self.rng
        m = rng.choice(['reduce', 'reduce', 'allreduce', 'scan', 'exscan'])
        opn = rng.choice(['SUM', 'SUM', 'concat', 'concat', 'matmul'] +
                         sorted(self.RED_KINDS))
        kd = rng.choice(self.RED_KINDS[opn])
        v = {'kind': kd, 'seed': rng.randrange(9999)}
        if kd == 'array':
            v['shape'] = rng.choice([[3], [2, 2], [1], [5, 3]])
            v['dtype'] = rng.choice(['float64', 'int64', 'complex128'])
        k = {}
        if opn != 'SUM' or rng.random() < 0.5:
            k['op'] = {'user_op': opn} if opn in ('concat', 'matmul') else {
                'op': opn}
        if m == 'reduce' and rng.random() < 0.75:
            k['root'] = rng.randrange(self.n)
        self.op(op='comm', m=m, a=[{'rankval': v}], k=k)
