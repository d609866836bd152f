"""C27: calls that cannot be answered are refused by every worker."""
from . import gen
from .oracle import Model, need
from .play import kind, live
from .props import builder, plain, prop
from .props_rel import explicit_modes, make, put_all, saved_by

VALUE = ['ValueError']
ANY = None


def refuse(b, why, types=ANY, **op):
    return b.op(catch=True, raises={'types': types, 'why': why}, **op)


def new_out(b, c, vt):
    return b.HL(b.outset(c, vt, hk=b.rng.choice(['sim', 'sim', 'duck'])),
                range(c))


def wrong(rng, n, lo=1, hi=20, not_=()):
    """A count near n that is not n."""
    ok = [c for c in (n - 2, n - 1, n + 1, n + 2, 2 * n, n * n, 1, hi)
          if lo <= c <= hi and c != n and c not in not_]
    return rng.choice(ok)


def many(b, c, vt):
    """c handles of vectors of the right type."""
    while True:
        k = b.rng.randrange(1, 5)
        nm = b.inset(k, vt=vt)
        if b.data[nm]['vtype'] == vt:
            return b.HL(nm, [b.rng.randrange(k) for _ in range(c)])
        del b.data[nm]


def bad_lin(b, vs):
    rng = b.rng
    nb, ns = rng.choice([1, 1, 2, 3, 4, 7]), rng.choice([1, 1, 2, 3, 4, 7])
    A = b.inset(nb)
    vt = b.data[A]['vtype']
    c = {'seed': rng.randrange(999), 'kind': 'int'}
    k, types = {}, VALUE
    w = rng.choice(['rows', 'cols', 'both', 'swap', '1d', 'sel', 'index'])
    if w == 'swap' and nb == ns:
        w = 'rows'
    if w == 'rows':
        c['shape'] = [wrong(rng, nb), ns]
        why = 'there are %d coefficient rows for %d basis vectors' % (
            c['shape'][0], nb)
    elif w == 'cols':
        c['shape'] = [nb, wrong(rng, ns)]
        why = 'there are %d coefficient columns for %d outputs' % (
            c['shape'][1], ns)
    elif w == 'both':
        c['shape'] = [wrong(rng, nb), wrong(rng, ns)]
        why = 'coefficients of shape %s are given for %d vectors and %d ' \
            'outputs' % (c['shape'], nb, ns)
    elif w == 'swap':
        c['shape'] = [ns, nb]
        why = 'the coefficients are transposed'
    elif w == '1d':
        if nb == 1:
            c['shape'] = [wrong(rng, ns)]
        elif ns == 1:
            c['shape'] = [wrong(rng, nb)]
        else:
            c['shape'] = [rng.choice([nb, ns])]
        why = '%d coefficients are given for %d vectors and %d outputs' % (
            c['shape'][0], nb, ns)
    elif w == 'sel':
        nc = ns + rng.randrange(0, 3)
        c['shape'] = [nb, nc]
        m = wrong(rng, ns)
        k['coeff_array_col_indices'] = [rng.randrange(nc) for _ in range(m)]
        why = '%d columns are selected for %d outputs' % (m, ns)
    else:
        c['shape'] = [nb, ns]
        sel = list(range(ns))
        sel[rng.randrange(ns)] = ns + rng.choice([0, 1, 9])
        k['coeff_array_col_indices'] = sel
        why, types = 'column %d does not exist' % max(sel), ['IndexError']
    refuse(b, why, types, op='call', obj=vs, m='lin_combine', k=k,
           a=[new_out(b, ns, vt), b.HL(A, range(nb)), {'arr': c}])


def bad_vs(b):
    """Vector space without an inner product."""
    rng = b.rng
    vs = b.name('vs')
    b.op(op='new', cls='VectorSpaceHandles', obj=vs, ip=False,
         k={'max_vecs_per_node': gen.mpn(rng, b.sc),
            'verbosity': rng.choice([0, 1])})
    A = b.inset(gen.ncount(rng, b.n))
    if rng.random() < 0.3:
        b.lin(vs, A)
    H = b.H(A, range(b.data[A]['count']))
    for m in rng.sample(['compute_inner_product_array',
                         'compute_symm_inner_product_array'],
                        rng.choice([1, 2])):
        refuse(b, 'there is no inner product', ['RuntimeError'], op='call',
               obj=vs, m=m, a=[H] if 'symm' in m else [H, H])
    if rng.random() < 0.5:
        b.lin(vs, A)


def bad_derivs(b):
    rng = b.rng
    n = [rng.choice([1, 2, 3, 5])] * 3
    i = rng.randrange(3)
    n[i] = wrong(rng, n[i], lo=0)
    if rng.random() < 0.3:
        n[(i + 1) % 3] = wrong(rng, n[(i + 2) % 3])
    A = b.inset(rng.randrange(1, 4))
    vt = b.data[A]['vtype']
    H = [b.HL(A, [rng.randrange(b.data[A]['count']) for _ in range(c)])
         for c in n[:2]]
    O = new_out(b, n[2], vt) if n[2] else []
    refuse(b, 'there are %d vectors, %d advanced vectors and %d derivatives'
           % tuple(n), ['RuntimeError'], op='func',
           m='compute_derivs_handles', a=H + [O, rng.choice([1.0, 0.5])])


def bad_galerkin(b):
    rng = b.rng
    r = rng.choice([1, 2, 3, 5])
    A = b.inset(r)
    vt = b.data[A]['vtype']
    q = wrong(rng, r)
    refuse(b, 'there are %d basis vectors and %d adjoint ones' % (r, q),
           VALUE, op='new', cls='LTIGalerkinProjectionHandles',
           obj=b.name('d'),
           k={'basis_vec_handles': b.HL(A, range(r)),
              'adjoint_basis_vec_handles': many(b, q, vt),
              'is_basis_orthonormal': rng.random() < 0.5})


def early(b, cls):
    """Uses of an object that has not computed or restored anything."""
    rng = b.rng
    obj = b.new_dec(cls)
    names = {
        'PODHandles': ['compute_modes', 'compute_proj_coeffs'],
        'BPODHandles': ['compute_direct_modes', 'compute_adjoint_modes',
                        'compute_direct_proj_coeffs',
                        'compute_adjoint_proj_coeffs'],
        }.get(cls, ['compute_exact_modes', 'compute_proj_modes',
                    'compute_adjoint_modes', 'compute_spectrum',
                    'compute_proj_coeffs'])
    for m in rng.sample(names, rng.choice([1, 2])):
        a, k = [], {}
        if 'modes' in m:
            A = b.inset(2)
            a = [[0], new_out(b, 1, b.data[A]['vtype'])]
            kw = {'compute_modes': 'vec_handles',
                  'compute_direct_modes': 'direct_vec_handles',
                  'compute_exact_modes': 'adv_vec_handles',
                  'compute_proj_modes': 'vec_handles'}.get(
                      m, 'adjoint_vec_handles' if cls == 'BPODHandles'
                      else 'vec_handles')
            if rng.random() < 0.5:
                k[kw] = b.HL(A, [0, 1])
        refuse(b, 'nothing was computed or restored before', ANY, op='call',
               obj=obj, m=m, a=a, k=k)
    return obj


def held(b, obj, kw):
    """How many vectors of this kind the object has been given; None when a
    refused call left that open."""
    n = 0
    for op in b.prog:
        if op.get('obj') != obj or op['op'] != 'call':
            continue
        k = op.get('k') or {}
        first = {'direct_vec_handles': 0, 'adjoint_vec_handles': 1,
                 'vec_handles': 0}.get(kw)
        if op['m'] == 'compute_decomp':
            if op.get('raises'):
                n = None
            elif first is not None and len(op['a']) > first:
                n = len(op['a'][first]['H'][1])
            else:
                n = len(k[kw]['H'][1]) if kw in k else 0
        elif kw in k:
            n = None if op.get('raises') else len(k[kw]['H'][1])
    return n


def bad_modes(b, obj, d, own):
    """One mode computation that cannot be done; ``own``: the object still
    has the vectors of its decomposition."""
    rng = b.rng
    cls, kept, vt = d['cls'], d['kept'], d['vt']
    if cls == 'PODHandles':
        m, kw, rows = 'compute_modes', 'vec_handles', len(d['idx'])
        src, fits = b.HL(d['A'], d['idx']), [rows]
    elif cls == 'BPODHandles':
        m, kw, S, ix = rng.choice([
            ('compute_direct_modes', 'direct_vec_handles', 'D', 'di'),
            ('compute_adjoint_modes', 'adjoint_vec_handles', 'J', 'ai')])
        rows = len(d[ix])
        src, fits = b.HL(d[S], d[ix]), [rows]
    else:
        m = rng.choice(['compute_exact_modes', 'compute_proj_modes',
                        'compute_adjoint_modes'])
        rows = len(d['Y'][1])
        if 'exact' in m:
            kw, fits = 'adv_vec_handles', [rows]
            src = b.HL(*d['Y'])
        else:
            # a sequential dataset has one vector more
            kw, fits = 'vec_handles', [rows, rows + 1]
            src = b.HL(*d['X']) if d['B'] is not None else b.HL(
                d['A'], d['ia'])
    k = {} if own and rng.random() < 0.4 else {kw: src}
    w = rng.choice(['index', 'outs', 'outs', 'vecs', 'vecs'])
    none = held(b, obj, kw) == 0
    if 'exact' in m:
        # a sequential dataset has its advanced vectors among the others
        none = none and held(b, obj, 'vec_handles') not in (None, rows + 1)
    if none and rng.random() < 0.6:
        w = 'none'
    types = VALUE
    idx, nout = b.modesel(kept)
    idx = list(idx)
    if w == 'index':
        idx[rng.randrange(len(idx))] = kept + rng.choice([0, 0, 1, 50])
        types, why = ['IndexError'], 'mode %d does not exist' % max(idx)
    elif w == 'outs':
        nout = wrong(rng, len(idx))
        why = '%d modes are to be put to %d handles' % (len(idx), nout)
    elif w == 'vecs':
        c = wrong(rng, rows, not_=fits)
        k = {kw: many(b, c, vt)}
        why = '%d vectors are given for a decomposition of %d' % (c, rows)
    else:
        k = {}
        why = 'the object has no vectors'
        types = {'BPODHandles': ['UndefinedError']}.get(cls, ANY)
        if 'exact' in m:
            types = VALUE
    refuse(b, why, types, op='call', obj=obj, m=m, k=k,
           a=[idx, new_out(b, nout, vt)])


def bad_decomp(b, obj, cls, vt):
    rng = b.rng
    n = rng.choice([1, 2, 3, 5])
    c = wrong(rng, n)
    refuse(b, 'there are %d vectors and %d advanced ones' % (n, c), VALUE,
           op='call', obj=obj, m='compute_decomp', a=[many(b, n, vt)],
           k={'adv_vec_handles': many(b, c, vt)})


def coeffs(b, rng, cls, obj):
    for m in {'PODHandles': ['compute_proj_coeffs'],
              'BPODHandles': ['compute_direct_proj_coeffs',
                              'compute_adjoint_proj_coeffs']}.get(
                                  cls, ['compute_spectrum',
                                        'compute_proj_coeffs']):
        if rng.random() < 0.4:
            b.op(op='call', obj=obj, m=m)


def dec_case(b, rng):
    fam = rng.choice(['pod', 'bpod', 'dmd', 'dmd', 'tls', 'tls'])
    cls = {'pod': 'PODHandles', 'bpod': 'BPODHandles', 'dmd': 'DMDHandles',
           'tls': 'TLSqrDMDHandles'}[fam]
    b.no_text_out = 'DMD' in cls and not b.cplx
    obj = early(b, cls) if rng.random() < 0.25 else None
    if obj and rng.random() < 0.3:
        return True
    d = make(b, fam, full=False, **({'obj': obj} if obj else {}))
    if not d:
        return None
    obj, own = d['obj'], True
    if rng.random() < 0.4:
        put_all(b, obj, cls)
        saved = saved_by(b.prog, obj)
        obj, own = b.new_dec(cls), False
        for m, names in sorted(Model.GETS[cls].items()):
            if all(nm in saved for nm in names):
                b.op(op='call', obj=obj, m=m,
                     a=[{'path': saved[nm]} for nm in names])
    if rng.random() < 0.5:
        # some kinds of vectors, not all
        explicit_modes(b, rng, obj, d, 0.3)
        own = False
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if cls == 'TLSqrDMDHandles' and r < 0.15:
            refuse(b, 'TLSqrDMD has no such array', ['NotImplementedError'],
                   op='call', obj=obj, a=[{'path': b.name('a')}],
                   m=rng.choice(['put_correlation_array_eigvals',
                                 'put_correlation_array_eigvecs']))
            continue
        elif 'DMD' in cls and r < 0.35:
            bad_decomp(b, obj, cls, d['vt'])
        else:
            bad_modes(b, obj, d, own)
        own = False
        if rng.random() < 0.6:
            explicit_modes(b, rng, obj, d)
    if rng.random() < 0.7:
        explicit_modes(b, rng, obj, d)
    coeffs(b, rng, cls, obj)
    if rng.random() < 0.3:
        b.attr(obj, b.dec_names(cls))
    return True


ARRAY_FUNCS = {
    'pod': ['compute_POD_arrays_snaps_method',
            'compute_POD_arrays_direct_method'],
    'bpod': ['compute_BPOD_arrays'],
    'dmd': ['compute_DMD_arrays_snaps_method',
            'compute_DMD_arrays_direct_method'],
    'tls': ['compute_TLSqrDMD_arrays_snaps_method',
            'compute_TLSqrDMD_arrays_direct_method']}


def array_case(b, rng):
    """Array functions: in a job of several workers, or with arrays that do
    not fit."""
    fam = rng.choice(sorted(ARRAY_FUNCS))
    f = rng.choice(ARRAY_FUNCS[fam])
    c = rng.choice([2, 3, 4])
    A = b.inset(c)
    vt = b.data[A]['vtype']
    a, k = [b.M(A, range(c))], {}
    if fam == 'bpod':
        a.append(b.M(b.array_image(c, vt), range(c)))
    elif fam in ('dmd', 'tls'):
        adv = wrong(rng, c) if b.n == 1 else c
        if b.n == 1 or rng.random() < 0.5:
            k['adv_vecs'] = b.M(b.array_image(adv, vt), range(adv))
    elif b.n == 1:
        return None
    if b.n == 1 and fam == 'bpod':
        return None
    if b.n > 1:
        refuse(b, 'there are %d workers' % b.n, ['RuntimeError'], op='func',
               m=f, a=a, k=k)
    else:
        refuse(b, 'the arrays have different shapes', VALUE, op='func', m=f,
               a=a, k=k)
    return True


def galerkin_arrays(b, rng):
    r = rng.choice([1, 2, 3])
    A = b.inset(r)
    q = wrong(rng, r)
    B = b.array_image(q, b.data[A]['vtype'])
    k = {'basis_vecs': b.M(A, range(r)), 'adjoint_basis_vecs': b.M(
        B, range(q))}
    refuse(b, 'the bases have different shapes', VALUE if b.n == 1 else
           ['RuntimeError'], op='new', cls='LTIGalerkinProjectionArrays',
           obj=b.name('d'), k=k, ip=False)


def series_case(b, rng):
    """Markov parameters and signals of the wrong size."""
    def arr(*shape):
        return {'arr': {'shape': list(shape), 'seed': rng.randrange(999),
                        'kind': rng.choice(['int', 'float'])}}
    p, q = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
    w = rng.choice(['okid', 'format', 'spacing', 'dims', 'short', 'weights'])
    if w == 'okid':
        n = rng.randrange(6, 15)
        c = wrong(rng, n, lo=4)
        i, o = arr(p, n), arr(q, c)
        if rng.random() < 0.3:
            i = arr(n)
        refuse(b, 'there are %d samples of inputs and %d of outputs' % (n, c),
               VALUE, op='func', m='OKID', a=[i, o, rng.choice([2, 3])])
    elif w == 'format':
        n = rng.randrange(2, 9)
        c = wrong(rng, n, lo=2)
        refuse(b, 'there are %d times and %d parameters' % (n, c),
               ['RuntimeError'], op='func', m='make_sampled_format',
               a=[[0.5 * x for x in range(n)], arr(c, q, p)])
    elif w == 'spacing':
        n = rng.randrange(3, 9)
        t = [0.5 * x for x in range(n)]
        k = rng.randrange(1, n)
        t = [x + (rng.choice([0.25, -0.25]) if j >= k else 0)
             for j, x in enumerate(t)]
        if k == 1 and n == 2:
            return None
        if rng.random() < 0.5:
            t = t[::-1]
        refuse(b, 'the times are not equally spaced', VALUE, op='func',
               m='make_sampled_format', a=[t, arr(n, q, p)])
    elif w == 'weights':
        refuse(b, 'weights have three dimensions', VALUE, op='new',
               cls='VectorSpaceArrays', ip=False, obj=b.name('vs'),
               k={'weights': arr(2, rng.choice([2, 3]), 2)})
    else:
        X = b.name('era')
        b.op(op='new', cls='ERA', obj=X, ip=False)
        k = {}
        if w == 'dims':
            a = [arr(6, q, p, rng.choice([1, 2]))]
            types, why = ['RuntimeError'], 'the Markov parameters have ' \
                'four dimensions'
        else:
            mc, mo = rng.randrange(1, 6), rng.randrange(1, 6)
            nt = mc + mo + 2 - rng.choice([1, 1, 2])
            sh = rng.choice([(nt,), (nt, q), (nt, q, p)])
            a, types = [arr(*sh)], VALUE
            why = '%d samples are not enough for mc=%d, mo=%d' % (nt, mc, mo)
            k = {'mc': mc, 'mo': mo}
        refuse(b, why, types, op='call', obj=X, m='compute_model',
               a=a + [rng.choice([1, 2])], k=k)
    return True


@prop
def g_C27(rng):
    b = builder(rng, n=1 if rng.random() < 0.12 else None)
    b.sc.pop('hetero', None)
    b.with_vis = False
    w = gen.wchoice(rng, [('dec', 5), ('lin', 2), ('vs', 1), ('derivs', 1),
                          ('galerkin', 0.7), ('arrays', 1),
                          ('galerkin_arrays', 0.4), ('series', 0.7)])
    if w == 'dec':
        if not dec_case(b, rng):
            return None
    elif w == 'lin':
        vs = b.new_vs()
        for _ in range(rng.choice([1, 1, 2])):
            bad_lin(b, vs)
            if rng.random() < 0.5:
                b.lin(vs) if rng.random() < 0.5 else b.ip(vs)
    elif w == 'vs':
        bad_vs(b)
    elif w == 'derivs':
        bad_derivs(b)
        if rng.random() < 0.6:
            b.derivs()
    elif w == 'galerkin':
        bad_galerkin(b)
        if rng.random() < 0.5:
            b.galerkin()
    elif w == 'series':
        if not series_case(b, rng):
            return None
    elif w == 'arrays':
        if not array_case(b, rng):
            return None
        if rng.random() < 0.4:
            b.ip(b.new_vs())
    else:
        galerkin_arrays(b, rng)
    if b.n > 1 and rng.random() < 0.5:
        b.op(op='func', m='parallel.barrier')
    return plain(rng, b, 'misuse')


@kind
def play_misuse(pl, case):
    run = pl.job(case['sc'], case['strat'])
    live(run)
    m = Model(run)
    m.walk()
    prog = case['sc']['prog']
    bad = [i for i, op in enumerate(prog) if op.get('raises')]
    need_puts = set()
    for i in bad:
        for a in prog[i].get('a', []):
            if isinstance(a, dict) and 'path' in a:
                need_puts.add(a['path'])
    for step, r, dest, *_ in run.world.array_puts:
        need(dest not in need_puts, 'stray-put', 'worker %d saved %s, which '
             'it had to refuse' % (r, dest))
