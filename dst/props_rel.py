"""Properties that relate several executions: reuse of objects (C05), unlike
nodes (C06), crash and restore (C13), job sizes and array functions (C21)."""
import copy
import os
import random

import numpy as np

from . import gen
from .gen import Builder
from .harness import arr_of
from .oracle import KEYS, Model, agree, brief, close, need, same
from .play import Violation, first_exception, kind, live, opname
from .props import FIXED, builder, make, plain, prop
from .shrink import refs

DEC = {'pod': 'PODHandles', 'bpod': 'BPODHandles', 'dmd': 'DMDHandles',
       'tls': 'TLSqrDMDHandles', 'galerkin': 'LTIGalerkinProjectionHandles'}


def explicit_modes(b, rng, obj, d, prob=0.8):
    """Modes whose vectors are named in the call."""
    cls = d['cls']
    if cls == 'PODHandles':
        todo = [('compute_modes', b.HL(d['A'], d['idx']), 'vec_handles')]
    elif cls == 'BPODHandles':
        todo = [('compute_direct_modes', b.HL(d['D'], d['di']),
                 'direct_vec_handles'),
                ('compute_adjoint_modes', b.HL(d['J'], d['ai']),
                 'adjoint_vec_handles')]
    else:
        src = b.HL(d['A'], d['ia']) if d['B'] is None else b.HL(*d['X'])
        todo = [('compute_exact_modes', b.HL(*d['Y']), 'adv_vec_handles'),
                ('compute_proj_modes', src, 'vec_handles'),
                ('compute_adjoint_modes', src, 'vec_handles')]
    rng.shuffle(todo)
    b.no_text_out = 'DMD' in cls and not b.cplx
    some = False
    for m, h, kw in todo:
        if rng.random() < prob or not some:
            if rng.random() < 0.1:
                # unrelated vectors, as many as the decomposition's
                n = len(d['Y'][1]) if kw == 'adv_vec_handles' else (
                    len(h['H'][1]))
                h = b.other(n, d['vt']) or h
            b.modes(obj, m, d['kept'], d['vt'], h, kw)
            some = True
    b.no_text_out = False


def saved_by(prog, obj):
    """{attribute: destination} of every save of ``obj``."""
    out = {}
    for op in prog:
        if op.get('obj') == obj and op['op'] == 'call' and \
                op['m'].startswith('put_'):
            for nm, a in zip(Model.PUTS[op['cls']][op['m']]
                             if 'cls' in op else _put_names(prog, obj, op),
                             op['a']):
                out[nm] = a['path']
    return out


def _put_names(prog, obj, op):
    cls = next(q['cls'] for q in prog if q['op'] == 'new' and
               q['obj'] == obj)
    return Model.PUTS[cls][op['m']]


def put_all(b, obj, cls):
    for m, names in sorted(Model.PUTS[cls].items()):
        if len(names) == 1 and names[0] in b.state[obj] or \
                m == 'put_proj_coeffs' and all(
                    x in b.state[obj] for x in names):
            b.op(op='call', obj=obj, m=m, cls=cls,
                 a=[{'path': b.name('a')} for _ in names])


def restore(b, rng, obj, d, saved, coeffs=True):
    """Loads a saved decomposition and uses it, vectors named explicitly."""
    cls = d['cls']
    for m, names in sorted(Model.GETS[cls].items()):
        if not all(nm in saved for nm in names):
            continue
        b.op(op='call', obj=obj, m=m, a=[{'path': saved[nm]}
                                         for nm in names])
    b.attr(obj, sorted(set(nm for m, names in Model.GETS[cls].items()
                           if all(x in saved for x in names)
                           for nm in names)))
    explicit_modes(b, rng, obj, d)
    if not coeffs:
        return
    if cls == 'PODHandles':
        todo = ['compute_proj_coeffs']
    elif cls == 'BPODHandles':
        todo = ['compute_direct_proj_coeffs', 'compute_adjoint_proj_coeffs']
    elif 'correlation_array' in saved and 'cross_correlation_array' in saved:
        todo = ['compute_spectrum', 'compute_proj_coeffs']
    else:
        todo = []
    for m in todo:
        if rng.random() < 0.7:
            b.op(op='call', obj=obj, m=m)


# ---------------------------------------------------------------------------
# C05


def compare_ops(what, A, B, pairs):
    """Results of operation i of job A and j of job B on every worker."""
    for i, j in pairs:
        for r in range(A.sc['n']):
            x, y = A.results[r][i], B.results[r][j]
            need((x['exc'] is None) == (y['exc'] is None),
                 'differs', '%s: operation %d (%s) on worker %d %s, but %s' % (
                     what, i, opname(A.sc, i), r, exc_text(x), exc_text(y)))
            need(agree(x['val'], y['val'], 1e-9), 'differs',
                 '%s: operation %d (%s) on worker %d gave %s, but %s' % (
                     what, i, opname(A.sc, i), r, show(x['val']),
                     show(y['val'])))


def exc_text(rec):
    return 'returned' if rec['exc'] is None else 'raised %s: %s' % tuple(
        rec['exc'])


def show(v):
    try:
        if isinstance(v, (tuple, list)):
            return '(%s)' % ', '.join(show(x) for x in v)[:700]
        if isinstance(v, dict):
            return '{%s}' % ', '.join('%s: %s' % (k, show(v[k]))
                                      for k in sorted(v))[:700]
        return brief(v)
    except Exception:
        return repr(v)[:200]


@kind
def play_reuse(pl, case):
    sc = case['sc']
    A = pl.job(sc, case['strat'])
    keep = [i for i, op in enumerate(sc['prog']) if op.get('ph') != 'H']
    hist = [i for i in range(len(sc['prog'])) if i not in keep]
    last = [i for i in keep if sc['prog'][i].get('ph') == 'F']
    if not hist or not last:
        return
    scB = dict(sc, prog=[sc['prog'][i] for i in keep])
    scB.pop('faults', None)
    B = pl.job(scB, case['strat'])
    try:
        live(B)
    except Violation:
        pl.skip = 'the fresh object fails too'
        return
    if any(f[3] != 'stall' and (f[1] not in hist)
           for f in A.world.fault_log):
        pl.skip = 'the fault was not in the history'
        return
    for r in range(sc['n']):
        if len(A.results[r]) <= last[0] and A.outcome != 'ok':
            pl.skip = 'the history does not finish'
            return
        if len(A.results[r]) <= last[0] and not A.import_error:
            i = len(A.results[r]) - 1
            need(i < 0 or sc['prog'][i].get('ph') == 'F' or
                 A.results[r][i].get('exc') is None, 'history-failed',
                 'operation %d (%s) raised %s' % (
                     i, opname(sc, i), A.results[r][i].get('exc')))
    try:
        live(A)
    except Violation as v:
        raise Violation('reuse-' + v.cls, 'after the history, not on a fresh '
                        'object: ' + v.text)
    pos = {i: k for k, i in enumerate(keep)}
    compare_ops('used and fresh object', A, B, [(i, pos[i]) for i in last])
    sets, paths = set(), set()
    for i in last:
        sets |= refs(sc['prog'][i], 'H')
        paths |= refs(sc['prog'][i], 'path')
    for nm in sorted(sets):
        if not sc['data'][nm].get('out'):
            continue
        for j in range(sc['data'][nm]['count']):
            x, y = A.read_out(nm, j), B.read_out(nm, j)
            need(agree_out(x, y), 'output-differs', 'output %s.%d is %s, with '
                 'a fresh object %s' % (nm, j, show(x), show(y)))
    for p in sorted(paths):
        x, y = A.read_array(p), B.read_array(p)
        need(agree_out(x, y), 'array-differs', 'saved array %s is %s, with a '
             'fresh object %s' % (p, show(x), show(y)))


def agree_out(x, y):
    if x is None or y is None or isinstance(x, str) or isinstance(y, str):
        return type(x) == type(y) and (x is y or x == y)
    return agree(np.asarray(x), np.asarray(y), 1e-9)


def tag(b, start, ph):
    for op in b.prog[start:]:
        op['ph'] = ph


def failing(b, rng, X, fam, d):
    """A call every worker must refuse."""
    if fam == 'vs':
        A = b.inset(rng.randrange(1, 5))
        n = b.data[A]['count']
        O = b.outset(2, b.data[A]['vtype'])
        b.op(op='call', obj=X, m='lin_combine', catch=True,
             a=[b.HL(O, [0, 1]), b.HL(A, range(n)),
                {'arr': {'shape': [n + rng.choice([-1, 1, 2]) or 2,
                                   rng.choice([1, 2, 3])], 'seed': 1}}])
        return
    m = {'pod': 'compute_modes', 'bpod': rng.choice([
        'compute_direct_modes', 'compute_adjoint_modes'])}.get(
            fam, rng.choice(['compute_exact_modes', 'compute_proj_modes',
                             'compute_adjoint_modes']))
    w = rng.choice(['index', 'length', 'adv', 'early'])
    if w == 'adv' and fam in ('dmd', 'tls'):
        A, B = b.inset(3), b.inset(2)
        b.op(op='call', obj=X, m='compute_decomp', catch=True,
             a=[b.HL(A, range(3)), b.HL(B, range(2))])
        return
    O = b.outset(1, d['vt'] if d else 'user', hk='sim')
    k = {}
    if w == 'length':
        A = b.inset(1)
        kw = {'compute_modes': 'vec_handles',
              'compute_direct_modes': 'direct_vec_handles',
              'compute_exact_modes': 'adv_vec_handles',
              'compute_proj_modes': 'vec_handles'}.get(
                  m, 'adjoint_vec_handles' if fam == 'bpod'
                  else 'vec_handles')
        k[kw] = b.HL(A, [0] * rng.choice([14, 19]))
    b.op(op='call', obj=X, m=m, catch=True, k=k,
         a=[[99] if w == 'index' else [0], b.HL(O, [0])])


@prop
def g_C05(rng):
    if rng.random() < 0.08:
        from .props_more import era_case
        return era_case(rng, 'fresh')
    b = builder(rng, n=1 if rng.random() < 0.2 else None)
    b.sc.pop('hetero', None)
    b.with_vis = False
    fam = rng.choice(['vs', 'vs', 'pod', 'bpod', 'dmd', 'dmd', 'tls', 'tls',
                      'galerkin'])
    if fam == 'vs':
        reuse_vs(b, rng)
    elif fam == 'galerkin':
        reuse_galerkin(b, rng)
    else:
        reuse_dec(b, rng, fam)
    if not any(op.get('ph') == 'F' for op in b.prog) or \
            not any(op.get('ph') == 'H' for op in b.prog):
        return None
    if b.n == 1 and rng.random() < 0.6:
        for op in b.prog:
            if op.get('ph') == 'H' and op['op'] in ('call', 'func'):
                op['catch'] = True
        b.sc['faults'] = [
            {'rank': 0, 'op': rng.choice(['ip', 'get', 'get', 'put']),
             'nth': rng.randrange(0, rng.choice([12, 12, 30, 60])),
             'kind': rng.choice(['raise', 'nomem', 'oserror'])}]
        if fam not in ('vs', 'galerkin'):
            b.sc['cfg']['lapack_faults'] = True
            b.sc['faults'].append({'rank': 0, 'op': 'lapack', 'nth':
                                   rng.randrange(0, 4), 'kind': 'raise'})
    return plain(rng, b, 'reuse')


def reuse_vs(b, rng):
    X = b.new_vs()
    h0 = len(b.prog)
    used = {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        w = rng.choice(['ip', 'symm', 'lin', 'lin', 'fail', 'other', 'hget'])
        if w in ('ip', 'symm', 'lin'):
            r = getattr(b, w)(X)
            used.setdefault(w, []).append(r)
        elif w == 'fail':
            failing(b, rng, X, 'vs', None)
        elif w == 'other':
            Y = b.new_vs()
            getattr(b, rng.choice(['ip', 'symm', 'lin']))(Y)
        else:
            sets = [nm for nm, s in b.data.items() if not s.get('out')]
            if sets:
                nm = rng.choice(sets)
                b.op(op='hget', catch=True,
                     h=[nm, rng.randrange(b.data[nm]['count'])])
    tag(b, h0, 'H')
    f0 = len(b.prog)
    for _ in range(rng.choice([1, 1, 2])):
        w = rng.choice(['ip', 'symm', 'lin'])
        again = rng.random() < 0.5
        sets = [nm for nm, s in sorted(b.data.items()) if not s.get('out')]
        if w == 'ip':
            if again and used.get('ip'):
                b.ip(X, *rng.choice(used['ip']))
            elif again and sets:
                A = rng.choice(sets)
                b.ip(X, A, A)
            else:
                b.ip(X)
        else:
            getattr(b, w)(X, rng.choice(sets) if again and sets else None)
    tag(b, f0, 'F')


def reuse_galerkin(b, rng):
    d = None
    for _ in range(20):
        start = len(b.prog)
        d = b.galerkin(puts=0)
        calls = [i for i in range(start, len(b.prog))
                 if b.prog[i]['op'] == 'call']
        if d and len(calls) > 1:
            break
        del b.prog[start:]
        d = None
    if d is None:
        return
    cut = rng.choice(calls[1:])
    for i in calls:
        b.prog[i]['ph'] = 'H' if i < cut else 'F'
    if rng.random() < 0.3:           # another object in between
        other = b.prog[cut:]
        del b.prog[cut:]
        h0 = len(b.prog)
        b.galerkin(puts=0)
        tag(b, h0, 'H')
        b.prog.extend(other)


def reuse_dec(b, rng, fam):
    cls = DEC[fam]
    dP = saved = None
    if rng.random() < 0.55:
        dP = make(b, fam, puts=0)
        if dP:
            put_all(b, dP['obj'], cls)
            saved = saved_by(b.prog, dP['obj'])
    X = b.new_dec(cls)
    b.state = b.state or {}
    h0 = len(b.prog)
    dH = None
    for _ in range(rng.choice([1, 1, 2, 3])):
        w = rng.choice(['dec', 'dec', 'dec', 'restore', 'again', 'other',
                        'fail', 'hget'])
        if w == 'dec':
            b.state[X] = set()
            dH = make(b, fam, obj=X, puts=0.3) or dH
        elif w == 'restore' and dP:
            restore(b, rng, X, dP, saved)
        elif w == 'again' and dH:
            b.op(op='call', obj=X, m='compute_SVD' if fam == 'bpod' else
                 'compute_eigendecomp', k={'rtol': rng.choice([0.5, 0.99])})
        elif w == 'other':
            f = rng.choice(['pod', 'bpod', 'dmd', 'tls', fam])
            make(b, f, puts=0)
        elif w == 'fail':
            failing(b, rng, X, fam, dH)
        elif dH:
            nm = dH.get('A') or dH.get('D')
            b.op(op='hget', catch=True,
                 h=[nm, rng.randrange(b.data[nm]['count'])])
    tag(b, h0, 'H')
    f0 = len(b.prog)
    b.state[X] = set()
    m = rng.random()
    if dP and m < 0.3:
        restore(b, rng, X, dP, saved)
    elif dP and m < 0.5:
        names = {'pod': ['correlation_array'], 'bpod': ['Hankel_array'],
                 'dmd': ['correlation_array', 'cross_correlation_array'],
                 'tls': ['correlation_array', 'cross_correlation_array',
                         'adv_correlation_array']}[fam]
        b.op(op='set', obj=X, k={nm: {'ref': [dP['obj'], nm]}
                                 for nm in names})
        start = next(op for op in b.prog if op.get('obj') == dP['obj'] and
                     op.get('m') == 'compute_decomp')
        k = {x: v for x, v in start['k'].items()
             if x in ('atol', 'rtol', 'max_num_eigvals')}
        b.op(op='call', obj=X, m='compute_SVD' if fam == 'bpod' else
             'compute_eigendecomp', k=k)
        explicit_modes(b, rng, X, dP)
        b.attr(X, [nm for nm in b.dec_names(cls)])
    else:
        if dH and fam in ('dmd', 'tls') and rng.random() < 0.4:
            # the same snapshots, as a series or pairs of their own
            make(b, fam, obj=X, puts=0.4, d=dict(dH))
        elif dH and fam == 'bpod' and rng.random() < 0.4:
            make(b, fam, obj=X, puts=0.4, d=dH)
        elif dH and fam == 'pod' and rng.random() < 0.4:
            b.pod(obj=X, puts=0.4, data=(dH['A'], dH['idx'], (
                dH['kw'], dH['kept'])))
        else:
            make(b, fam, obj=X, puts=0.4)
        if len(b.prog) > f0:
            b.attr(X, b.dec_names(cls))
    tag(b, f0, 'F')


# ---------------------------------------------------------------------------
# C06


@kind
def play_unlike(pl, case):
    sc = case['sc']
    run = pl.job(sc, case['strat'])
    try:
        live(run)
        Model(run).walk()
    except Violation as v:
        if v.cls == 'workers-disagree':
            raise
        # is it the nodes being unlike, or would like nodes fail too?
        sc2 = {k: x for k, x in sc.items() if k != 'hetero'}
        run2 = pl.job(sc2, case['strat'])
        try:
            live(run2)
            Model(run2).walk()
        except Violation as v2:
            if v2.cls == 'workers-disagree':
                raise
            if os.environ.get('DST_DEBUG'):
                print('LIKE', v2)
            pl.skip = 'fails on like nodes too'
            return
        raise Violation('unlike-' + v.cls, 'right on like nodes, on unlike '
                        'nodes: ' + v.text)


@prop
def g_C06(rng):
    b = builder(rng, nmin=2)
    b.sc['hetero'] = rng.randrange(1, 1 << 20)
    b.near = rng.random() < 0.4
    b.degen = rng.random() < 0.4
    for _ in range(rng.choice([1, 1, 2])):
        fam = rng.choice(['pod', 'pod', 'bpod', 'dmd', 'dmd', 'tls',
                          'galerkin', 'ops'])
        if fam == 'tls':
            b.near = False
        if fam == 'ops':
            vs = b.new_vs()
            getattr(b, rng.choice(['ip', 'symm', 'lin']))(vs)
            continue
        d = make(b, fam, puts=0.25)
        if not d:
            continue
        names = set(b.state[d['obj']])
        if rng.random() < 0.4 and fam in ('pod', 'bpod', 'dmd', 'tls') and \
                not b.near:
            # save and load into an object of its own
            cls = d['cls']
            put_all(b, d['obj'], cls)
            Y = b.new_dec(cls)
            restore(b, rng, Y, d, saved_by(b.prog, d['obj']))
        b.attr(d['obj'], sorted(names))
    return plain(rng, b, 'unlike')


# ---------------------------------------------------------------------------
# C13


def acknowledged(run):
    """[(operation, attribute, destination)] of saves that returned on some
    worker."""
    out = []
    for i, op in enumerate(run.sc['prog']):
        if op['op'] != 'call' or not op['m'].startswith('put_'):
            continue
        if any(i < len(run.results[r]) and run.results[r][i].get('done') and
               run.results[r][i]['exc'] is None
               for r in range(run.sc['n'])):
            for nm, a in zip(Model.PUTS[op['cls']][op['m']], op['a']):
                out.append((i, nm, a['path']))
    return out


def stored_form(val, text):
    """The array a reader of the stored form gets."""
    a = np.array(val)
    if text and a.ndim < 2:
        a = a.reshape((-1, 1))
    return a


@kind
def play_restore(pl, case):
    sc = case['sc']
    text = sc.get('array_io') == 'text'
    R = case['restore']
    rng = random.Random(R['seed'])
    dry = pl.job(sc, case['strat'])
    try:
        live(dry)
        Model(dry).walk()
    except Violation:
        if case.get('known'):
            raise
        pl.skip = 'the job fails before anything is restored'
        return
    held, have = {}, set()
    writes, enough = [], None
    for i, op in enumerate(sc['prog']):
        if op['op'] == 'call' and op['m'].startswith('put_'):
            recs = [dry.results[r][i] for r in range(sc['n'])]
            writes.append((min(x['t0'] for x in recs),
                           min(x['t1'] for x in recs),
                           max(x['t1'] for x in recs)))
            prev = dry.results[0][i - 1]['val']
            for nm, a in zip(Model.PUTS[op['cls']][op['m']], op['a']):
                held[a['path']] = prev[nm]
                have.add(nm)
            if enough is None and have.issuperset(
                    Model.GETS[op['cls']]['get_decomp']):
                enough = writes[-1][1]
    if not writes:
        return
    end = dry.world.sched.step
    done = acknowledged(dry)
    run = dry
    if R.get('crash', True):
        late = 1
        if enough is not None and rng.random() < 0.85:
            # something can be restored after this
            late = enough + 1
        t0, t1, t2 = rng.choice([w for w in writes if w[1] + 1 >= late])
        m = rng.random()
        step = t1 + 1 if m < 0.4 else \
            rng.randrange(max(late, t0), t2 + 2) if m < 0.7 \
            else rng.randrange(late, max(end, late) + 1)
        scc = dict(sc, crash_step=step)
        if rng.random() < 0.5:
            scc['cfg'] = dict(sc['cfg'], torn_crash=True)
        run = pl.job(scc, case['strat'])
        done = acknowledged(run)
        for cls, txt in run.world.violations:
            raise Violation(cls, txt)
    saved = {}
    for i, nm, dest in done:
        v = run.read_array(dest)
        exp = held[dest]
        need(v is not None and not isinstance(v, str), 'save-lost',
             'array %s (%s, operation %d) had been saved before the job was '
             'killed at step %s of %d, and is %s afterwards' % (
                 dest, nm, i, run.world.cfg.get('crash_step'), end, v))
        e = text_of(exp) if text else np.asarray(exp)
        need(np.asarray(v).shape == e.shape and np.array_equal(
            np.asarray(v), e, equal_nan=True), 'save-damaged',
            'array %s (%s, operation %d) is %s after the job was killed, the '
            'object held %s' % (dest, nm, i, brief(v), brief(exp)))
        saved[nm] = dest
    # a new job restores what was saved
    d = case['dec']
    cls = d['cls']
    if not all(nm in saved for nm in Model.GETS[cls]['get_decomp']):
        pl.skip = 'killed before the decomposition was saved'
        return
    b = Builder(rng, {'n': R['n'], 'hosts': R['hosts'],
                      'cfg': dict(R['cfg']), 'data': {
                          k: v for k, v in sc['data'].items()
                          if not v.get('out')}, 'prog': [],
                      'array_io': sc.get('array_io', 'sim')})
    for k in ('ip',):
        if k in sc:
            b.sc[k] = sc[k]
    b.k = 1000
    b.dim, b.cplx = R['dim'], R['cplx']
    b.with_vis = False
    b.no_files = R['no_files']
    b.prog = b.sc['prog']
    b.data = b.sc['data']
    Y = b.new_dec(cls)
    restore(b, rng, Y, d, saved)
    b.sc['saved'] = {dest: stored_form(held[dest], text)
                     for dest in saved.values()}
    bad = R.get('bad')
    if bad:
        return play_bad(pl, case, run, b.sc, rng, bad, saved, cls)
    if case.get('known'):
        # only load, and look at what was loaded
        k = [op['op'] for op in b.sc['prog']].index('attr')
        del b.sc['prog'][k + 1:]
    new = pl.job(b.sc, R['strat'], store=run.world.store, scratch=run.scratch)
    try:
        live(new)
        check_restored(new, held, saved)
        RestoredModel(new, held, saved).walk()
    except Violation as v:
        raise Violation('restore-' + v.cls if not v.cls.startswith(
            'restore') else v.cls, 'in the new job of %d workers: %s' % (
                R['n'], v.text))


def text_of(a):
    a = np.array(a)
    if a.ndim < 2:
        a = a.reshape((-1, 1))
    if np.iscomplexobj(a):
        a = np.ascontiguousarray(a, dtype=complex).view(float)
    return a.astype(float)


ONE_D = ('eigvals', 'sing_vals', 'correlation_array_eigvals',
         'sum_correlation_array_eigvals', 'proj_correlation_array_eigvals')


def check_restored(run, held, saved):
    for i, op in enumerate(run.sc['prog']):
        if op['op'] != 'attr':
            continue
        for r in range(run.sc['n']):
            val = run.results[r][i]['val']
            for nm in op['names']:
                exp, got = np.asarray(held[saved[nm]]), val[nm]
                need(got is not None, 'restore-mismatch', 'restored %s is '
                     'None on worker %d' % (nm, r))
                got = np.asarray(got)
                if nm in ONE_D or exp.ndim == 2:
                    need(got.shape == exp.shape, 'restore-mismatch',
                         'restored %s has shape %s on worker %d, saved %s' % (
                             nm, got.shape, r, exp.shape))
                need(got.size == exp.size and np.array_equal(
                    np.ravel(got), np.ravel(exp), equal_nan=True),
                    'restore-mismatch', 'restored %s is %s on worker %d, '
                    'saved %s' % (nm, brief(got), r, brief(exp)))
        break


class RestoredModel(Model):
    """The model of a job whose object holds restored values."""

    def __init__(self, run, held, saved):
        Model.__init__(self, run)
        self.by_path = {dest: held[dest] for dest in saved.values()}
        self.sc = dict(self.sc, saved=self.by_path)

    def op_attr(self, i, op):
        self.agreed(i)           # check_restored has compared the values


def play_bad(pl, case, run, sc, rng, bad, saved, cls):
    """Missing or unreadable data: nobody returns, somebody raises."""
    gets = [i for i, op in enumerate(sc['prog'])
            if op['op'] == 'call' and op['m'].startswith('get_')]
    i = rng.choice(gets)
    dest = rng.choice(sc['prog'][i]['a'])['path']
    if sc.get('array_io') == 'text':
        path = os.path.join(run.scratch, 'arr.' + dest)
        if bad == 'missing':
            os.unlink(path)
        else:
            with open(path, 'wb') as fh:
                fh.write(b'\x93 not an array\n1.0 ?\n')
    elif bad == 'missing':
        run.world.store.pop('arr.' + dest, None)
    else:
        run.world.store['arr.' + dest] = b'not an array'
    first = next(k for k in gets if any(
        a['path'] == dest for a in sc['prog'][k]['a']))
    new = pl.job(sc, case['restore']['strat'], store=run.world.store,
                 scratch=run.scratch)
    if new.import_error:
        live(new)
    raised = False
    for r in range(sc['n']):
        res = new.results[r]
        if len(res) <= first:
            continue
        rec = res[first]
        need(not (rec.get('done') and rec['exc'] is None),
             'restored-from-nothing', '%s returned on worker %d although %s '
             'was %s' % (sc['prog'][first]['m'], r, dest,
                         'missing' if bad == 'missing' else 'unreadable'))
        raised = raised or (rec.get('done') and rec['exc'] is not None)
    need(raised, 'restore-error-lost', '%s raised on no worker although %s '
         'was %s (%s)' % (sc['prog'][first]['m'], dest, bad,
                          new.world.sched.detail))


@prop
def g_C13(rng):
    b = builder(rng)
    b.with_vis = False
    b.sc.pop('hetero', None)
    fam = rng.choice(['pod', 'bpod', 'dmd', 'tls'])
    b.cplx_saved = True
    if fam in ('pod', 'bpod') and not b.cplx and rng.random() < 0.6:
        b.sc['array_io'] = 'text'
        b.sc['cfg']['io_buffer'] = rng.choice([8192, 16, 64, 300])
    d = make(b, fam, puts=0)
    if not d:
        return None
    obj, cls = d['obj'], d['cls']
    # single saves, in any order, and sometimes everything at once
    todo = []
    if rng.random() < 0.5:
        todo.append('put_decomp')
    for m, names in sorted(Model.PUTS[cls].items()):
        if m != 'put_decomp' and all(x in b.state[obj] for x in names):
            if m in ('put_correlation_array', 'put_cross_correlation_array',
                     'put_Hankel_array') and rng.random() < 0.2:
                continue
            if todo[:1] == ['put_decomp'] and rng.random() < 0.4 and any(
                    x in Model.PUTS[cls]['put_decomp'] for x in names):
                continue
            todo.append(m)
    if rng.random() < 0.7:
        rng.shuffle(todo)
    for m in todo:
        names = Model.PUTS[cls][m]
        b.attr(obj, names)
        b.op(op='call', obj=obj, m=m, cls=cls,
             a=[{'path': b.name('a')} for _ in names])
    for _ in range(rng.choice([0, 0, 1])):
        vs = b.new_vs()
        b.symm(vs)
    c = plain(rng, b, 'restore')
    n2 = gen.wchoice(rng, gen.N_WEIGHTS) if rng.random() < 0.8 else b.n
    R = {'n': n2, 'hosts': gen.hosts_of(rng, n2),
         'cfg': {'p_rendezvous': rng.choice([0., 0.5, 1.]),
                 'p_sync': rng.choice([0., 0.5, 1.])},
         'seed': rng.randrange(1 << 30), 'strat': gen.strategy(rng, n2),
         'dim': b.dim, 'cplx': b.cplx, 'no_files': rng.random() < 0.7,
         'crash': rng.random() < 0.85}
    if rng.random() < 0.25:
        R['bad'] = rng.choice(['missing', 'garbage'])
        R['crash'] = False
    c['restore'], c['shrink_n'] = R, True
    c['dec'] = {k: v for k, v in d.items() if k not in ('kw', 'kwcall')}
    return c


def default_text(fam, cls, cplx):
    """The same thing with the package's default put and get functions, for
    the decompositions whose values are complex: one fixed scenario."""
    def case():
        rng = random.Random('default-text %s %s' % (fam, cplx))
        while True:
            b = gen.Builder(rng, {
                'n': 2, 'hosts': [0, 0], 'cfg': {}, 'data': {}, 'prog': [],
                'array_io': 'text'})
            b.cplx, b.with_vis, b.dim = cplx, False, 5
            d = make(b, fam, puts=0)
            if d and d['kept'] > 1:
                break
        obj = d['obj']
        names = Model.PUTS[cls]['put_decomp']
        b.attr(obj, names)
        b.op(op='call', obj=obj, m='put_decomp', cls=cls,
             a=[{'path': b.name('a')} for _ in names])
        return {'kind': 'restore', 'sc': b.sc,
                'strat': {'name': 'random', 'seed': 1},
                'known': 'roundtrip:%s:default-text%s' % (
                    cls, ':complex' if cplx else ''),
                'dec': {k: v for k, v in d.items()
                        if k not in ('kw', 'kwcall')},
                'restore': {'n': 2, 'hosts': [0, 0], 'cfg': {}, 'seed': 1,
                            'strat': {'name': 'random', 'seed': 2},
                            'dim': 5, 'cplx': cplx, 'no_files': True,
                            'crash': False}}
    return case


FIXED['C13'] = [default_text('dmd', 'DMDHandles', False),
                default_text('tls', 'TLSqrDMDHandles', False),
                default_text('pod', 'PODHandles', True),
                default_text('bpod', 'BPODHandles', True)]


# ---------------------------------------------------------------------------
# C21

ARRAY_FUNCS = {
    'pod': ['compute_POD_arrays_snaps_method',
            'compute_POD_arrays_direct_method'],
    'bpod': ['compute_BPOD_arrays'],
    'dmd': ['compute_DMD_arrays_snaps_method',
            'compute_DMD_arrays_direct_method'],
    'tls': ['compute_TLSqrDMD_arrays_snaps_method',
            'compute_TLSqrDMD_arrays_direct_method'],
}


# what the result of each array function holds
_DMD = ['exact_modes', 'proj_modes', 'adjoint_modes', 'spectral_coeffs',
        'proj_coeffs', 'adv_proj_coeffs', 'eigvals', 'R_low_order_eigvecs',
        'L_low_order_eigvecs']
FIELDS = {
    'pod': ['eigvals', 'modes', 'proj_coeffs', 'eigvecs'],
    'bpod': ['sing_vals', 'direct_modes', 'adjoint_modes',
             'direct_proj_coeffs', 'adjoint_proj_coeffs', 'L_sing_vecs',
             'R_sing_vecs', 'Hankel_array'],
    'dmd': _DMD + ['correlation_array_eigvals', 'correlation_array_eigvecs'],
    'tls': _DMD + [x + '_correlation_array_' + y for x in ('sum', 'proj')
                   for y in ('eigvals', 'eigvecs')],
}
FIELDS_SQUARED = {
    'pod': ['correlation_array'], 'bpod': [],
    'dmd': ['correlation_array', 'cross_correlation_array'],
    'tls': ['correlation_array', 'adv_correlation_array',
            'cross_correlation_array'],
}

SAME = ['correlation_array', 'cross_correlation_array',
        'adv_correlation_array', 'Hankel_array',
        'sum_correlation_array_eigvals', 'proj_correlation_array_eigvals',
        'correlation_array_eigvals']


def unit_factor(x, y, W):
    """The c with x = c y, by projection."""
    Wy = y if W is None else W.dot(y)
    return np.vdot(Wy, x) / max(np.vdot(Wy, y).real, 1e-300)


def rel(x, y, tol, scale=None):
    s = max(float(np.max(np.abs(x))), float(np.max(np.abs(y))), 1e-300) \
        if scale is None else scale
    return float(np.max(np.abs(x - y))) <= tol * s


class Numbers(object):
    """Everything one execution computed of one decomposition."""

    def __init__(self, name):
        self.name = name
        self.v = {}
        self.sel = {}            # modes asked for

    def builds(self):
        """Coefficients of the modes in terms of the vectors."""
        for pre in ('proj_', ''):
            s = self.v.get(pre + 'correlation_array_eigvals')
            U = self.v.get(pre + 'correlation_array_eigvecs')
            if s is not None and U is not None:
                for x in 'LR':
                    Y = self.v.get(x + '_low_order_eigvecs')
                    if Y is not None:
                        self.v[x + '_build'] = (np.asarray(U) / np.sqrt(s)
                                                ).dot(Y)
                return

    def spread(self, sel, dim, count):
        """Puts selected modes where all modes would be."""
        for nm, idx in sel.items():
            M = np.asarray(self.v[nm])
            need(M.shape == (dim, len(idx)), 'wrong-selection',
                 '%s: %s has shape %s for vectors of %d elements and mode '
                 'indices %s' % (self.name, nm, M.shape, dim, idx))
            full = np.full((dim, count), np.nan, dtype=M.dtype)
            for k, j in enumerate(idx):
                need(np.isnan(full[0, j]) or rel(full[:, j], M[:, k], 1e-9),
                     'wrong-selection', '%s: %s of indices %s has different '
                     'columns for mode %d' % (self.name, nm, idx, j))
                full[:, j] = M[:, k]
            self.v[nm] = full
            self.sel[nm] = set(idx)


def from_handles(run, case, name):
    num = Numbers(name)
    sc = run.sc
    for i, op in enumerate(sc['prog']):
        val = run.results[0][i].get('val')
        m = op.get('m')
        if op['op'] == 'attr':
            num.v.update({k: np.asarray(x) for k, x in val.items()
                          if x is not None})
        elif m == 'compute_spectrum':
            num.v['spectral_coeffs'] = val
        elif m == 'compute_proj_coeffs':
            if isinstance(val, tuple):
                num.v['proj_coeffs'], num.v['adv_proj_coeffs'] = val
            else:
                num.v['proj_coeffs'] = val
        elif m in ('compute_direct_proj_coeffs', 'compute_adjoint_proj_coeffs'):
            num.v[m[8:]] = val
        elif m and m.startswith('compute_') and m.endswith('modes'):
            nm, idx = op['a'][1]['H']
            cols = []
            for j in idx:
                v = run.read_out(nm, j)
                need(v is not None and not isinstance(v, str),
                     'output-missing', 'mode %s.%d is %s' % (nm, j, v))
                cols.append(np.ravel(v))
            num.v[m[8:]] = np.array(cols).T
    num.builds()
    return num


def compare_numbers(fam, a, c, W, tol, unit):
    """Two executions of one decomposition, modes up to unit factors."""
    def bad(what, x, y):
        raise Violation('size-dependent', '%s: %s is %s, but %s with %s' % (
            a.name, what, show(x), show(y), c.name))
    key = 'sing_vals' if fam == 'bpod' else 'eigvals'
    x, y = np.asarray(a.v[key]), np.asarray(c.v[key])
    if x.shape != y.shape:
        bad(key, x, y)
    if x.size == 0:
        return
    top = float(np.max(np.abs(x)))
    if fam in ('dmd', 'tls'):
        perm = match(x, y, 1e-5 * top)
        if perm is None:
            bad(key, x, y)
        cols = list(range(x.size))
        main, others = 'proj_modes', ['exact_modes', 'adjoint_modes']
        rows = ['proj_coeffs', 'adv_proj_coeffs']
        s0 = a.v.get('proj_correlation_array_eigvals' if fam == 'tls' else
                     'correlation_array_eigvals')
        s1 = c.v.get('proj_correlation_array_eigvals' if fam == 'tls' else
                     'correlation_array_eigvals')
        if s0 is not None and s1 is not None and (
                np.shape(s0) != np.shape(s1) or not rel(s0, s1, 1e-7)):
            bad('correlation array eigenvalues', s0, s1)
    else:
        if not rel(x, y, 1e-7):
            bad(key, x, y)
        perm = list(range(x.size))
        v = np.abs(x)
        cols = [k for k in range(v.size) if v[k] >= 1e-6 * v[0] and all(
            abs(v[k] - v[m]) >= 1e-3 * v[0] for m in (k - 1, k + 1)
            if 0 <= m < v.size)]
        main = 'modes' if fam == 'pod' else 'direct_modes'
        others = [] if fam == 'pod' else ['adjoint_modes']
        rows = ['proj_coeffs'] if fam == 'pod' else [
            'direct_proj_coeffs', 'adjoint_proj_coeffs']
    fac = {}
    M, N = a.v.get(main), c.v.get(main)
    if M is not None and N is not None:
        if M.shape != N.shape:
            bad('shape of ' + main, np.array(M.shape), np.array(N.shape))
        for k in cols:
            if main in c.sel and perm[k] not in c.sel[main]:
                continue
            m, n = M[:, k], N[:, perm[k]]
            f = unit_factor(m, n, W)
            if not abs(abs(f) - 1) < tol or not rel(m, f * n, tol):
                bad('column %d of %s' % (k, main), m, n)
            fac[k] = f
    for nm in others:
        P, Q = a.v.get(nm), c.v.get(nm)
        if P is None or Q is None:
            continue
        if P.shape != Q.shape:
            bad('shape of ' + nm, np.array(P.shape), np.array(Q.shape))
        for k in cols:
            if k not in fac or (nm in c.sel and perm[k] not in c.sel[nm]):
                continue
            if not rel(P[:, k], fac[k] * Q[:, perm[k]], 10 * tol):
                bad('column %d of %s (factor %s)' % (k, nm, fac[k]),
                    P[:, k], Q[:, perm[k]])
    for nm in rows:
        P, Q = a.v.get(nm), c.v.get(nm)
        if P is None or Q is None:
            continue
        if np.shape(P) != np.shape(Q):
            bad('shape of ' + nm, np.array(np.shape(P)),
                np.array(np.shape(Q)))
        s = max(float(np.max(np.abs(P))), 1e-300)
        for k in cols:
            if k not in fac:
                continue
            if not rel(P[k], np.conj(fac[k]) * Q[perm[k]], 10 * tol, s):
                bad('row %d of %s' % (k, nm), P[k], Q[perm[k]])
    # the vectors the modes were built with, up to the modes' factors
    for nm in ('eigvecs', 'R_sing_vecs', 'L_sing_vecs', 'R_build', 'L_build'):
        P, Q = a.v.get(nm), c.v.get(nm)
        if P is None or Q is None:
            continue
        if np.shape(P) != np.shape(Q):
            bad('shape of ' + nm, np.array(np.shape(P)),
                np.array(np.shape(Q)))
        for k in fac:
            if not rel(P[:, k], fac[k] * Q[:, perm[k]], 10 * tol,
                       max(float(np.max(np.abs(P))), 1e-300)):
                bad('column %d of %s (factor %s)' % (k, nm, fac[k]),
                    P[:, k], Q[:, perm[k]])
    # what has one value only
    for nm in SAME:
        P, Q = a.v.get(nm), c.v.get(nm)
        if P is None or Q is None:
            continue
        if np.shape(P) != np.shape(Q) or not rel(P, Q, 1e-7):
            bad(nm, P, Q)
    P, Q = a.v.get('spectral_coeffs'), c.v.get('spectral_coeffs')
    if P is not None and Q is not None:
        if np.shape(P) != np.shape(Q) or not rel(
                P, np.asarray(Q)[perm], 10 * tol,
                max(unit, float(np.max(np.abs(P))))):
            bad('spectral_coeffs', P, Q)


def match(x, y, tol):
    perm, left = [], list(range(y.size))
    for v in x:
        d = [abs(v - y[j]) for j in left]
        j = int(np.argmin(d))
        if not d[j] <= tol:
            return None
        perm.append(left.pop(j))
    return perm


@kind
def play_sizes(pl, case):
    fam = case['fam']
    runs = []
    W = None
    for k, sh in enumerate(case['shapes']):
        sc = copy.deepcopy(case['sc'])
        sc['n'], sc['hosts'] = sh['n'], sh['hosts']
        for op in sc['prog']:
            if op['op'] == 'new':
                op['k']['max_vecs_per_node'] = sh['mpn']
        if sh['n'] > 1 and case['funcs']:
            for f in case['funcs']:
                op = copy.deepcopy(f)
                op['raises'] = {'types': ['RuntimeError'], 'why':
                                'there are %d workers' % sh['n']}
                op['catch'] = True
                sc['prog'].append(op)
        run = pl.job(sc, sh['strat'])
        live(run)
        for i, op in enumerate(sc['prog']):
            if op.get('raises'):
                for r in range(sc['n']):
                    rec = run.results[r][i]
                    need(rec['exc'] is not None and
                         rec['exc'][0] == 'RuntimeError', 'not-refused',
                         '%s %s on worker %d of %d' % (
                             opname(sc, i), exc_text(rec), r, sc['n']))
        W = run.data.W
        runs.append(from_handles(run, case, 'a job of %d workers on %d '
                                 'nodes, limit %s' % (
                                     sh['n'], len(set(sh['hosts'])),
                                     sh['mpn'])))
    for other in runs[1:]:
        compare_numbers(fam, runs[0], other, W, 1e-6, case['mag'] or 1.)
    if not case['funcs']:
        return
    sc = dict(case['sc'], n=1, hosts=[0], prog=copy.deepcopy(case['funcs']))
    run = pl.job(sc, case['shapes'][0]['strat'])
    live(run)
    for i, op in enumerate(sc['prog']):
        rec = run.results[0][i]
        need(not any(rec['mutated']), 'argument-mutated',
             '%s modified an argument' % op['m'])
        num = Numbers(op['m'])
        num.v = dict(rec['val'])
        for nm in FIELDS[fam] + ([] if 'direct' in op['m'] else
                                 FIELDS_SQUARED[fam]):
            need(num.v.get(nm) is not None, 'result-missing',
                 '%s: %s is %s' % (op['m'], nm, 'None' if nm in num.v
                                   else 'not in the result'))
        num.builds()
        sel = op.get('sel') or {}
        if sel:
            key = 'sing_vals' if fam == 'bpod' else 'eigvals'
            full = np.asarray(num.v[key])
            ref = runs[0].v[key]
            need(full.shape == np.shape(ref), 'size-dependent',
                 '%s: %s is %s, but %s with %s' % (
                     op['m'], key, show(full), show(ref), runs[0].name))
            num.spread(sel, case['dim'], full.size)
        compare_numbers(fam, runs[0], num, W, 2e-6, case['mag'] or 1.)


@prop
def g_C21(rng):
    b = builder(rng, n=1)
    b.with_vis = False
    b.no_files = True
    b.sc['cfg'].pop('slow', None)
    b.sc.pop('clock', None)
    if rng.random() < 0.7:
        b.sc.pop('hetero', None)
    fam = rng.choice(['pod', 'bpod', 'dmd', 'tls'])
    if rng.random() < 0.4 and not (b.sc.get('ip') or {}).get('w'):
        b.world_kind()
    d = None
    cut = rng.random() < 0.6      # look for data of which not all is kept
    for t in range(30):
        n0 = len(b.prog)
        d = make(b, fam, full=False)
        if d:
            start = b.prog[-1]
            k = {x: v for x, v in start['k'].items()
                 if x in ('atol', 'rtol', 'max_num_eigvals')}
            if not cut or t > 20 or any(
                    k.get(x) for x in ('atol', 'rtol', 'max_num_eigvals')):
                break
            d = None
        del b.prog[n0:]
    if not d:
        return None
    obj, cls, kept = d['obj'], d['cls'], d['kept']
    meths = {'pod': ['compute_modes'],
             'bpod': ['compute_direct_modes', 'compute_adjoint_modes'],
             }.get(fam, ['compute_proj_modes', 'compute_exact_modes',
                         'compute_adjoint_modes'])
    for m in meths:
        O = b.outset(kept, d['vt'], hk='sim')
        b.op(op='call', obj=obj, m=m, a=[list(range(kept)),
                                         b.HL(O, range(kept))])
    for m in {'pod': ['compute_proj_coeffs'],
              'bpod': ['compute_direct_proj_coeffs',
                       'compute_adjoint_proj_coeffs']}.get(
                           fam, ['compute_spectrum', 'compute_proj_coeffs']):
        b.op(op='call', obj=obj, m=m)
    b.attr(obj, b.dec_names(cls) + {
        'pod': ['correlation_array'], 'bpod': ['Hankel_array'],
        'dmd': []}.get(fam, ['adv_correlation_array']))
    shapes = []
    for n in rng.choice([[1, None], [None, None], [1, None, None]]):
        n = n or gen.wchoice(rng, [x for x in gen.N_WEIGHTS if x[0] > 1])
        sh = {'n': n, 'hosts': gen.hosts_of(rng, n)}
        sh['mpn'] = gen.mpn(rng, sh)
        sh['strat'] = gen.strategy(rng, n)
        shapes.append(sh)
    w = (b.sc.get('ip') or {}).get('w')
    funcs = []
    for f in ARRAY_FUNCS[fam]:
        kw = {}
        if w:
            kw['inner_product_weights'] = {'W': w['dim']}
        direct = 'direct' in f
        for x, v in k.items():
            if direct and x != 'max_num_eigvals' and v is not None:
                # these compare with singular values, the square roots
                v = float(np.sqrt(v))
            kw[x] = v
        if direct and b.mag and b.mag < 1 and 'atol' not in k:
            kw['atol'] = float(np.sqrt(1e-13))
        if fam == 'pod':
            a = [{'M': [d['A'], d['idx']]}]
        elif fam == 'bpod':
            a = [{'M': [d['D'], d['di']]}, {'M': [d['J'], d['ai']]}]
            for x in ('num_inputs', 'num_outputs'):
                if x in d['kw']:
                    kw[x] = d['kw'][x]
        elif d['B'] is None:
            a = [{'M': [d['A'], d['ia']]}]
        else:
            a = [{'M': list(d['X'])}]
            kw['adv_vecs'] = {'M': list(d['Y'])}
        sel = {}
        for x in {'pod': ['modes'],
                  'bpod': ['direct_modes', 'adjoint_modes']}.get(
                      fam, ['exact_modes']):
            if rng.random() < 0.4:
                idx = b.modesel(kept)[0]
                sel[x] = idx
                kw[x.replace('exact_', '')[:-1] + '_indices'] = rng.choice(
                    [idx, idx, {'np': idx}])
        if 'exact_modes' in sel:
            sel['proj_modes'] = sel['adjoint_modes'] = sel['exact_modes']
        op = {'op': 'func', 'm': f, 'a': a, 'k': kw}
        if sel:
            op['sel'] = sel
        for x in a + [kw.get('adv_vecs')]:
            if x and rng.random() < 0.2:
                x['as'] = rng.choice(['F', 'matrix', 'list'])
        funcs.append(op)
    if rng.random() < 0.2:
        funcs = []
    return {'kind': 'sizes', 'sc': b.sc, 'fam': fam, 'shapes': shapes,
            'funcs': funcs, 'dim': b.dim, 'mag': b.mag, 'shrink_n': False}
