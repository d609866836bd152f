"""Properties of whole jobs: saving (C14), memory (C16), independence of clocks
and verbosity (C17), failures (C12)."""
import copy
import pickle

import numpy as np

from . import gen
from .gen import Builder
from .oracle import Model, OpFailed, agree, brief, need, same
from .play import Violation, kind, live, opname
from .props import builder, gets, mixed, plain, prop


# ---------------------------------------------------------------------------
# C14: every save stores each array once, as the object holds it


def text_form(a):
    """What a text file of an array holds, as numbers."""
    a = np.array(a)
    if a.ndim < 2:
        a = a.reshape((-1, 1))
    if np.iscomplexobj(a):
        a = np.ascontiguousarray(a, dtype=complex).view(float)
    return a.astype(float)


@kind
def play_saves(pl, case):
    sc = case['sc']
    run = pl.job(sc, case['strat'])
    live(run)
    w = run.world
    text = sc.get('array_io') == 'text'
    asked, last = {}, {}
    for i, op in enumerate(sc['prog']):
        if op['op'] != 'call' or not op['m'].startswith('put_'):
            continue
        cls = op['cls']
        names = Model.PUTS[cls][op['m']]
        dests = [a['path'] for a in op['a']]
        held = [run.results[r][i - 1]['val'] for r in range(sc['n'])]
        for nm, dest in zip(names, dests):
            asked[dest] = asked.get(dest, 0) + 1
            what = 'array %s of operation %d (%s)' % (nm, i, op['m'])
            t0 = min(run.results[r][i]['t0'] for r in range(sc['n']))
            t1 = max(run.results[r][i]['t1'] for r in range(sc['n']))
            if text:
                by = [r for step, r, d in w.file_writes
                      if d == 'arr.' + dest and t0 <= step <= t1]
                need(len(set(by)) <= 1, 'put-count', '%s was written by '
                     'workers %s' % (what, by))
                exp = text_form(held[0][nm])
            else:
                by = [r for step, r, d in w.array_puts
                      if d == dest and t0 <= step <= t1]
                need(len(by) == 1, 'put-count', '%s was stored %d times%s' % (
                    what, len(by), ', by workers %s' % by if by else ''))
                exp = held[by[0]][nm]
            for r in range(sc['n']):
                v = run.results[r][i]['vis']['arr.' + dest]
                need(v is not None and not isinstance(v, str), 'not-visible',
                     '%s was %s when the call returned on worker %d' % (
                         what, v, r))
                v = np.asarray(v)
                need(v.shape == np.shape(exp) and np.array_equal(
                    v, exp, equal_nan=True), 'wrong-array',
                    '%s, stored under %s, was %s when the call returned on '
                    'worker %d; the object holds %s' % (
                        what, dest, brief(v), r, brief(exp)))
            last[dest] = exp
    for dest, exp in sorted(last.items()):
        v = run.read_array(dest)
        need(v is not None and not isinstance(v, str) and np.array_equal(
            np.asarray(v), exp, equal_nan=True), 'wrong-array',
            'stored array %s is %s in the end, expected %s' % (
                dest, v if v is None or isinstance(v, str) else brief(v),
                brief(exp)))
    for step, r, dest in w.array_puts:
        need(dest in asked, 'stray-put', 'worker %d stored array %s, which '
             'no operation asked for' % (r, dest))


def save_everything(b, rng, obj, cls, prob=0.75, reuse=()):
    """Saves with the held values read just before."""
    meths = [(m, names) for m, names in sorted(Model.PUTS[cls].items())
             if all(nm in b.state[obj] for nm in names)]
    rng.shuffle(meths)
    out = []
    for m, names in meths:
        if rng.random() > prob:
            continue
        dests = [rng.choice(reuse) if reuse and rng.random() < 0.2 and
                 len(names) == 1 else b.name('a') for _ in names]
        if any(d in reuse for d in dests):
            # so that nobody still looks at what was stored there before
            b.op(op='func', m='parallel.barrier')
        b.attr(obj, names)
        b.op(op='call', obj=obj, m=m, cls=cls,
             a=[{'path': d} for d in dests], vis={'arrays': dests})
        out += dests
    return out


@prop
def g_C14(rng):
    if rng.random() < 0.1:
        from .props_more import era_case
        return era_case(rng, 'store')
    b = builder(rng, nmin=1 if rng.random() < 0.1 else 2)
    if rng.random() < 0.3:
        b.sc['array_io'] = 'text'
        b.sc['cfg']['io_buffer'] = rng.choice([8192, 16, 64])
    b.no_files = rng.random() < 0.8
    done = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        w = rng.choice(['pod', 'bpod', 'dmd', 'tls', 'galerkin'])
        d = b.dmd(tls=True, puts=0) if w == 'tls' else getattr(b, w)(puts=0)
        if not d:
            continue
        cls = d.get('cls', 'LTIGalerkinProjectionHandles')
        done += save_everything(b, rng, d['obj'], cls, reuse=done)
        if cls != 'LTIGalerkinProjectionHandles' and rng.random() < 0.2:
            # the same object again, with other data
            e = b.dmd(tls=True, puts=0, obj=d['obj']) if w == 'tls' else \
                getattr(b, w)(puts=0, obj=d['obj'])
            if e:
                done += save_everything(b, rng, d['obj'], cls, reuse=done)
    if not done:
        return None
    return plain(rng, b, 'saves')


# ---------------------------------------------------------------------------
# C16: vectors in memory

# Vectors above the share: the temporaries of one operation.  A handle with a
# base vector or a scale makes more of them.
SLACK, SLACK_BASE = 5, 7


def share(sc, mpn):
    """Documented number of vectors a worker may hold."""
    n, nodes = sc['n'], len(set(sc['hosts']))
    if mpn is None:
        mpn = 10000
    if mpn * nodes < 3 * n:
        return 3
    return mpn * nodes // n


def pl_set(sc, a):
    return sc['data'][a['H'][0]] if isinstance(a, dict) and 'H' in a else None


def costly(s):
    return s.get('base') is not None or s.get('scale') not in (None, 1, 1.0)


@kind
def play_memory(pl, case):
    sc = case['sc']
    run = pl.job(sc, case['strat'])
    live(run)
    limits = {}
    for op in sc['prog']:
        if op['op'] == 'new':
            limits[op['obj']] = share(sc, op['k']['max_vecs_per_node'])
    cap = max(limits.values())
    for (r, i), peak in sorted(run.peaks.items()):
        op = sc['prog'][i]
        lim = limits[op['obj']]
        slack = SLACK
        for a in op['a']:
            s = pl_set(sc, a)
            if s and costly(s):
                slack = SLACK_BASE
        if case.get('dec') and any(costly(s) for s in sc['data'].values()):
            slack = SLACK_BASE       # handles named by earlier calls
        need(peak <= lim + slack, 'too-many-vectors', 'worker %d of %d held '
             '%d vectors during operation %d (%s on lists of %s), its share '
             'is %d' % (r, sc['n'], peak, i, opname(sc, i), [
                 len(a['H'][1]) for a in sc['prog'][i]['a']
                 if pl_set(sc, a)], lim))
    pl.peak_excess = max([p - limits[sc['prog'][i]['obj']]
                          for (r, i), p in run.peaks.items()] or [0])
    try:
        Model(run).walk()
    except Violation as v:
        # only the limit's influence is judged here
        sc2 = copy.deepcopy(sc)
        for op in sc2['prog']:
            if op['op'] == 'new':
                op['k']['max_vecs_per_node'] = 10000
        run2 = pl.job(sc2, case['strat'])
        try:
            live(run2)
            Model(run2).walk()
        except Violation:
            return
        raise Violation('limit-changes-result', 'with a large limit the '
                        'result is right, with limit %d per worker: %s' % (
                            cap, v.text))


def long_lists(rng):
    """Decompositions of more vectors than a worker may hold."""
    b = builder(rng, nmax=4)
    n = b.n
    b.user_vecs_only = True
    b.dim = rng.choice([1, 2, 3])
    vt = rng.choice(['user', 'iuser'])

    def vecs(c):
        A = b.inset(c, vt=vt, kind='float')
        b.data[A]['vtype'] = vt
        if b.data[A].get('scale') == 0.0:
            del b.data[A]['scale']   # there must be a mode
        return b.HL(A, range(c))

    def modes(*meths):
        for m in meths:
            O = b.outset(1, vt, hk='sim')
            b.op(op='call', obj=obj, m=m, a=[[0], b.HL(O, [0])])
    nodes = len(set(b.sc['hosts']))
    k = {'max_vecs_per_node': max(1, -(-rng.choice([3, 3, 4, 5]) * n // nodes)
                                  + rng.choice([0, 0, -1]))}
    c = rng.choice([8, 10, 12, 16, 20]) * n
    fam = rng.choice(['POD', 'BPOD', 'DMD', 'TLSqrDMD', 'LTI'])
    cut = {'atol': 0.0, 'rtol': 1e-8}
    if fam == 'LTI':
        c = min(c, 30)
        k['basis_vec_handles'] = vecs(c)
        if rng.random() < 0.5:
            k['adjoint_basis_vec_handles'] = vecs(c)
        k['is_basis_orthonormal'] = True
        obj = b.new_dec('LTIGalerkinProjectionHandles', k=k)
        b.op(op='call', obj=obj, m='reduce_A', a=[vecs(c)])
        b.op(op='call', obj=obj, m='reduce_B', a=[vecs(rng.choice([2, c]))])
    else:
        obj = b.new_dec(fam + 'Handles', k=k)
        if fam == 'BPOD':
            q = rng.choice([2, c // 2, c])
            b.op(op='call', obj=obj, m='compute_decomp',
                 a=[vecs(c), vecs(c)],
                 k=dict(cut, num_inputs=q, num_outputs=q))
            modes('compute_direct_modes', 'compute_adjoint_modes')
        elif fam == 'POD':
            b.op(op='call', obj=obj, m='compute_decomp', a=[vecs(c)], k=cut)
            modes('compute_modes')
        else:
            cut['max_num_eigvals'] = 1
            if rng.random() < 0.5:
                cut['adv_vec_handles'] = vecs(c)
            b.op(op='call', obj=obj, m='compute_decomp', a=[vecs(c)], k=cut)
            modes('compute_exact_modes', 'compute_proj_modes',
                  'compute_adjoint_modes')
    return dict(plain(rng, b, 'memory'), dec=True)


@prop
def g_C16(rng):
    if rng.random() < 0.15:
        return long_lists(rng)
    b = builder(rng)
    n = b.n
    b.user_vecs_only = True
    b.dim = rng.choice([1, 1, 2])
    nodes = len(set(b.sc['hosts']))
    hi = rng.choice([10, 3 * n + 3, 30, 60]) if n < 6 else \
        rng.choice([10, 3 * n + 3])
    for _ in range(rng.choice([1, 1, 2])):
        vs = b.new_vs()
        L = rng.choice([3, 3, 3, 4, 5, 8, 1])
        mpn = max(1, -(-L * n // nodes) + rng.choice([0, 0, -1, 1]))
        if rng.random() < 0.05:
            mpn = None
        b.prog[-1]['k']['max_vecs_per_node'] = mpn
        for _ in range(rng.choice([1, 1, 2])):
            m = rng.choice(['ip', 'symm', 'lin'])
            c1, c2 = rng.randrange(1, hi + 1), rng.randrange(1, hi + 1)
            if rng.random() < 0.2:
                c1 = hi
            if c1 * c2 > 900:
                c2 = max(1, 900 // c1)
            vt = rng.choice(['user', 'iuser'])
            A = b.inset(c1, vt=vt)
            b.data[A]['vtype'] = vt
            ia = gen.idx_of(rng, c1)
            if m == 'ip':
                B = b.inset(c2, vt=vt)
                b.data[B]['vtype'] = vt
                b.op(op='call', obj=vs, m='compute_inner_product_array',
                     a=[b.H(A, ia), b.H(B, gen.idx_of(rng, c2))])
            elif m == 'symm':
                b.op(op='call', obj=vs, m='compute_symm_inner_product_array',
                     a=[b.H(A, ia)])
            else:
                O = b.outset(c2, vt, hk='sim')
                c, cols = b.coeff(len(ia), c2)
                k = {} if cols is None else {'coeff_array_col_indices': cols}
                b.op(op='call', obj=vs, m='lin_combine', k=k,
                     a=[b.H(O, range(c2)), b.H(A, ia), c])
    return plain(rng, b, 'memory')


# ---------------------------------------------------------------------------
# C17: clocks, node speed and verbosity


def overlay(sc, o):
    sc = copy.deepcopy(sc)
    for k in ('clock', 'faults'):
        sc.pop(k, None)
        if o.get(k):
            sc[k] = o[k]
    sc['cfg'].pop('slow', None)
    if o.get('slow'):
        sc['cfg']['slow'] = o['slow']
    for op in sc['prog']:
        if op['op'] == 'new':
            op['k']['verbosity'] = o.get('verbosity', 0)
            if op['cls'] == 'VectorSpaceHandles':
                op['k'].pop('print_interval', None)
                if o.get('interval') is not None:
                    op['k']['print_interval'] = o['interval']
    return sc


def outcome_of(run):
    """Everything the user sees of a job except its messages."""
    sc = run.sc
    res = [[(rec['exc'][0] if rec.get('exc') else None, rec.get('val'))
            for rec in run.results[r]] for r in range(sc['n'])]
    outs = {}
    for key in run.out_keys():
        nm, j = key.rsplit('.', 1)
        v = run.read_out(nm, int(j))
        outs[key] = v if v is None or isinstance(v, str) else np.array(v)
    for op in sc['prog']:
        for p in (op.get('a') or []):
            if isinstance(p, dict) and 'path' in p:
                outs['arr.' + p['path']] = run.read_array(p['path'])
    return res, outs


def messages(run):
    """(rank, stream, clock, text) of every message, one per line."""
    out = []
    asked = [op['a'][0] for op in run.sc['prog']
             if op.get('m') == 'parallel.print_from_rank_zero']
    for step, r, stream, text, clock in run.world.outputs:
        if text.strip() and not any(m in text for m in asked):
            out.append((r, stream, clock, text.strip(), step))
    return out


@kind
def play_clocks(pl, case):
    ref = None
    for k, o in enumerate(case['overlays']):
        sc = overlay(case['sc'], o)
        run = pl.job(sc, case['strat'])
        if k == 0:
            try:
                live(run)
            except Violation:
                return           # not a matter of clocks
        else:
            try:
                live(run)
            except Violation as v:
                raise Violation('clock-' + v.cls, 'the job succeeds with '
                                'plain clocks, but with %s: %s' % (o, v.text))
        check_messages(run, o)
        got = outcome_of(run)
        tal = dict(run.world.tallies)
        if ref is None:
            ref, ref_tal = got, tal
            continue
        for r in range(sc['n']):
            for i, (a, c) in enumerate(zip(ref[0][r], got[0][r])):
                need(a[0] == c[0] and agree(a[1], c[1], 1e-9),
                     'result-depends-on-clock', 'operation %d (%s) on worker '
                     '%d gave %s with plain clocks and %s with %s' % (
                         i, opname(sc, i), r, show(a[1]), show(c[1]), o))
        for key in ref[1]:
            need(agree(ref[1][key], got[1].get(key), 1e-9),
                 'output-depends-on-clock', 'output %s is %s with plain '
                 'clocks and %s with %s' % (
                     key, show(ref[1][key]), show(got[1].get(key)), o))
        for key in sorted(set(ref_tal) | set(tal), key=str):
            need(ref_tal.get(key, 0) == tal.get(key, 0),
                 'calls-depend-on-clock', 'worker %s made %d %s calls in '
                 'operation %s with plain clocks and %d with %s' % (
                     key[0], ref_tal.get(key, 0), key[2], key[1],
                     tal.get(key, 0), o))


def show(v):
    try:
        return brief(v)
    except Exception:
        return repr(v)[:200]


def check_messages(run, o):
    sc = run.sc
    ms = messages(run)
    if not o.get('verbosity'):
        need(not ms, 'message-at-verbosity-0', 'at verbosity 0 worker %s '
             'wrote %r' % ((ms[0][0], ms[0][3]) if ms else (0, '')))
    for r, stream, clock, text, step in ms:
        need(r == 0, 'message-from-other-worker', 'worker %d wrote %r' % (
            r, text))
    c = (sc.get('clock') or [{}])[0]
    if any(j[1] < 0 for j in c.get('jumps', [])):
        return
    interval = o.get('interval')
    if interval is None:
        interval = 10
    direct = set(op['obj'] for op in sc['prog']
                 if op['op'] == 'new' and op['cls'] == 'VectorSpaceHandles')
    for i, rec in enumerate(run.results[0]):
        if sc['prog'][i]['op'] != 'call' or \
                sc['prog'][i]['obj'] not in direct:
            continue
        mine = [m for m in ms if m[1] == 'stderr' and
                rec['t0'] <= m[4] <= rec['t1']]
        mine = mine[:-1]         # the closing message
        for a, b in zip(mine, mine[1:]):
            gap = b[2] - a[2]
            need(gap >= interval - 1e-6 * max(1., abs(b[2]) * 1e-6),
                 'messages-too-frequent', 'progress messages %r and %r are '
                 '%g apart on the clock of worker 0, the interval is %g' % (
                     a[3], b[3], gap, interval))


@prop
def g_C17(rng):
    b = builder(rng, n=None if rng.random() < 0.9 else 1)
    b.sc.pop('hetero', None)
    b.with_vis = False
    m = rng.random()
    if m < 0.65:
        vs = b.new_vs()
        for _ in range(rng.choice([1, 1, 2])):
            getattr(b, rng.choice(['ip', 'symm', 'lin']))(vs, hi=14)
    else:
        mixed(b, rng, 1)
    if not b.prog:
        return None
    n = b.n
    ov = [{'verbosity': rng.choice([0, 0, 1]), 'interval': 1e9}]
    for _ in range(rng.choice([1, 1, 2])):
        o = {'verbosity': rng.choice([0, 1, 1, 1]),
             'clock': gen.clocks(rng, n, wild=True),
             'interval': rng.choice([None, 0, -1, 1e-9, 0.0005, 0.003, 0.05,
                                     10, 1e9])}
        if rng.random() < 0.3:       # clocks that only run, at ordinary speed
            o['clock'] = [{'offset': rng.choice([0., 1.5e9]),
                           'rate': rng.choice([1.0, 3.0])} for _ in range(n)]
        if rng.random() < 0.4:
            o['slow'] = {str(rng.randrange(n)): rng.choice([0.01, 1.0, 30.])}
        if rng.random() < 0.4:
            o['faults'] = [{'rank': rng.randrange(n),
                            'op': rng.choice(['ip', 'get', 'put']),
                            'nth': rng.randrange(0, 8), 'kind': 'stall',
                            'seconds': rng.choice([1., 100., 1e6])}
                           for _ in range(rng.choice([1, 2]))]
        ov.append(o)
    return {'kind': 'clocks', 'sc': b.sc, 'overlays': ov,
            'strat': gen.strategy(rng, n)}


# ---------------------------------------------------------------------------
# C12: failures


@kind
def play_faults(pl, case):
    sc = case['sc']
    run = pl.job(sc, case['strat'])
    w = run.world
    real = [f for f in w.fault_log if f[3] != 'stall']
    if not real:
        live(run)
    elif run.import_error:
        live(run)
    else:
        for cls, text in w.violations:
            raise Violation(cls, text)
    seen = set()
    for r, i, op, kd in real:
        if (r, i) in seen or not isinstance(i, int):
            continue
        seen.add((r, i))
        rec = run.results[r][i] if i < len(run.results[r]) else {}
        if not rec.get('done'):
            # the worker is stuck in a call whose failure it never reported
            need(not run.outcome == 'ok', 'failure-lost', 'operation %d '
                 'failed on worker %d and never returned' % (i, r))
            raise Violation('failure-not-raised', '%s failed (%s) in '
                            'operation %d (%s) of worker %d, whose call did '
                            'not raise it (%s)' % (
                                op, kd, i, opname(sc, i), r,
                                w.sched.detail))
        need(rec['exc'] is not None, 'failure-not-raised', '%s failed (%s) in '
             'operation %d (%s) of worker %d, whose call returned normally' % (
                 op, kd, i, opname(sc, i), r))
    for r in range(sc['n']):
        for i, rec in enumerate(run.results[r]):
            if rec.get('exc') is None or rec.get('injected'):
                continue
            need(real and min(f[1] for f in real
                              if isinstance(f[1], int)) <= i,
                 'unexpected-exception', 'operation %d (%s) raised %s: %s on '
                 'worker %d without any failure' % (
                     i, opname(sc, i), rec['exc'][0], rec['exc'][1], r))
    Model(run, faults=bool(real)).walk()


@prop
def g_C12(rng):
    b = builder(rng)
    b.with_vis = True
    w = rng.choice(['ops', 'ops', 'ops', 'pod', 'bpod', 'dmd', 'tls',
                    'galerkin', 'derivs', 'helper', 'mixed'])
    if w == 'ops':
        vs = b.new_vs()
        for _ in range(rng.choice([1, 1, 2])):
            getattr(b, rng.choice(['ip', 'symm', 'lin', 'lin']))(vs)
    elif w == 'tls':
        b.dmd(tls=True, puts=0.5)
    elif w in ('pod', 'bpod', 'dmd', 'galerkin'):
        d = getattr(b, w)(puts=0.5)
        if d and w != 'galerkin' and rng.random() < 0.4:
            gets(b, rng, d['obj'], d['cls'])
    elif w == 'derivs':
        b.derivs()
    elif w == 'helper':
        for _ in range(rng.randrange(1, 4)):
            b.helper(rng.choice(['call_and_bcast', 'call_from_rank_zero',
                                 'bcast', 'barrier']))
    else:
        mixed(b, rng, 2)
    if not b.prog:
        return None
    points = {'ops': ['ip', 'get', 'put', 'put', 'put_late'],
              'helper': ['fn'],
              'derivs': ['get', 'put', 'put_late']}.get(
        w, ['ip', 'get', 'put', 'put_late', 'put_array', 'put_array',
            'put_array_late', 'get_array', 'lapack', 'lapack', 'fn'])
    fl = b.sc['faults'] = []
    n = b.n
    for _ in range(gen.wchoice(rng, [(1, 7), (2, 2), (3, 1)])):
        op = rng.choice(points)
        r = rng.randrange(n)
        if op in ('put_array', 'put_array_late', 'get_array', 'lapack',
                  'fn') and rng.random() < 0.6:
            r = 0
        if op == 'lapack':
            b.sc['cfg']['lapack_faults'] = True
        fl.append({'rank': r, 'op': op,
                   'nth': rng.choice([0, 0, 1, 2, 3, rng.randrange(12)]),
                   'kind': rng.choice(['raise', 'nomem', 'oserror'])})
    if rng.random() < 0.15:
        fl.append({'rank': rng.randrange(n), 'op': rng.choice(
            ['ip', 'get', 'put']), 'nth': rng.randrange(4), 'kind': 'stall',
            'seconds': 1000.})
    # the caller of a serial program may go on after a failure
    if n == 1 and rng.random() < 0.5:
        b.sc['catch_all'] = True
    return plain(rng, b, 'faults')
