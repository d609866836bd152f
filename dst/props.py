"""What each property's check generates and how it judges the runs."""
import copy
import hashlib
import random

import numpy as np

from . import gen
from .gen import Builder
from .harness import py_op, raw
from .oracle import Model, Violation, agree, brief, close, need
from .play import digest, first_exception, kind, live, opname

GEN = {}
FIXED = {}     # property -> list of functions giving hand-made cases


def prop(f):
    GEN[f.__name__[2:]] = f
    return f


def case_seed(pid, seed, index):
    h = hashlib.blake2b(('%s/%s/%s' % (pid, seed, index)).encode(),
                        digest_size=8)
    return int.from_bytes(h.digest(), 'big')


def make_case(pid, seed, index):
    rng = random.Random(case_seed(pid, seed, index))
    for _ in range(20):
        c = GEN[pid](rng)
        if c is not None:
            c['prop'], c['index'], c['seed'] = pid, index, seed
            return c
    return None


def plain(rng, b, kind_='plain'):
    if not b.prog:
        return None
    w = rng.choice([None, None, 'kept', 'slot'])
    if w:
        b.sc['lists'] = w
    return {'kind': kind_, 'sc': b.sc, 'strat': gen.strategy(rng, b.n)}


def builder(rng, **kw):
    mixed_types = kw.pop('mixed_types', 0.0)
    spread = kw.pop('spread', 0.0)
    b = Builder(rng, gen.job(rng, **kw))
    b.world_kind()
    if rng.random() < mixed_types:
        b.mixed = b.no_text_out = True
    if rng.random() < spread:
        b.spread = True
    return b


# -- C01..C03: the three parallel operations -----------------------------------
@prop
def g_C01(rng):
    b = builder(rng, mixed_types=0.15, spread=0.12)
    vs = b.new_vs()
    A = B = None
    for _ in range(rng.choice([1, 1, 2, 3])):
        if A is not None and rng.random() < 0.3:
            b.ip(vs, A, B)
        else:
            A, B = b.ip(vs)
    return plain(rng, b)


@prop
def g_C02(rng):
    b = builder(rng, mixed_types=0.15, spread=0.12)
    vs = b.new_vs()
    A = None
    for _ in range(rng.choice([1, 1, 2, 3])):
        A = b.symm(vs, A if rng.random() < 0.3 else None)
    if rng.random() < 0.3:
        b.ip(vs, A, A)
    return plain(rng, b)


@prop
def g_C03(rng):
    b = builder(rng, mixed_types=0.15, spread=0.12)
    vs = b.new_vs()
    A = None
    for _ in range(rng.choice([1, 1, 2])):
        A, O = b.lin(vs, A if rng.random() < 0.3 else None)
    if rng.random() < 0.25 and b.data[O]['hkind'] != 'mem':
        # use what was put straight away
        o_idx = gen.idx_of(rng, b.data[O]['count'])
        b.op(op='call', obj=vs, m='compute_symm_inner_product_array',
             a=[b.H(O, o_idx)])
    return plain(rng, b)


# -- C04: liveness of everything --------------------------------------------------
def mixed(b, rng, k, decs=True):
    vs = None
    for _ in range(k):
        w = rng.choice(['ip', 'symm', 'lin', 'derivs', 'helper', 'red'] + (
            ['pod', 'bpod', 'dmd', 'tls', 'galerkin'] if decs else []))
        b.group()
        if w in ('ip', 'symm', 'lin'):
            vs = vs or b.new_vs()
            getattr(b, w)(vs)
        elif w == 'helper':
            for _ in range(rng.randrange(1, 5)):
                b.helper()
        elif w == 'red':
            for _ in range(rng.randrange(1, 4)):
                b.reduction()
        elif w == 'tls':
            b.dmd(tls=True, puts=0.4)
        elif w in ('pod', 'bpod', 'dmd', 'galerkin'):
            d = getattr(b, w)(puts=0.5)
            if d and w != 'galerkin' and rng.random() < 0.4:
                gets(b, rng, d['obj'], d['cls'])
        else:
            getattr(b, w)()


def gets(b, rng, obj, cls):
    """Restore whatever was saved, into the same object."""
    done = {}
    for op in b.prog:
        if op.get('obj') == obj and op['op'] == 'call' and \
                op['m'].startswith('put_'):
            done['get_' + op['m'][4:]] = [a['path'] for a in op['a']]
    for m, dests in sorted(done.items()):
        if m in Model.GETS[cls]:
            b.op(op='call', obj=obj, m=m, a=[{'path': d} for d in dests])


@prop
def g_C04(rng):
    b = builder(rng, nmin=2 if rng.random() < 0.95 else 1)
    b.with_vis = False
    cfg = b.sc['cfg']
    cfg['p_rendezvous'] = rng.choice([0.0, 0.5, 1.0, 1.0, 1.0])
    cfg['p_sync'] = rng.choice([0.0, 0.5, 1.0, 1.0])
    if rng.random() < 0.5:
        b.sc['clock'] = gen.clocks(rng, b.n, wild=True)
    mixed(b, rng, rng.choice([1, 1, 2, 3]))
    return plain(rng, b, 'live')


# -- C07..C11: decompositions ------------------------------------------------------
def make(b, fam, **kw):
    if fam == 'tls':
        return b.dmd(tls=True, **kw)
    return getattr(b, fam)(**kw)


def decomps(b, rng, which):
    """Decompositions on one object: first, other cuts, other vectors."""
    more = rng.random() < 0.3
    b.unrelated = not more
    d = first = make(b, which)
    while d and more:
        more = rng.random() < 0.3
        b.unrelated = not more
        w = rng.choice(['again', 'again', 'new', 'twin'])
        if w == 'again':
            b.again(d)
        elif w == 'twin':           # another object, and back
            make(b, which, puts=0)
            b.rest(d)
        else:
            d = make(b, which, obj=d['obj'])
    b.unrelated = True
    return first


def bare(b, rng, which):
    if which == 'bpod' or rng.random() > 0.06:
        return False
    for _ in range(rng.randrange(1, 4)):
        b.bare({'pod': 'PODHandles', 'dmd': 'DMDHandles',
                'tls': 'TLSqrDMDHandles'}[which])
    return True


def decomp(which):
    def g(rng):
        b = builder(rng)
        if which == 'tls':
            d = bare(b, rng, which) or decomps(b, rng, which)
        elif which == 'c11':
            d = None
            if rng.random() < 0.2:
                if rng.random() < 0.85:
                    b = builder(rng, n=1)
                d = b.galerkin_arrays()
                if d and rng.random() < 0.4:
                    b.derivs_arrays()
            elif rng.random() < 0.3:
                b.derivs()
                b.derivs() if rng.random() < 0.3 else None
                d = True
            else:
                d = b.galerkin()
        else:
            if which == 'pod' and rng.random() < 0.1:
                b.mixed = b.no_text_out = True
            d = bare(b, rng, which) or decomps(b, rng, which)
        return plain(rng, b) if d else None
    return g


GEN['C07'] = decomp('pod')
GEN['C08'] = decomp('bpod')
GEN['C09'] = decomp('dmd')
GEN['C10'] = decomp('tls')
GEN['C11'] = decomp('c11')


# -- C18, C19 --------------------------------------------------------------------
HOSTNAMES = ['node01', 'node1', 'n', 'N', 'n1', 'n10', 'login-a.cluster.org',
             'login-a.cluster', 'x' * 200, 'x' * 199 + 'y', '0', '00',
             'h\u00f4te', 'a b', 'node02']
HOST_FORMATS = ['node%d.cluster.example.org', 'n%d', '%d', 'rack%d-node-01',
                'node-0000000000%d', 'NODE%dx', 'a%d' + 'z' * 120,
                'z' * 120 + '%d', 'ip-10-0-%d-17.ec2.internal']


@prop
def g_C18(rng):
    b = builder(rng)
    sc = b.sc
    k = max(sc['hosts']) + 1
    if rng.random() < 0.6:
        f = rng.choice([None] + HOST_FORMATS)
        if f:
            # names that differ in one place only
            h = [f % x for x in rng.sample(range(10), k)] if k <= 10 else None
        else:
            h = rng.sample(HOSTNAMES, k) if k <= len(HOSTNAMES) else None
        if h:
            sc['cfg']['hostnames'] = h
    if b.n == 1 and rng.random() < 0.6:
        sc['mpi'] = False
    for m in rng.sample(['get_rank', 'get_num_procs', 'get_num_nodes',
                         'get_node_ID', 'get_num_MPI_workers'],
                        rng.randrange(0, 3)):
        b.helper(m)
    for _ in range(rng.randrange(2, 9)):
        b.helper()
    return plain(rng, b)


@prop
def g_C19(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15,
                    16, 17])
    b = Builder(rng, gen.job(rng, n=n))
    for _ in range(rng.randrange(1, 5)):
        b.reduction()
    return plain(rng, b)


from . import props_job, props_more, props_rel, props_store  # noqa: E402,F401
from . import props_misuse  # noqa: E402,F401
