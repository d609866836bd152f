"""Minimises a failing case: first the scenario, then the decision log."""
import copy
import time

from .play import play


class Shrinker(object):
    def __init__(self, case, logs, violation, budget=20.0):
        self.case, self.logs, self.violation = case, logs, violation
        self.cls = violation[0]
        self.deadline = time.monotonic() + budget
        self.tries = 0

    def left(self):
        return time.monotonic() < self.deadline

    def attempt(self, case, logs):
        """Does this variant fail the same way?"""
        self.tries += 1
        try:
            r = play(case, logs)
        except Exception:
            return False
        if r.violation and r.violation[0] == self.cls and not r.hang:
            self.case, self.logs, self.violation = case, r.logs, r.violation
            return True
        return False

    def scenario(self):
        changed = True
        while changed and self.left():
            changed = False
            for var in variants(self.case):
                if not self.left():
                    return
                # same seed of the schedule, then the default schedule
                if self.attempt(var, None):
                    changed = True
                    break
                if self.left() and self.attempt(var, [[]] * 8):
                    changed = True
                    break

    def decisions(self):
        """Zero blocks of decisions, truncate the tail (0 = default)."""
        if not self.left():
            return
        self.attempt(self.case, [[] for _ in self.logs])
        for k in range(len(self.logs)):
            size = max(1, len(self.logs[k]) // 2)
            while size >= 1 and self.left():
                pos = 0
                while pos < len(self.logs[k]) and self.left():
                    log = self.logs[k]
                    if any(log[pos:pos + size]):
                        new = [list(x) for x in self.logs]
                        new[k][pos:pos + size] = [0] * min(
                            size, len(log) - pos)
                        self.attempt(self.case, new)
                    pos += size
                if size == 1:
                    break
                size = max(1, size // 3)

    def run(self):
        self.scenario()
        self.decisions()
        for k, log in enumerate(self.logs):
            while log and log[-1] == 0:
                log = log[:-1]
            self.logs[k] = log
        return self


def scenarios_in(case):
    """Every scenario of a case, as (container, key)."""
    out = []
    if 'sc' in case:
        out.append((case, 'sc'))
    return out


def variants(case):
    """Simpler cases, boldest first."""
    for owner, key in scenarios_in(case):
        sc = owner[key]
        prog = sc['prog']
        groups = sorted(set(op.get('g', 0) for op in prog))
        if len(groups) > 1:
            for g in reversed(groups):
                if closed(prog, g):
                    yield edit(case, key, lambda s, g=g: s.__setitem__(
                        'prog', [op for op in s['prog']
                                 if op.get('g', 0) != g]))
        for i in reversed(range(len(prog))):
            if len(prog) > 1 and removable(sc, i):
                yield edit(case, key, lambda s, i=i: s['prog'].pop(i))
        for k in ('clock', 'hetero', 'crash_step', 'lists'):
            if k in sc:
                yield edit(case, key, lambda s, k=k: s.pop(k))
        for k in ('slow', 'tag_ub', 'p_rendezvous', 'p_sync', 'hostnames',
                  'io_buffer'):
            if (sc.get('cfg') or {}).get(k):
                yield edit(case, key, lambda s, k=k: s['cfg'].pop(k))
        if len(sc.get('faults') or []) > 0:
            for i in range(len(sc['faults'])):
                yield edit(case, key, lambda s, i=i: s['faults'].pop(i))
        if any(sc.get('hosts') or []):
            yield edit(case, key, lambda s: s.__setitem__(
                'hosts', [0] * s['n']))
        n = sc['n']
        for m in sorted(set([1, 2, 3, n // 2, n - 1])):
            if 1 <= m < n and case.get('shrink_n', True):
                yield edit(case, key, lambda s, m=m: set_n(s, m))


def refs(a, kind):
    """Names of the vector sets ('H') or stored arrays ('path') used."""
    out = set()
    if isinstance(a, dict):
        if kind in a:
            out.add(a[kind][0] if kind in 'Hh' else a[kind])
        for v in a.values():
            out |= refs(v, kind)
    elif isinstance(a, list):
        for v in a:
            out |= refs(v, kind)
    return out


def closed(prog, g):
    """Nothing outside the group needs what the group makes."""
    made = set(op.get('obj') for op in prog
               if op.get('g', 0) == g and op['op'] == 'new')
    paths, sets = set(), set()
    for op in prog:
        if op.get('g', 0) == g:
            paths |= refs(op, 'path')
            sets |= refs(op, 'H')
    for op in prog:
        if op.get('g', 0) != g and (
                op.get('obj') in made or refs(op, 'path') & paths or
                refs(op, 'H') & sets or refs(op, 'ref') & made or
                set(op.get('h', [])[:1] if isinstance(op.get('h'), list)
                    else []) & sets):
            return False
    return True


DEFINING = ('compute_decomp', 'compute_eigendecomp', 'compute_SVD')


def removable(sc, i):
    """The rest of the program stays valid without operation ``i``."""
    prog = sc['prog']
    op, later = prog[i], prog[i + 1:]
    m = op.get('m', '')
    if op['op'] in ('new', 'set') or m in DEFINING or m.startswith('get_'):
        return False
    if op.get('f') in ('hx_init', 'hx_final'):
        return False
    outs = [x for x in refs(op, 'H')
            if (sc['data'].get(x) or {}).get('out')]
    for q in later:
        if refs(q, 'H') & set(outs) or (
                isinstance(q.get('h'), list) and q['h'][0] in outs):
            return False
    if m.startswith('put_'):
        mine = refs(op, 'path')
        if any(refs(q, 'path') & mine for q in later):
            return False
    elif op['op'] == 'call' and (m.endswith('_coeffs') or m in (
            'compute_spectrum', 'compute_model') or m.startswith('reduce_')):
        if any(q.get('obj') == op['obj'] and (
                q['op'] == 'attr' or q.get('m', '').startswith('put_'))
               for q in later):
            return False
    return True


def set_n(s, m):
    s['n'] = m
    if s.get('hosts'):
        h = s['hosts'][:m]
        seen = {}
        s['hosts'] = [seen.setdefault(x, len(seen)) for x in h]
    if s.get('clock'):
        s['clock'] = s['clock'][:m]
    if s.get('faults'):
        s['faults'] = [f for f in s['faults'] if f['rank'] < m]
    for op in s['prog']:
        if op.get('only') is not None:
            op['only'] = [r for r in op['only'] if r < m]
        k = op.get('k') or {}
        if k.get('root', 0) >= m and op['op'] == 'comm':
            k['root'] = m - 1


def edit(case, key, f):
    c = copy.deepcopy(case)
    f(c[key])
    return c
