"""One simulated MPI job: workers, clocks, hosts, disk, shared store, faults."""
import io
import os
import sys
import types
import warnings
import zlib

import numpy as np
import scipy.linalg

from . import disk, loader, mpi
from .core import Decider, HarnessError, Scheduler, SimKill


class _Router(io.TextIOBase):
    """sys.stdout / sys.stderr of the worker that is running."""

    def __init__(self, name, real):
        self._name, self._real = name, real

    def write(self, s):
        w = mpi._cur.world
        if w is not None and w.sched_active():
            w.out(self._name, s)
            return len(s)
        return self._real.write(s)

    def flush(self):
        w = mpi._cur.world
        if w is None or not w.sched_active():
            self._real.flush()

    def writable(self):
        return True

    @property
    def buffer(self):
        return self._real.buffer

    def fileno(self):
        return self._real.fileno()

    @property
    def encoding(self):
        return 'utf-8'


_hooks = False
_np_real = {}


def install():
    """Process-wide seams; all of them pass through outside a run."""
    global _hooks
    if _hooks:
        return
    _hooks = True
    disk.install()
    sys.stdout = _Router('stdout', sys.stdout)
    sys.stderr = _Router('stderr', sys.stderr)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import scipy.signal  # noqa: preloaded so that workers never import it
    _np_real['eigh'] = np.linalg.eigh
    _np_real['svd'] = np.linalg.svd
    _np_real['eig'] = np.linalg.eig
    _np_real['sp_eig'] = scipy.linalg.eig
    _np_real['sp_eigh'] = scipy.linalg.eigh
    _np_real['sp_svd'] = scipy.linalg.svd
    np.linalg.eigh = _eigh(_np_real['eigh'])
    scipy.linalg.eigh = _eigh(_np_real['sp_eigh'])
    np.linalg.svd = _svd(_np_real['svd'])
    scipy.linalg.svd = _svd(_np_real['sp_svd'])
    np.linalg.eig = _eig(_np_real['eig'])
    scipy.linalg.eig = _sp_eig(_np_real['sp_eig'])


def _het():
    w = mpi._cur.world
    if w is None or not w.sched_active():
        return None, None
    r = w.current_rank()
    w.lapack_calls[r] = w.lapack_calls.get(r, 0) + 1
    if w.cfg.get('lapack_faults'):
        w.lapack_event(r)
    if not w.cfg.get('hetero'):
        return None, None
    w.probe('hetero_lapack')
    seed = (w.cfg['hetero'] * 1000003 + r * 7919 + w.lapack_calls[r]) % (1 << 31)
    return w, np.random.RandomState(seed)


def _phases(rng, n, cplx):
    if cplx:
        return np.exp(2j * np.pi * rng.rand(n))
    return rng.choice([-1., 1.], size=n)


def _jitter(rng, vals):
    return vals * (1. + rng.randint(-3, 4, size=vals.shape) *
                   np.finfo(float).eps)


def _eigh(real):
    def eigh(a, *args, **kw):
        w, rng = _het()
        out = real(a, *args, **kw)
        if rng is None or not isinstance(out, tuple):
            return out
        vals, vecs = out
        vecs = vecs * _phases(rng, vecs.shape[1], np.iscomplexobj(vecs))
        vals = np.asarray(vals)
        top = float(np.max(np.abs(vals))) if vals.size else 0.
        k = 0
        while k < vals.size:             # another basis of a repeated value
            m = k + 1
            while m < vals.size and abs(vals[m] - vals[k]) <= 1e-14 * top:
                m += 1
            if m - k > 1 and top > 0:
                q = np.linalg.qr(rng.randn(m - k, m - k))[0]
                vecs[:, k:m] = vecs[:, k:m].dot(q)
            k = m
        res = (_jitter(rng, vals), vecs)
        return type(out)(*res) if hasattr(out, '_fields') else res
    return eigh


def _svd(real):
    def svd(a, *args, **kw):
        w, rng = _het()
        out = real(a, *args, **kw)
        if rng is None or not isinstance(out, tuple):
            return out
        u, s, vh = out
        ph = _phases(rng, s.size, np.iscomplexobj(u))
        u = np.array(u)
        vh = np.array(vh)
        u[:, :s.size] = u[:, :s.size] * ph
        vh[:s.size] = (vh[:s.size].T * np.conj(ph)).T
        res = (u, _jitter(rng, s), vh)
        return type(out)(*res) if hasattr(out, '_fields') else res
    return svd


def _eig(real):
    def eig(a, *args, **kw):
        w, rng = _het()
        out = real(a, *args, **kw)
        if rng is None:
            return out
        vals, vecs = out
        vecs = vecs * _phases(rng, vecs.shape[1], np.iscomplexobj(vecs))
        res = (vals, vecs)
        return type(out)(*res) if hasattr(out, '_fields') else res
    return eig


def _sp_eig(real):
    def eig(a, b=None, left=False, right=True, *args, **kw):
        w, rng = _het()
        out = real(a, b, left, right, *args, **kw)
        if rng is None or not isinstance(out, tuple):
            return out
        out = list(out)
        perm = rng.permutation(out[0].size)
        out[0] = out[0][perm]
        for i in range(1, len(out)):
            v = out[i][:, perm]
            ph = _phases(rng, v.shape[1], np.iscomplexobj(v))
            out[i] = v * ph
        return tuple(out)
    return eig


class InjectedFault(Exception):
    """Raised by user callbacks on the fault plan's orders."""


class World(object):
    """Configuration keys (all optional):

    n            number of workers
    hosts        host index of every worker
    mpi          False: mpi4py is not installed (n must be 1)
    tag_ub       largest tag of this MPI library
    p_rendezvous, p_sync   adversary rates
    clock        list of {offset, rate, jumps: [[call no., delta]...]}
    slow         {rank: seconds added per callback}
    hetero       seed of per-node legal LAPACK variation (0 = identical nodes)
    crash_step   kill the job at this scheduler step
    faults       list of {rank, op, nth, kind, ...}
    io_buffer    user-space buffer size of files
    """

    def __init__(self, cfg, decider, scratch=None, max_steps=60000,
                 wall_limit=60.0, store=None):
        install()
        self.cfg = cfg
        self.n = cfg.get('n', 1)
        hosts = cfg.get('hosts') or [0] * self.n
        self.hosts = ['node%02d' % h for h in hosts]
        if cfg.get('hostnames'):
            self.hosts = [cfg['hostnames'][h] for h in hosts]
        self.decider = decider
        self.scratch = os.path.abspath(scratch) if scratch else None
        self.sched = Scheduler(decider, max_steps, wall_limit)
        self.sched.crash_step = cfg.get('crash_step')
        self.net = mpi.Net(self)
        self.sched.net = self.net
        self.sched.on_activate = self._activate
        self.finished = False
        self.active = False
        self.coll_count = {}
        self.ctxs = {}
        self.open_requests = 0
        self.dropped_requests = 0
        self.misuses = []
        self.probes = {}
        self.fired = {}
        self.counts = {}
        self.outputs = []        # (step, rank, stream, text, clock)
        self.lapack_calls = {}
        self.lapack_seen = {}
        self.clocks = []
        self.slept = [0.0] * self.n
        for r in range(self.n):
            c = (cfg.get('clock') or [{}] * self.n)[r]
            self.clocks.append({
                'offset': c.get('offset', 1.5e9), 'rate': c.get('rate', 1.0),
                'jumps': [list(j) for j in c.get('jumps', [])], 'calls': 0,
                'extra': 0.0, 'mono_extra': 0.0})
        self.slow = {int(k): v for k, v in (cfg.get('slow') or {}).items()}
        self.faults = [dict(f) for f in cfg.get('faults') or []]
        self.store = store if store is not None else {}
        self.in_progress = {}
        self.file_writes = []
        self.cur_op = {}
        self.fault_log = []      # (rank, operation, fault point, kind)
        self.violations = []     # (class, text) found while running
        self.envs = []
        for r in range(self.n):
            if cfg.get('mpi', True):
                pkg, mod = mpi.make_mpi_module(self, r)
            else:
                pkg = mod = None
            self.envs.append(loader.RankEnv(self, r, pkg, mod,
                                            disk.sim_open))

    # -- bookkeeping -------------------------------------------------------
    def probe(self, name, k=1):
        self.probes[name] = self.probes.get(name, 0) + k

    def fire(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1

    def note(self, rank, label):
        self.sched.note(rank, label)

    def misuse(self, text):
        if not self.sched.aborting:
            self.misuses.append(text)

    def violate(self, cls, text):
        if not self.sched.aborting:
            self.violations.append((cls, text))

    def new_ctx(self, key):
        if key not in self.ctxs:
            self.ctxs[key] = 1 + len(self.ctxs)
        return self.ctxs[key]

    def sched_active(self):
        return self.active

    def current_rank(self):
        return self.sched.current.rank

    def _activate(self, rank):
        self.envs[rank].activate()

    # -- yields --------------------------------------------------------------
    def mpi_yield(self, rank, label, pred=None, why=''):
        if rank is not None and self.sched.current.rank != rank:
            raise HarnessError('communicator of worker %d used by %d' % (
                rank, self.sched.current.rank))
        self.sched.yield_(rank, label, pred, 1e-6, why)

    def step(self, rank, label, dt=1e-6):
        self.sched.yield_(rank, label, None, dt + self.slow.get(rank, 0.0))

    # -- time ----------------------------------------------------------------
    def clock(self, rank, mono=False):
        c = self.clocks[rank]
        c['calls'] += 1
        for j in c['jumps']:
            if j[0] == c['calls']:
                c['extra'] += j[1]
                if j[1] > 0:
                    c['mono_extra'] += j[1]
                self.fire('clock_jump_back' if j[1] < 0 else 'clock_jump')
        if not self.sched.aborting and self.active:
            self.sched.yield_(rank, None)
        if mono:
            return 100.0 + self.sched.now * c['rate'] + c['mono_extra']
        return c['offset'] + self.sched.now * c['rate'] + c['extra']

    def peek_clock(self, rank):
        c = self.clocks[rank]
        return c['offset'] + self.sched.now * c['rate'] + c['extra']

    def sleep(self, rank, dt):
        until = self.sched.now + dt
        self.probe('sleep')
        self.sched.yield_(rank, 'sleep', None, max(0.0, dt))
        self.sched.now = max(self.sched.now, until)

    def out(self, stream, text):
        r = self.current_rank()
        if self.sched.aborting:
            return
        self.outputs.append((self.sched.step, r, stream, text,
                             self.peek_clock(r)))
        self.sched.yield_(r, None)

    # -- faults --------------------------------------------------------------
    def _due(self, rank, op):
        key = (rank, op)
        k = self.counts.get(key, 0)
        self.counts[key] = k + 1
        for f in self.faults:
            if f['rank'] == rank and f['op'] == op and f['nth'] == k:
                self.fault_log.append((rank, self.cur_op.get(rank), op,
                                       f['kind']))
                return f
        return None

    def io_event(self, rank, op, path):
        """Yield point of a file operation; returns the fault to apply."""
        self.sched.yield_(rank, '%s %s' % (op, os.path.basename(path)),
                          None, 1e-5 + self.slow.get(rank, 0.0))
        cls = op.partition(':')[0]
        if cls == 'open':
            cls = 'open_r' if op.endswith(':r') else 'open_w'
        f = self._due(rank, 'io_' + cls)
        if f:
            self.fire('io_%s_%s' % (cls, f['kind'] if f['kind'] != 'error'
                                    else f.get('errno', 'EIO')))
            self.note(rank, 'FAULT %s %s' % (f['kind'], op))
        return f

    def callback(self, rank, op, label=None, dt=1e-4):
        """Yield point of a user callback; may raise an injected fault."""
        self.step(rank, label or op, dt)
        f = self._due(rank, op)
        if f:
            self.note(rank, 'FAULT %s %s' % (f['kind'], op))
            if f['kind'] == 'raise':
                self.fire('callback_%s_raise' % op)
                raise InjectedFault('%s on worker %d' % (op, rank))
            if f['kind'] == 'nomem':
                self.fire('callback_%s_nomem' % op)
                raise MemoryError('simulated: %s on worker %d' % (op, rank))
            if f['kind'] == 'oserror':
                self.fire('callback_%s_oserror' % op)
                raise OSError(5, 'simulated I/O error: %s' % op)
            if f['kind'] == 'stall':
                self.fire('callback_%s_stall' % op)
                self.sched.now += f.get('seconds', 100.0)
                self.step(rank, 'stalled')
        return f

    def lapack_event(self, rank):
        f = self._due(rank, 'lapack')
        if f:
            self.fire('lapack_fail')
            raise np.linalg.LinAlgError('simulated: did not converge')

    def file_opened_for_write(self, rank, path):
        self.file_writes.append((self.sched.step, rank,
                                 os.path.basename(path)))

    # -- running -------------------------------------------------------------
    def run(self, mains):
        """mains: one callable(rank, env) per worker."""
        def wrap(r):
            def main():
                mains[r](r, self.envs[r])
            return main
        prev = mpi._cur.world
        mpi._cur.world = self
        self.active = True
        try:
            out = self.sched.run([wrap(r) for r in range(self.n)])
        finally:
            self.active = False
            self.finished = True
            mpi._cur.world = prev
            loader.deactivate(self.envs)
        return out

    def trace_hash(self):
        return self.sched.hash.hexdigest()
