"""Simulated MPI with the mpi4py interface.

Legal MPI behaviour is chosen by the scheduler: when a message arrives, whether
a standard-mode send is buffered ("eager") or waits for the matching receive
("rendezvous"), whether a rooted collective synchronises.  Order per
(source, destination, communicator) is kept, as MPI guarantees.
"""
import pickle as _pickle
import types
from collections import deque

import numpy as np

from .core import SimKill

ANY_SOURCE = -2
ANY_TAG = -1
PROC_NULL = -1
UNDEFINED = -32766

# the process-wide "current world"; only one simulated worker runs at a time
_cur = types.SimpleNamespace(world=None)


class Msg(object):
    __slots__ = ('src', 'dst', 'tag', 'ctx', 'data', 'eager', 'seq',
                 'matched', 'corrupt', 'buf', 'what', 'delivered')


class Recv(object):
    __slots__ = ('src', 'tag', 'ctx', 'msg', 'cancelled')


class Net(object):
    """Messages in flight, unexpected queues and posted receives."""

    def __init__(self, world):
        self.world = world
        self.channels = {}
        self.unexpected = {}     # (dst, ctx) -> [Msg]
        self.posted = {}         # (dst, ctx) -> [Recv]
        self.seq = 0
        self.sent = 0
        self.rendezvous = 0
        self.reordered = 0
        self.colls = {}          # (ctx, index) -> Coll
        self.last_delivered = {}

    def deliverable(self):
        return sorted(k for k, q in self.channels.items() if q)

    def deliver(self, key):
        msg = self.channels[key].popleft()
        msg.delivered = True
        last = self.last_delivered.get(msg.dst, -1)
        if msg.seq < last:
            self.reordered += 1
        self.last_delivered[msg.dst] = max(last, msg.seq)
        where = (msg.dst, msg.ctx)
        for i, r in enumerate(self.posted.get(where, ())):
            if _matches(r, msg):
                del self.posted[where][i]
                r.msg = msg
                self._match(msg)
                return
        self.unexpected.setdefault(where, []).append(msg)

    def _match(self, msg):
        msg.matched = True
        if msg.buf is not None:          # zero-copy send: read it now
            msg.data = _pickle.dumps(np.array(msg.buf))
            msg.buf = None

    def send(self, src, dst, tag, ctx, data, mode, buf=None, what=''):
        w = self.world
        m = Msg()
        m.src, m.dst, m.tag, m.ctx = src, dst, tag, ctx
        m.data, m.buf = data, None
        m.seq = self.seq
        m.what = what
        self.seq += 1
        self.sent += 1
        m.matched = m.corrupt = m.delivered = False
        if mode == 'std':
            m.eager = not w.decider.coin(w.cfg.get('p_rendezvous', 0.0))
        else:
            m.eager = (mode == 'buf')
        if not m.eager:
            self.rendezvous += 1
            if buf is not None:
                m.buf, m.data = buf, None
        self.channels.setdefault((src, dst, ctx), deque()).append(m)
        return m

    def post(self, dst, src, tag, ctx):
        r = Recv()
        r.src, r.tag, r.ctx, r.msg, r.cancelled = src, tag, ctx, None, False
        q = self.unexpected.get((dst, ctx), [])
        for i, m in enumerate(q):
            if _matches(r, m):
                del q[i]
                r.msg = m
                self._match(m)
                return r
        self.posted.setdefault((dst, ctx), []).append(r)
        return r

    def peek(self, dst, src, tag, ctx):
        r = Recv()
        r.src, r.tag, r.ctx = src, tag, ctx
        for m in self.unexpected.get((dst, ctx), ()):
            if _matches(r, m):
                return m
        return None

    def leftovers(self):
        out = []
        for k in sorted(self.channels):
            for m in self.channels[k]:
                out.append('message %d->%d tag %s never received' % (
                    m.src, m.dst, m.tag))
        for k in sorted(self.unexpected):
            for m in self.unexpected[k]:
                out.append('message %d->%d tag %s never received' % (
                    m.src, m.dst, m.tag))
        for k in sorted(self.posted):
            for r in self.posted[k]:
                if not r.cancelled:
                    out.append('receive posted at %d never satisfied' % k[0])
        return out


def _matches(r, m):
    return ((r.src == ANY_SOURCE or r.src == m.src) and
            (r.tag == ANY_TAG or r.tag == m.tag))


class Coll(object):
    __slots__ = ('kind', 'root', 'opname', 'vals', 'sync', 'result', 'left')

    def __init__(self, kind, root, opname, sync):
        self.kind, self.root, self.opname, self.sync = kind, root, opname, sync
        self.vals = {}
        self.result = {}
        self.left = 0


class Exception_(RuntimeError):
    """MPI.Exception"""

    def __init__(self, *args):
        RuntimeError.__init__(self, *args)
        w = _cur.world
        if w is not None and not w.sched.aborting:
            w.misuse('MPI error: ' + (str(args[0]) if args else ''))

    def Get_error_code(self):
        return 1

    def Get_error_string(self):
        return str(self)


class Op(object):
    def __init__(self, name, fn, commute=True):
        self.name, self.fn, self.commute = name, fn, commute

    def __call__(self, x, y):
        return self.fn(x, y)

    def Is_commutative(self):
        return self.commute

    is_commutative = property(lambda self: self.commute)
    is_predefined = property(lambda self: not self.name.startswith('user'))

    def Free(self):
        pass

    @classmethod
    def Create(cls, function, commute=False):
        return cls('user-op', function, commute)


def _maxloc(x, y):
    u, i = x
    v, j = y
    if u > v:
        return u, i
    if v > u:
        return v, j
    return (v, j) if j < i else (u, i)


def _minloc(x, y):
    u, i = x
    v, j = y
    if u < v:
        return u, i
    if v < u:
        return v, j
    return (v, j) if j < i else (u, i)


OPS = dict(
    SUM=Op('SUM', lambda x, y: x + y),
    PROD=Op('PROD', lambda x, y: x * y),
    MAX=Op('MAX', lambda x, y: y if y > x else x),
    MIN=Op('MIN', lambda x, y: y if y < x else x),
    LAND=Op('LAND', lambda x, y: bool(x) & bool(y)),
    LOR=Op('LOR', lambda x, y: bool(x) | bool(y)),
    LXOR=Op('LXOR', lambda x, y: bool(x) ^ bool(y)),
    BAND=Op('BAND', lambda x, y: x & y),
    BOR=Op('BOR', lambda x, y: x | y),
    BXOR=Op('BXOR', lambda x, y: x ^ y),
    MAXLOC=Op('MAXLOC', _maxloc),
    MINLOC=Op('MINLOC', _minloc),
    REPLACE=Op('REPLACE', lambda x, y: y),
    NO_OP=Op('NO_OP', lambda x, y: x),
)


class Status(object):
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.count = 0
        self.error = 0
        self.cancelled = False

    def _fill(self, m):
        self.source, self.tag = m.src, m.tag
        self.count = len(m.data) if m.data is not None else 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return 0

    def Get_count(self, datatype=None):
        return self.count

    def Get_elements(self, datatype):
        return self.count


class Request(object):
    """Send, receive or collective request."""

    def __init__(self, world=None, rank=0, msg=None, recv=None, pred=None,
                 finish=None):
        self._w, self._rank = world, rank
        self._msg, self._recv, self._pred = msg, recv, pred
        self._finish = finish
        self._waited = world is None
        if world is not None:
            world.open_requests += 1

    def _done(self):
        if self._msg is not None:
            return self._msg.eager or self._msg.matched
        if self._recv is not None:
            return self._recv.msg is not None
        if self._pred is not None:
            return self._pred()
        return True

    def _complete(self, status=None):
        if self._recv is not None and self._recv.msg is not None:
            if status is not None:
                status._fill(self._recv.msg)
        if not self._waited:
            self._waited = True
            self._w.open_requests -= 1
            if self._finish is not None:
                self._value = self._finish()
            elif self._recv is not None:
                self._value = _payload(self._w, self._recv.msg)
            else:
                self._value = None
        return getattr(self, '_value', None)

    def wait(self, status=None):
        if self._waited:
            return getattr(self, '_value', None)
        self._w.mpi_yield(self._rank, 'wait', pred=self._done, why='wait')
        return self._complete(status)

    def Wait(self, status=None):
        self.wait(status)
        return True

    def test(self, status=None):
        if self._waited:
            return (True, getattr(self, '_value', None))
        self._w.mpi_yield(self._rank, 'test')
        if self._done():
            return (True, self._complete(status))
        return (False, None)

    def Test(self, status=None):
        return self.test(status)[0]

    def cancel(self):
        if self._recv is not None and self._recv.msg is None:
            self._recv.cancelled = True
            if not self._waited:
                self._waited = True
                self._w.open_requests -= 1

    Cancel = cancel

    def Free(self):
        self._drop()

    free = Free

    @classmethod
    def waitall(cls, requests, statuses=None):
        return [r.wait() for r in requests]

    @classmethod
    def Waitall(cls, requests, statuses=None):
        for r in requests:
            r.wait()
        return True

    @classmethod
    def waitany(cls, requests, status=None):
        r0 = next(r for r in requests if r._w is not None)
        r0._w.mpi_yield(
            r0._rank, 'waitany',
            pred=lambda: any(r._done() for r in requests if not r._waited))
        for i, r in enumerate(requests):
            if not r._waited and r._done():
                return i, r._complete(status)

    @classmethod
    def testall(cls, requests, statuses=None):
        if all(r._waited or r._done() for r in requests):
            return True, [r.wait() for r in requests]
        if requests and requests[0]._w is not None:
            requests[0]._w.mpi_yield(requests[0]._rank, 'testall')
        return False, None

    def __del__(self):
        if not self._waited and not self._w.sched.aborting:
            self._w.dropped_requests += 1
        self._drop()

    def _drop(self):
        # Dropping the last reference frees the send buffer.  If the transfer
        # has not happened yet its contents are gone.
        try:
            if not self._waited and self._msg is not None and \
                    not self._w.sched.aborting:
                self._waited = True
                self._w.open_requests -= 1
                if not self._done():
                    self._msg.corrupt = True
                    self._w.probe('request_freed_in_flight')
        except Exception:
            pass


REQUEST_NULL = Request()
Prequest = Grequest = Request


def _payload(world, msg):
    if msg.corrupt:
        world.misuse('send buffer of %d->%d tag %s was freed before the '
                     'transfer' % (msg.src, msg.dst, msg.tag))
        raise _pickle.UnpicklingError('message truncated')
    if msg.data is None:
        return None
    return _pickle.loads(msg.data)


def _bufarr(buf):
    """numpy view of an mpi4py buffer specification."""
    if isinstance(buf, (list, tuple)):
        buf = buf[0]
    if buf is IN_PLACE or buf is None:
        return buf
    return np.asarray(buf)


IN_PLACE = type('InPlace', (), {'__repr__': lambda s: 'MPI.IN_PLACE'})()


class Comm(object):
    """Communicator handle; several Python objects may share one."""

    def __new__(cls, comm=None):
        self = object.__new__(cls)
        if comm is not None:
            self._w, self._ctx = comm._w, comm._ctx
            self._group, self._me = comm._group, comm._me
        else:
            self._w = None
            self._ctx, self._group, self._me = None, (), -1
        return self

    def __init__(self, comm=None):
        pass

    @classmethod
    def _make(cls, world, ctx, group, wrank):
        self = object.__new__(cls)
        self._w, self._ctx = world, ctx
        self._group = tuple(group)
        self._me = wrank
        return self

    def __eq__(self, other):
        return (isinstance(other, Comm) and self._ctx == other._ctx and
                self._me == other._me)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((self._ctx, self._me))

    def __bool__(self):
        return self._w is not None

    def __reduce__(self):
        raise TypeError('cannot pickle a communicator')

    # -- queries
    def Get_size(self):
        return len(self._group)

    def Get_rank(self):
        return self._group.index(self._me)

    size = property(Get_size)
    rank = property(Get_rank)

    def Get_attr(self, key):
        if key == TAG_UB:
            return self._w.cfg.get('tag_ub', 268435455)
        if key == WTIME_IS_GLOBAL:
            return 0
        return None

    def Get_name(self):
        return 'sim-comm'

    def Set_errhandler(self, e):
        pass

    def Get_errhandler(self):
        return None

    def Is_inter(self):
        return False

    is_inter = False
    is_intra = True

    def Is_intra(self):
        return True

    def Free(self):
        pass

    def Abort(self, errorcode=0):
        w = self._w
        w.note(self._me, 'Abort(%s)' % (errorcode,))
        w.sched.finish('abort', 'rank %d called Abort' % self._me)

    # -- point to point
    def _peer(self, r):
        if not 0 <= r < len(self._group):
            raise Exception_('invalid rank %r' % (r,))
        return self._group[r]

    def _chk(self, tag):
        if not isinstance(tag, (int, np.integer)) or \
                not 0 <= tag <= self.Get_attr(TAG_UB):
            raise Exception_('invalid tag %r' % (tag,))
        return int(tag)

    def _send(self, obj, dest, tag, mode, what, buf=None):
        w = self._w
        if dest == PROC_NULL:
            return None
        dst = self._peer(dest)
        tag = self._chk(tag)
        data = _pickle.dumps(obj if buf is None else np.array(buf), 4)
        w.mpi_yield(self._me, '%s>%d#%d' % (what, dst, tag))
        return w.net.send(self._me, dst, tag, self._ctx, data, mode, buf=buf,
                          what=what)

    def _blocking(self, m):
        if m is not None and not (m.eager or m.matched):
            self._w.probe('blocked_in_send')
            self._w.mpi_yield(
                self._me, None, pred=lambda: m.matched,
                why='send to %d tag %d' % (m.dst, m.tag))

    def send(self, obj, dest, tag=0):
        self._blocking(self._send(obj, dest, tag, 'std', 'send'))

    def bsend(self, obj, dest, tag=0):
        self._send(obj, dest, tag, 'buf', 'bsend')

    def ssend(self, obj, dest, tag=0):
        self._blocking(self._send(obj, dest, tag, 'sync', 'ssend'))

    def isend(self, obj, dest, tag=0):
        m = self._send(obj, dest, tag, 'std', 'isend')
        if m is None:
            return Request()
        return Request(self._w, self._me, msg=m)

    def ibsend(self, obj, dest, tag=0):
        m = self._send(obj, dest, tag, 'buf', 'ibsend')
        return Request() if m is None else Request(self._w, self._me, msg=m)

    def issend(self, obj, dest, tag=0):
        m = self._send(obj, dest, tag, 'sync', 'issend')
        return Request() if m is None else Request(self._w, self._me, msg=m)

    def _post(self, source, tag, what):
        w = self._w
        src = source if source == ANY_SOURCE else self._peer(source)
        if tag != ANY_TAG:
            tag = self._chk(tag)
        w.mpi_yield(self._me, '%s<%d#%d' % (what, src, tag))
        if src == ANY_SOURCE:
            w.probe('any_source_recv')
        return w.net.post(self._me, src, tag, self._ctx)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        if source == PROC_NULL:
            return None
        r = self._post(source, tag, 'recv')
        if r.msg is None:
            self._w.probe('blocked_in_recv')
            self._w.mpi_yield(
                self._me, None, pred=lambda: r.msg is not None,
                why='recv from %d tag %d' % (r.src, r.tag))
        if status is not None:
            status._fill(r.msg)
        return _payload(self._w, r.msg)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        if source == PROC_NULL:
            return Request()
        r = self._post(source, tag, 'irecv')
        return Request(self._w, self._me, recv=r)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None,
                 source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        req = self.isend(sendobj, dest, sendtag)
        out = self.recv(None, source, recvtag, status)
        req.wait()
        return out

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w, me, ctx = self._w, self._me, self._ctx
        src = source if source == ANY_SOURCE else self._peer(source)
        w.mpi_yield(me, 'probe', pred=lambda: w.net.peek(
            me, src, tag, ctx) is not None, why='probe')
        if status is not None:
            status._fill(w.net.peek(me, src, tag, ctx))
        return True

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src = source if source == ANY_SOURCE else self._peer(source)
        self._w.mpi_yield(self._me, 'iprobe')
        m = self._w.net.peek(self._me, src, tag, self._ctx)
        if m is not None and status is not None:
            status._fill(m)
        return m is not None

    Probe, Iprobe = probe, iprobe

    def Send(self, buf, dest, tag=0):
        a = _bufarr(buf)
        self._blocking(self._send(None, dest, tag, 'std', 'Send', buf=a))

    def Ssend(self, buf, dest, tag=0):
        a = _bufarr(buf)
        self._blocking(self._send(None, dest, tag, 'sync', 'Ssend', buf=a))

    def Isend(self, buf, dest, tag=0):
        m = self._send(None, dest, tag, 'std', 'Isend', buf=_bufarr(buf))
        return Request() if m is None else Request(self._w, self._me, msg=m)

    def _fill(self, a, val):
        flat = np.asarray(val).ravel()
        if flat.size > a.size:
            raise Exception_('message truncated')
        a.reshape(-1)[:flat.size] = flat

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._fill(_bufarr(buf), self.recv(None, source, tag, status))

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        a = _bufarr(buf)
        r = self._post(source, tag, 'Irecv')
        return Request(self._w, self._me, recv=r, finish=lambda: self._fill(
            a, _payload(self._w, r.msg)))

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None,
                 source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        req = self.Isend(np.array(_bufarr(sendbuf)), dest, sendtag)
        self.Recv(recvbuf, source, recvtag, status)
        req.wait()

    # -- collectives
    def _coll(self, kind, root, opname, val, need, sync_ok=True):
        """Enter the next collective on this communicator; returns its slot
        once this worker may leave."""
        w, me, ctx = self._w, self._me, self._ctx
        if root is not None and not 0 <= root < len(self._group):
            raise Exception_('invalid root %r' % (root,))
        data = _pickle.dumps(val, 4)
        w.mpi_yield(me, kind)
        idx = w.coll_count.get((me, ctx), 0)
        w.coll_count[(me, ctx)] = idx + 1
        key = (ctx, idx)
        slot = w.net.colls.get(key)
        if slot is None:
            sync = (len(self._group) > 1 and
                    w.decider.coin(w.cfg.get('p_sync', 0.0)))
            slot = w.net.colls[key] = Coll(kind, root, opname, sync)
        elif (slot.kind, slot.root) != (kind, root):
            w.misuse('collective mismatch: rank %d entered %s(root=%s) while '
                     'others are in %s(root=%s)' % (
                         me, kind, root, slot.kind, slot.root))
            w.sched.finish('mismatch', w.misuses[-1])
        slot.vals[self.rank] = data
        n = len(self._group)
        if slot.sync:
            def pred():
                return len(slot.vals) == n
        else:
            def pred():
                return need(slot.vals)
        if not pred():
            w.probe('blocked_in_' + kind)
            w.mpi_yield(me, None, pred=pred, why=kind)
        slot.left += 1
        if len(slot.vals) < n:
            w.probe('left_%s_early' % kind)
        if slot.left == n:
            del w.net.colls[key]
        return slot

    def _all(self, vals):
        return len(vals) == len(self._group)

    def Barrier(self):
        self._coll('barrier', None, None, None, self._all)

    barrier = Barrier

    def Ibarrier(self):
        w, me, ctx = self._w, self._me, self._ctx
        w.mpi_yield(me, 'ibarrier')
        idx = w.coll_count.get((me, ctx), 0)
        w.coll_count[(me, ctx)] = idx + 1
        slot = w.net.colls.setdefault((ctx, idx),
                                      Coll('ibarrier', None, None, True))
        slot.vals[self.rank] = b''
        return Request(w, me, pred=lambda: self._all(slot.vals))

    ibarrier = Ibarrier

    def bcast(self, obj, root=0):
        slot = self._coll('bcast', root, None,
                          obj if self.rank == root else None,
                          lambda v: root in v)
        if self.rank == root:
            return obj
        return _pickle.loads(slot.vals[root])

    def gather(self, sendobj, recvobj=None, root=0):
        if not isinstance(root, (int, np.integer)):
            raise TypeError('root must be an integer')
        me, r = self.rank, root
        slot = self._coll('gather', root, None, sendobj,
                          (lambda v: self._all(v)) if me == r else
                          (lambda v: True))
        if me != root:
            return None
        return [_pickle.loads(slot.vals[i]) for i in range(self.size)]

    def scatter(self, sendobj, recvobj=None, root=0):
        if self.rank == root and len(sendobj) != self.size:
            raise ValueError('expecting %d items, got %d' % (
                self.size, len(sendobj)))
        slot = self._coll('scatter', root, None,
                          list(sendobj) if self.rank == root else None,
                          lambda v: root in v)
        return _pickle.loads(slot.vals[root])[self.rank]

    def allgather(self, sendobj, recvobj=None):
        slot = self._coll('allgather', None, None, sendobj, self._all)
        return [_pickle.loads(slot.vals[i]) for i in range(self.size)]

    def alltoall(self, sendobj, recvobj=None):
        slot = self._coll('alltoall', None, None, list(sendobj), self._all)
        return [_pickle.loads(slot.vals[i])[self.rank]
                for i in range(self.size)]

    def _fold(self, slot, ranks, op):
        out = None
        for k, i in enumerate(ranks):
            v = _pickle.loads(slot.vals[i])
            out = v if k == 0 else op(out, v)
        return out

    def _wrap(self, obj, op):
        if op in (OPS['MINLOC'], OPS['MAXLOC']):
            return (obj, self.rank)
        return obj

    def reduce(self, sendobj, recvobj=None, op=OPS['SUM'], root=0):
        me = self.rank
        slot = self._coll('reduce', root, op, self._wrap(sendobj, op),
                          self._all if me == root else (lambda v: True))
        if me != root:
            return None
        return self._fold(slot, range(self.size), op)

    def allreduce(self, sendobj, recvobj=None, op=OPS['SUM']):
        if isinstance(recvobj, Op):
            op = recvobj
        slot = self._coll('allreduce', None, op, self._wrap(sendobj, op),
                          self._all)
        return self._fold(slot, range(self.size), op)

    def scan(self, sendobj, recvobj=None, op=OPS['SUM']):
        me = self.rank
        slot = self._coll('scan', None, op, self._wrap(sendobj, op),
                          lambda v: all(i in v for i in range(me + 1)))
        return self._fold(slot, range(me + 1), op)

    def exscan(self, sendobj, recvobj=None, op=OPS['SUM']):
        me = self.rank
        slot = self._coll('exscan', None, op, self._wrap(sendobj, op),
                          lambda v: all(i in v for i in range(me)))
        return self._fold(slot, range(me), op) if me > 0 else None

    def Bcast(self, buf, root=0):
        a = _bufarr(buf)
        out = self.bcast(np.array(a), root)
        if self.rank != root:
            self._fill(a, out)

    def Allreduce(self, sendbuf, recvbuf, op=OPS['SUM']):
        r = _bufarr(recvbuf)
        s = r if sendbuf is IN_PLACE else _bufarr(sendbuf)
        self._fill(r, self._buffold('allreduce', None, s, op,
                                    range(self.size), self._all))

    def _buffold(self, kind, root, s, op, ranks, need):
        slot = self._coll(kind, root, op, np.array(s), need)
        fn = _BUFOPS.get(op.name, op.fn)
        out = None
        for k, i in enumerate(ranks):
            v = _pickle.loads(slot.vals[i])
            out = v if k == 0 else fn(out, v)
        return out

    def Reduce(self, sendbuf, recvbuf, op=OPS['SUM'], root=0):
        me = self.rank
        r = _bufarr(recvbuf) if recvbuf is not None else None
        s = r if sendbuf is IN_PLACE else _bufarr(sendbuf)
        out = self._buffold('reduce', root, s, op,
                            range(self.size) if me == root else [],
                            self._all if me == root else (lambda v: True))
        if me == root:
            self._fill(r, out)

    def Gather(self, sendbuf, recvbuf, root=0):
        out = self.gather(np.array(_bufarr(sendbuf)), root=root)
        if self.rank == root:
            self._fill(_bufarr(recvbuf), np.concatenate(
                [np.ravel(o) for o in out]))

    def Allgather(self, sendbuf, recvbuf):
        out = self.allgather(np.array(_bufarr(sendbuf)))
        self._fill(_bufarr(recvbuf), np.concatenate(
            [np.ravel(o) for o in out]))

    def Scatter(self, sendbuf, recvbuf, root=0):
        parts = None
        if self.rank == root:
            parts = np.array_split(np.ravel(_bufarr(sendbuf)), self.size)
        self._fill(_bufarr(recvbuf), self.scatter(parts, root=root))

    # -- construction of communicators
    def Dup(self, info=None):
        w = self._w
        slot = self._coll('dup', None, None, None, self._all)
        key = ('dup', self._ctx, w.coll_count[(self._me, self._ctx)])
        ctx = w.new_ctx(key)
        return type(self)._make(w, ctx, self._group, self._me)

    dup = Clone = Dup

    def Split(self, color=0, key=0):
        w = self._w
        vals = self.allgather((color, key))
        ident = ('split', self._ctx, w.coll_count[(self._me, self._ctx)],
                 color)
        if color == UNDEFINED:
            return COMM_NULL
        members = sorted(
            (k, i) for i, (c, k) in enumerate(vals) if c == color)
        group = [self._group[i] for _, i in members]
        return Intracomm._make(w, w.new_ctx(ident), group, self._me)

    def Split_type(self, split_type, key=0, info=None):
        host = self._w.hosts[self._me]
        return self.Split(color=sorted(set(self._w.hosts)).index(host),
                          key=key)


class Intracomm(Comm):
    pass


COMM_NULL = Intracomm()

TAG_UB = 1681915906
WTIME_IS_GLOBAL = 1681915910

_BUFOPS = {'SUM': np.add, 'PROD': np.multiply, 'MAX': np.maximum,
           'MIN': np.minimum, 'LAND': np.logical_and, 'LOR': np.logical_or}


def make_mpi_module(world, rank):
    """The `mpi4py.MPI` module as worker ``rank`` sees it."""
    m = types.ModuleType('mpi4py.MPI')
    d = m.__dict__
    d.update(OPS)
    d.update(
        Comm=Comm, Intracomm=Intracomm, Request=Request, Status=Status, Op=Op,
        Exception=Exception_, ANY_SOURCE=ANY_SOURCE, ANY_TAG=ANY_TAG,
        PROC_NULL=PROC_NULL, UNDEFINED=UNDEFINED, TAG_UB=TAG_UB,
        WTIME_IS_GLOBAL=WTIME_IS_GLOBAL, IN_PLACE=IN_PLACE,
        REQUEST_NULL=REQUEST_NULL, COMM_NULL=COMM_NULL, SUCCESS=0,
        COMM_TYPE_SHARED=1, THREAD_MULTIPLE=3, ERRORS_RETURN=None,
        ERRORS_ARE_FATAL=None, BOTTOM=None,
        DOUBLE='d', FLOAT='f', INT='i', LONG='l', COMPLEX='D',
        DOUBLE_COMPLEX='D', BYTE='b', CHAR='c', BOOL='?',
        pickle=_pickle)
    d['COMM_WORLD'] = Intracomm._make(world, 0, range(world.n), rank)
    d['COMM_SELF'] = Intracomm._make(world, -1 - rank, [rank], rank)
    d['Wtime'] = lambda: world.clock(rank)
    d['Wtick'] = lambda: 1e-6
    d['Get_processor_name'] = lambda: world.hosts[rank]
    d['Is_initialized'] = lambda: True
    d['Is_finalized'] = lambda: False
    d['Init'] = lambda: None
    d['Finalize'] = lambda: None
    d['Query_thread'] = lambda: 3
    d['Get_version'] = lambda: (4, 0)
    d['get_vendor'] = lambda: ('Simulated MPI', (1, 0, 0))
    pkg = types.ModuleType('mpi4py')
    pkg.__path__ = []
    pkg.MPI = m
    pkg.__version__ = '4.1.2'
    pkg.rc = types.SimpleNamespace(initialize=True, finalize=True,
                                   threads=True)
    return pkg, m
