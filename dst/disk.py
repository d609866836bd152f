"""File seam: files under a world's scratch directory go through SimFileIO.

Real files on a real (memory) file system hold the bytes; every open, read,
write and close by a simulated worker is a yield point and a place where the
fault plan may fail.  Crash model: the job's processes are killed, so bytes
handed to the operating system survive and bytes still in user-space buffers
are lost (a write may be cut short by the kill).
"""
import builtins
import errno
import io
import os

from . import mpi as _mpi
from .core import SimKill

_real_open = io.open
_ERR = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EACCES': errno.EACCES,
        'EMFILE': errno.EMFILE, 'EDQUOT': errno.EDQUOT}


class SimFileIO(io.FileIO):
    """Raw file with yields and injected faults."""

    def __init__(self, world, rank, path, mode):
        self._w, self._rank, self._path = world, rank, path
        self._fault_close = None
        self._ok = False
        io.FileIO.__init__(self, path, mode)
        self._ok = True

    def _dead(self):
        return self._w.sched.aborting or self._w.finished

    def write(self, b):
        w = self._w
        if self._dead():
            return len(b)
        act = w.io_event(self._rank, 'write', self._path)
        if act:
            kind = act['kind']
            if kind == 'short_write' and len(b) > 1:
                n = max(1, int(len(b) * act.get('frac', 0.5)))
                return io.FileIO.write(self, memoryview(b)[:n])
            if kind == 'torn_write':          # full disk: part is written
                n = int(len(b) * act.get('frac', 0.5))
                if n:
                    io.FileIO.write(self, memoryview(b)[:n])
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            if kind == 'error':
                e = _ERR[act.get('errno', 'EIO')]
                raise OSError(e, os.strerror(e))
        if w.sched.crash_step is not None and len(b) > 1 and \
                w.sched.step + 1 >= w.sched.crash_step and \
                w.cfg.get('torn_crash'):
            # the kill lands inside this system call
            n = int(len(b) * w.cfg['torn_crash'])
            if n:
                io.FileIO.write(self, memoryview(b)[:n])
            w.probe('torn_by_crash')
            w.sched.finish('crash', 'job killed inside a write')
        return io.FileIO.write(self, b)

    def _read_gate(self):
        act = self._w.io_event(self._rank, 'read', self._path)
        if act and act['kind'] == 'error':
            e = _ERR[act.get('errno', 'EIO')]
            raise OSError(e, os.strerror(e))
        return act

    def readinto(self, buf):
        if self._dead():
            return io.FileIO.readinto(self, buf)
        act = self._read_gate()
        if act and act['kind'] == 'short_read' and len(buf) > 1:
            n = max(1, int(len(buf) * act.get('frac', 0.5)))
            data = io.FileIO.read(self, n)
            buf[:len(data)] = data
            return len(data)
        return io.FileIO.readinto(self, buf)

    def readall(self):
        if not self._dead():
            self._read_gate()
        return io.FileIO.readall(self)

    def close(self):
        if not self._ok or self.closed:
            return io.FileIO.close(self)
        w = self._w
        act = None
        if not self._dead():
            try:
                act = w.io_event(self._rank, 'close', self._path)
            except SimKill:
                io.FileIO.close(self)
                raise
        io.FileIO.close(self)
        if act and act['kind'] == 'error' and self._ok:
            e = _ERR[act.get('errno', 'EIO')]
            raise OSError(e, os.strerror(e))


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    w = _mpi._cur.world
    if w is None or w.scratch is None or not w.sched_active() or \
            opener is not None or \
            not isinstance(file, (str, bytes, os.PathLike)):
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    path = os.path.abspath(os.fsdecode(os.fspath(file)))
    if not path.startswith(w.scratch + os.sep):
        # everything simulated lives in the scratch directory
        if any(c in mode for c in 'wax+'):
            raise OSError(errno.EROFS, 'simulated read-only file system',
                          path)
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    rank = w.current_rank()
    binary = 'b' in mode
    raw_mode = ''.join(c for c in mode if c in 'rwax+')
    act = w.io_event(rank, 'open:' + raw_mode, path)
    if act and act['kind'] == 'error':
        e = _ERR[act.get('errno', 'EIO')]
        raise OSError(e, os.strerror(e), path)
    raw = SimFileIO(w, rank, path, raw_mode)
    if any(c in raw_mode for c in 'wax+'):
        w.file_opened_for_write(rank, path)
    if buffering == 0:
        return raw
    size = w.cfg.get('io_buffer', io.DEFAULT_BUFFER_SIZE)
    if buffering > 1:
        size = buffering
    if '+' in raw_mode:
        buf = io.BufferedRandom(raw, size)
    elif 'r' in raw_mode:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                            line_buffering=(buffering == 1))
    text.mode = mode
    return text


_installed = False


def install():
    """Patches the process's open(); calls outside a simulated run pass
    through."""
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    import numpy as np
    ds = np.lib._datasource
    ds.open  # noqa: force attribute
    ds._file_openers._load()
    ds._file_openers._file_openers[None] = sim_open
