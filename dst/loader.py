"""Loads a private copy of the package under test for every simulated worker.

Each worker of an MPI job is its own process with its own module globals.  Here
each worker gets its own module objects, executed from code compiled once from
/repo's working tree, with its own `__builtins__` so that imports of mpi4py,
time and socket, and calls of open() and print(), reach the simulator.
"""
import builtins
import os
import sys
import time as _real_time
import types
import warnings

REPO = os.environ.get('DST_REPO', '/repo')
_real_import = builtins.__import__
_code_cache = {}


def repo_modules():
    """name -> path of the package's modules (tests and examples excluded)."""
    root = os.path.join(REPO, 'modred')
    out = {}
    for base, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d not in (
            'tests', 'examples', '__pycache__'))
        rel = os.path.relpath(base, REPO).replace(os.sep, '.')
        for f in sorted(files):
            if f.endswith('.py'):
                name = rel if f == '__init__.py' else rel + '.' + f[:-3]
                out[name] = os.path.join(base, f)
    return out


def code_for(name, path):
    if name not in _code_cache:
        with open(path, 'rb') as fh:
            src = fh.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _code_cache[name] = compile(src, path, 'exec', dont_inherit=True)
    return _code_cache[name]


_MODULES = None


def modules():
    global _MODULES
    if _MODULES is None:
        _MODULES = repo_modules()
        if 'modred' not in _MODULES:
            raise RuntimeError('no modred package under %s' % REPO)
    return _MODULES


def make_time_module(world, rank):
    m = types.ModuleType('time')
    m.__dict__.update({k: v for k, v in _real_time.__dict__.items()
                       if not k.startswith('__')})

    def time():
        return world.clock(rank)

    def mono():
        return world.clock(rank, mono=True)

    def sleep(dt):
        world.sleep(rank, dt)

    m.time, m.sleep = time, sleep
    m.monotonic = m.perf_counter = m.process_time = m.thread_time = mono
    for nm in ('time', 'monotonic', 'perf_counter', 'process_time'):
        def ns(nm=nm):
            return int(getattr(m, nm)() * 1e9)
        setattr(m, nm + '_ns', ns)

    def _lt(t=None):
        return _real_time.gmtime(world.clock(rank) if t is None else t)

    def strftime(fmt, t=None):
        return _real_time.strftime(fmt, t if t is not None else _lt())
    m.localtime = m.gmtime = _lt
    m.strftime = strftime
    return m


def make_socket_module(world, rank):
    m = types.ModuleType('socket')
    m.gethostname = lambda: world.hosts[rank]
    m.getfqdn = lambda name='': world.hosts[rank]
    return m


class RankEnv(object):
    """Module table and builtins of one worker."""

    def __init__(self, world, rank, mpi_pkg, mpi_mod, open_fn=None):
        self.world, self.rank = world, rank
        self.mods = {}
        self.fakes = {
            'time': make_time_module(world, rank),
            'socket': make_socket_module(world, rank),
        }
        if mpi_pkg is not None:
            self.mods['mpi4py'] = mpi_pkg
            self.mods['mpi4py.MPI'] = mpi_mod
        b = dict(builtins.__dict__)
        b['__import__'] = self.import_
        if open_fn is not None:
            b['open'] = open_fn
        self.builtins = b

    def load(self, name):
        mod = self.mods.get(name)
        if mod is not None:
            return mod
        parent, _, leaf = name.rpartition('.')
        if parent and parent not in self.mods:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        if name == 'modred.tests' or name.startswith('modred.tests.') or \
                name == 'modred.examples':
            mod = types.ModuleType(name)
            mod.__path__ = []
            self.mods[name] = mod
            sys.modules[name] = mod
            setattr(self.mods[parent], leaf, mod)
            return mod
        path = modules().get(name)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__builtins__ = self.builtins
        if path.endswith('__init__.py'):
            mod.__path__ = [os.path.dirname(path)]
            mod.__package__ = name
        else:
            mod.__package__ = parent
        self.mods[name] = mod
        sys.modules[name] = mod
        try:
            exec(code_for(name, path), mod.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            sys.modules.pop(name, None)
            raise
        if parent:
            setattr(self.mods[parent], leaf, mod)
        return mod

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        absname = name
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:len(parts) - (level - 1)]
            absname = '.'.join(parts + ([name] if name else []))
        top = absname.partition('.')[0]
        if top == 'modred':
            mod = self.load(absname)
            if not fromlist:
                return self.load(top) if not level else mod
            for f in fromlist:
                if f == '*':
                    names = getattr(mod, '__all__', ())
                else:
                    names = (f,)
                for nm in names:
                    if not hasattr(mod, nm) and hasattr(mod, '__path__'):
                        try:
                            self.load(absname + '.' + nm)
                        except ModuleNotFoundError:
                            pass
            return mod
        if top == 'mpi4py':
            if 'mpi4py' not in self.mods:
                raise ModuleNotFoundError("No module named 'mpi4py'",
                                          name='mpi4py')
            if absname not in self.mods:
                raise ModuleNotFoundError('No module named %r' % absname,
                                          name=absname)
            return self.mods[absname] if fromlist else self.mods['mpi4py']
        if absname in self.fakes:
            return self.fakes[absname]
        return _real_import(name, globals, locals, fromlist, level)

    def activate(self):
        sys.modules.update(self.mods)


def deactivate(envs):
    for env in envs:
        for k in env.mods:
            sys.modules.pop(k, None)
