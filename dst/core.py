"""Deterministic scheduler: real threads, exactly one of which runs at a time.

Every simulated MPI worker is a thread parked on its own lock.  The thread that
reaches a yield point runs the scheduler inline: it collects what may legally
happen next (a worker that can continue, a message that can arrive), asks the
decider to pick one, and either continues, delivers, or hands over.  All choices
come from one `Decider`; replaying its log reproduces the run exactly.
"""
import _thread
import hashlib
import random
import threading


class SimKill(BaseException):
    """Unwinds a simulated worker whose run is over (crash, deadlock, abort)."""


class HarnessError(Exception):
    """The simulator itself is wrong; never reported as a violation."""


class Decider(object):
    """Source of every nondeterministic choice.

    Generate mode draws from a seeded PRNG according to a strategy; replay mode
    reads a list of recorded indices (0 = the default choice, also used past the
    end of the list).
    """

    def __init__(self, strategy=None, replay=None):
        self.log = []
        self.replay = replay
        self.pos = 0
        self.strategy = strategy or {'name': 'default', 'seed': 0}
        name = self.strategy['name']
        self.name = name
        self.rng = random.Random(self.strategy.get('seed', 0))
        self.prio = {}
        self.change = {}
        if name == 'pct':
            d = self.strategy.get('depth', 3)
            horizon = self.strategy.get('horizon', 400)
            self.change = {
                self.rng.randrange(1, horizon): i for i in range(d)}
        self.nsched = 0

    def coin(self, p):
        """A recorded yes/no choice (default no)."""
        if self.replay is not None:
            return bool(self._next(2))
        v = 1 if self.rng.random() < p else 0
        self.log.append(v)
        return bool(v)

    def _next(self, n):
        v = self.replay[self.pos] if self.pos < len(self.replay) else 0
        self.pos += 1
        if v < 0 or v >= n:
            v = 0
        self.log.append(v)
        return v

    def sched(self, options, current_first):
        """Pick one of ``options``: ('t', rank) or ('n', channel key)."""
        n = len(options)
        self.nsched += 1
        if n == 1:
            return 0
        if self.replay is not None:
            return self._next(n)
        i = self._pick(options, n, current_first)
        self.log.append(i)
        return i

    def _pick(self, options, n, current_first):
        name = self.name
        rng = self.rng
        if name == 'default':
            return 0
        if name == 'random':
            return rng.randrange(n)
        if name == 'sticky':
            if current_first and rng.random() < self.strategy.get('p', 0.85):
                return 0
            return rng.randrange(n)
        if name == 'starve':
            victim = self.strategy.get('victim', 0)
            others = [
                i for i, o in enumerate(options)
                if not (o[0] == 't' and o[1] == victim)
                and not (o[0] == 'n' and self.strategy.get('net')
                         and victim in o[1][:2])]
            if others and rng.random() < 0.98:
                return others[rng.randrange(len(others))]
            return rng.randrange(n)
        if name == 'lazynet':
            tasks = [i for i, o in enumerate(options) if o[0] == 't']
            if tasks and rng.random() < 0.97:
                return tasks[rng.randrange(len(tasks))]
            return rng.randrange(n)
        if name == 'eagernet':
            net = [i for i, o in enumerate(options) if o[0] == 'n']
            if net and rng.random() < 0.97:
                return net[rng.randrange(len(net))]
            return rng.randrange(n)
        if name == 'pct':
            best = None
            for i, o in enumerate(options):
                key = o
                if key not in self.prio:
                    self.prio[key] = rng.random()
                if best is None or self.prio[key] > self.prio[options[best]]:
                    best = i
            if self.nsched in self.change:
                self.prio[options[best]] = -1.0 - self.change[self.nsched]
                best = max(range(n), key=lambda i: self.prio[options[i]])
            return best
        raise HarnessError('unknown strategy %r' % (name,))


class Task(object):
    __slots__ = ('rank', 'lock', 'pred', 'done', 'thread', 'started', 'why')

    def __init__(self, rank):
        self.rank = rank
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.pred = None          # None: runnable
        self.done = False
        self.started = False
        self.thread = None
        self.why = ''


class Scheduler(object):
    def __init__(self, decider, max_steps=60000, wall_limit=60.0):
        self.decider = decider
        self.tasks = []
        self.net = None           # object with deliverable() and deliver(key)
        self.now = 0.0            # simulated seconds
        self.step = 0
        self.max_steps = max_steps
        self.wall_limit = wall_limit
        self.outcome = None       # 'ok' | 'deadlock' | 'steplimit' | 'crash' ...
        self.detail = None
        self.aborting = False
        self.ctl = _thread.allocate_lock()
        self.ctl.acquire()
        self.current = None
        self.on_activate = None
        self.on_abort = None
        self.crash_step = None
        self.events = []          # (step, rank, label)
        self.hash = hashlib.blake2b(digest_size=12)
        self.switches = 0
        self.deliveries = 0

    # -- event log ---------------------------------------------------------
    def note(self, rank, label):
        self.events.append((self.step, rank, label))

    # -- running -----------------------------------------------------------
    def run(self, mains):
        for rank, main in enumerate(mains):
            self.tasks.append(Task(rank))
        for task, main in zip(self.tasks, mains):
            task.thread = threading.Thread(
                target=self._thread_main, args=(task, main), daemon=True)
            task.thread.start()
        # hand control to the first choice
        self._handoff_from_controller()
        if not self.ctl.acquire(timeout=self.wall_limit):
            self.outcome = 'hang'
            self.detail = 'no yield point reached for %.0f s of real time' % (
                self.wall_limit)
            self.aborting = True
            return self.outcome
        # unwind whatever is still parked, one at a time
        if self.outcome is None:
            self.outcome = 'ok'
        for task in self.tasks:
            if not task.done:
                self.aborting = True
                self.current = task
                if self.on_activate:
                    self.on_activate(task.rank)
                task.lock.release()
                task.thread.join(self.wall_limit)
                if task.thread.is_alive():
                    self.outcome = 'hang'
                    self.detail = 'worker %d cannot be unwound' % task.rank
                    return self.outcome
        for task in self.tasks:
            task.thread.join()
        return self.outcome

    def _thread_main(self, task, main):
        task.lock.acquire()
        try:
            if self.aborting:
                return
            task.started = True
            main()
        except SimKill:
            pass
        except BaseException as exc:      # harness bug: mains catch their own
            if not self.aborting:
                self.outcome = 'harness-error'
                import traceback
                self.detail = traceback.format_exc()
                self.aborting = True
            del exc
        finally:
            was_aborting = self.aborting
            task.done = True
            if was_aborting:
                # the controller (or the aborting thread) drives the unwinding
                if self.current is task and not getattr(self, '_ctl_sent', False):
                    self._ctl_sent = True
                    self.ctl.release()
            else:
                try:
                    self._next(task, finished=True)
                except SimKill:
                    if not getattr(self, '_ctl_sent', False):
                        self._ctl_sent = True
                        self.ctl.release()

    def _handoff_from_controller(self):
        try:
            self._next(None, finished=True)
        except SimKill:
            if not getattr(self, '_ctl_sent', False):
                self._ctl_sent = True
                self.ctl.release()

    # -- yield points ------------------------------------------------------
    def yield_(self, rank, label=None, pred=None, dt=1e-6, why=''):
        """Yield point of worker ``rank``; returns when it is scheduled again
        (and ``pred()`` holds if given)."""
        if self.aborting:
            raise SimKill()
        task = self.tasks[rank]
        if task is not self.current:
            raise HarnessError('worker %d ran out of turn' % rank)
        if label is not None:
            self.events.append((self.step, rank, label))
        self.now += dt
        task.pred = pred
        task.why = why or label or ''
        self._next(task, finished=False)
        task.pred = None
        if self.aborting:
            raise SimKill()

    def finish(self, outcome, detail=None):
        """Ends the run now; the calling worker unwinds."""
        if self.outcome is None:
            self.outcome = outcome
            self.detail = detail
        self.aborting = True
        if self.on_abort:
            self.on_abort(outcome)
        raise SimKill()

    def _next(self, me, finished):
        tasks = self.tasks
        net = self.net
        while True:
            options = []
            current_first = False
            if me is not None and not finished and (
                    me.pred is None or me.pred()):
                options.append(('t', me.rank))
                current_first = True
            for t in tasks:
                if t is me or t.done:
                    continue
                if t.pred is None or t.pred():
                    options.append(('t', t.rank))
            if net is not None:
                for key in net.deliverable():
                    options.append(('n', key))
            if not options:
                if all(t.done for t in tasks):
                    if not getattr(self, '_ctl_sent', False):
                        self._ctl_sent = True
                        self.ctl.release()
                    return
                blocked = ['%d:%s' % (t.rank, t.why) for t in tasks
                           if not t.done]
                self.finish('deadlock', 'blocked ' + ', '.join(blocked))
            self.step += 1
            if self.step > self.max_steps:
                self.finish('steplimit', 'more than %d steps' % self.max_steps)
            if self.crash_step is not None and self.step >= self.crash_step:
                self.finish('crash', 'job killed at step %d' % self.step)
            i = self.decider.sched(options, current_first)
            opt = options[i]
            self.hash.update(b'%d' % i)
            if opt[0] == 'n':
                self.deliveries += 1
                self.now += 1e-6
                net.deliver(opt[1])
                continue
            target = tasks[opt[1]]
            if target is me:
                return
            self.switches += 1
            self.current = target
            if self.on_activate:
                self.on_activate(target.rank)
            target.lock.release()
            if not finished:
                me.lock.acquire()
                if self.aborting:
                    raise SimKill()
            return
