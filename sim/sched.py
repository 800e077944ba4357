"""
Deterministic scheduler: client threads are real threads, of which exactly one is released at a time.
"""
import _thread
import os

from .loader import STATE, StepLimit


class Abort(BaseException):
    """Raised in the remaining threads of a run that is being torn down."""


class Deadlock(Exception):
    pass


def raised_by(ex, root):
    """The function below `root` that an exception came out of, unless it was the simulator's."""
    tb, where = ex.__traceback__, None
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    while tb is not None:
        path = tb.tb_frame.f_code.co_filename
        if path.startswith(root):
            where = tb.tb_frame.f_code.co_name
        elif path.startswith(here):
            where = None
        tb = tb.tb_next
    return where


class PlanError(Exception):
    """The plan cannot be run (e.g. after a shrinking step)."""


CURRENT = [None]   # scheduler of the run under way


class _Task(object):

    __slots__ = ('tid', 'fn', 'gate', 'done', 'blocked', 'ident', 'error', 'result')

    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.blocked = None
        self.ident = None
        self.error = None
        self.result = None


class Scheduler(object):
    """
    `spec` decides:

    - {'explicit': [[step, tid], ...]}: the recorded decisions of an earlier run
    - {'mode': 'random', 'p': 1/k}: switch with probability p at each yield point
    - {'mode': 'few', 'n': n, 'span': s}: n switches at uniformly drawn steps of the first s steps
    - {'mode': 'none'}: run each thread to completion
    """

    def __init__(self, spec, rng, max_steps=2000000):
        self.spec = spec
        self.rng = rng
        self.tasks = []
        self.steps = 0
        self.granted = 0
        self.max_steps = max_steps
        self.trace = []
        self.explicit = None
        if 'explicit' in spec:
            self.explicit = [tuple(e) for e in spec['explicit']]
        elif spec['mode'] == 'few':
            self.points = sorted(rng.randrange(1, max(2, spec['span'])) for _ in range(spec['n']))
        self.main_gate = _thread.allocate_lock()
        self.main_gate.acquire()
        self.running = None
        self.aborting = False
        self.limit_hit = False
        self.deadlock = False
        self.switches = 0
        self.interrupts = []       # steps at which `on_interrupt` is called
        self.on_interrupt = None

    # clients

    def spawn(self, fn):
        task = _Task(len(self.tasks), fn)
        self.tasks.append(task)
        return task

    def run(self):
        if CURRENT[0] is not None:
            raise RuntimeError('nested scheduler')
        CURRENT[0] = self
        saved = STATE.hook, STATE.budget
        try:
            for task in self.tasks:
                _thread.start_new_thread(self._main, (task,))
            STATE.hook = self._hook
            first = self._choose(None)
            self.running = first
            self._grant()
            first.gate.release()
            self.main_gate.acquire()
        finally:
            STATE.hook, STATE.budget = saved
            CURRENT[0] = None
        return self

    def _main(self, task):
        task.gate.acquire()
        task.ident = _thread.get_ident()
        try:
            if not self.aborting:
                task.result = task.fn()
        except Abort:
            pass
        except StepLimit:
            self.limit_hit = True
            self.aborting = True
        except BaseException as ex:
            task.error = ex
            self.aborting = True
        task.done = True
        self._account()
        nxt = self._choose(None)
        if nxt is None:
            if any(not t.done for t in self.tasks):
                self.deadlock = self.deadlock or not self.aborting
                self.aborting = True
                nxt = [t for t in self.tasks if not t.done][0]
                nxt.blocked = None
            else:
                self.main_gate.release()
                return
        self.running = nxt
        self._grant()
        nxt.gate.release()

    # steps

    def _account(self):
        """Moves used up budget into `steps`."""
        self.steps += self.granted - max(STATE.budget, -1)
        self.granted = 0
        STATE.budget = 0

    def _grant(self):
        """Sets the number of steps until the next decision."""
        if self.aborting:
            n = 0
        elif self.explicit is not None:
            n = self.max_steps
            while self.explicit and self.explicit[0][0] < self.steps:
                self.explicit.pop(0)
            for step, _ in self.explicit:
                if step > self.steps:
                    n = step - self.steps - 1
                    break
        elif self.spec['mode'] == 'none':
            n = self.max_steps
        elif self.spec['mode'] == 'few':
            while self.points and self.points[0] <= self.steps:
                self.points.pop(0)
            n = self.points[0] - self.steps - 1 if self.points else self.max_steps
        else:
            p = self.spec['p']
            n = 1
            while self.rng.random() > p and n < 5000:
                n += 1
        if self.interrupts:
            n = min(n, self.interrupts[0] - self.steps - 1)
        n = max(0, min(n, self.max_steps - self.steps))
        self.granted = n
        STATE.budget = n

    def _runnable(self):
        return [t for t in self.tasks if not t.done and (t.blocked is None or t.blocked())]

    def _choose(self, me, forced=False):
        """Next thread. Not a decision if only one can run."""
        ready = self._runnable()
        if not ready:
            return None
        if len(ready) == 1:
            return ready[0]
        if self.aborting:
            return ready[0]
        if self.explicit is not None:
            while self.explicit and self.explicit[0][0] < self.steps:
                self.explicit.pop(0)
            if self.explicit and self.explicit[0][0] == self.steps:
                tid = self.explicit.pop(0)[1]
                for t in ready:
                    if t.tid == tid:
                        self.trace.append((self.steps, tid))
                        return t
            return me if me in ready else ready[0]
        if me in ready and self.spec['mode'] != 'none':
            others = [t for t in ready if t is not me]
            t = others[self.rng.randrange(len(others))]
        elif self.spec['mode'] == 'none':
            t = ready[0]
        else:
            t = ready[self.rng.randrange(len(ready))]
        self.trace.append((self.steps, t.tid))
        return t

    def _hook(self):
        me = self.running
        if _thread.get_ident() != me.ident:
            # a thread this scheduler does not own (never happens in the library)
            STATE.budget = 0
            return
        self._account()
        if self.aborting:
            raise Abort()
        if self.steps >= self.max_steps:
            self.limit_hit = True
            self.aborting = True
            raise StepLimit()
        if self.interrupts and self.interrupts[0] <= self.steps:
            while self.interrupts and self.interrupts[0] <= self.steps:
                self.interrupts.pop(0)
            self.on_interrupt()
        self._switch(self._choose(me))

    def _switch(self, nxt):
        me = self.running
        if nxt is not me:
            self.switches += 1
            self.running = nxt
            self._grant()
            nxt.gate.release()
            me.gate.acquire()
            if self.aborting:
                raise Abort()
        else:
            self._grant()

    # blocking

    def block(self, ready):
        """Called by a simulated primitive: parks the running thread until `ready()`."""
        me = self.running
        self._account()
        me.blocked = ready
        nxt = self._choose(me)
        if nxt is None:
            self.deadlock = True
            self.aborting = True
            me.blocked = None
            raise Abort()
        if nxt is me:
            me.blocked = None
            self._grant()
            return
        self._switch(nxt)
        me.blocked = None

    def owns(self):
        return self.running is not None and self.running.ident == _thread.get_ident()


def yield_now():
    """An extra yield point for user code (hooks, containers)."""
    STATE.budget -= 1
    if STATE.budget < 0:
        hook = STATE.hook
        if hook is None:
            raise StepLimit()
        hook()


def _sched():
    s = CURRENT[0]
    return s if s is not None and s.owns() else None


class SimLock(object):

    def __init__(self):
        self.owner = None
        self.count = 0

    _reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._reentrant and self.owner == me:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            s = _sched()
            if s is None:
                raise Deadlock('lock held outside of a simulated thread')
            while self.owner is not None:
                s.block(lambda: self.owner is None)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()


class SimRLock(SimLock):

    _reentrant = True


class SimEvent(object):

    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        s = _sched()
        if not self.flag and timeout is None:
            if s is None:
                raise Deadlock('event')
            s.block(lambda: self.flag)
        return self.flag


class SimCondition(object):

    def __init__(self, lock=None):
        self.lock = lock or SimRLock()
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *args):
        return self.lock.__exit__(*args)

    def wait(self, timeout=None):
        token = [False]
        self.waiters.append(token)
        count, self.lock.count, self.lock.owner = self.lock.count, 0, None
        s = _sched()
        if s is None:
            raise Deadlock('condition')
        if timeout is None:
            s.block(lambda: token[0])
        self.lock.acquire()
        self.lock.count = count
        return token[0]

    def notify(self, n=1):
        for token in self.waiters[:n]:
            token[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class SimSemaphore(object):

    def __init__(self, value=1):
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        if self.value <= 0:
            if not blocking:
                return False
            s = _sched()
            if s is None:
                raise Deadlock('semaphore')
            while self.value <= 0:
                s.block(lambda: self.value > 0)
        self.value -= 1
        return True

    def release(self, n=1):
        self.value += n

    def __enter__(self):
        self.acquire()

    def __exit__(self, *args):
        self.release()
