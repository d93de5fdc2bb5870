"""Controlled cooperative scheduler.

Each coroutine of the code under test is a Java thread, but only the one that
holds the baton runs; it gives it back at scheduling points (api.sleep, socket
and HTTP calls), and the explorer decides who runs next. Outside an execution
sleep() and spawn() do nothing visible (spawn runs nothing)."""

import threading
import sys
import traceback
from java.util.concurrent import Semaphore
from java.lang import Throwable, Thread, Runnable


class TaskKilled(BaseException):
    pass


class Horizon(Exception):
    """the execution exceeded its step bound"""


class ReplayDivergence(Exception):
    pass


class _Body(Runnable):
    def __init__(self, fn):
        self.fn = fn

    def run(self):
        self.fn()


class Task(object):
    def __init__(self, sched, tid, fn, args, kwds, name):
        self.sched = sched
        self.tid = tid
        self.fn = fn
        self.args = args
        self.kwds = kwds
        self.name = name
        self.sem = Semaphore(0)
        self.state = 'new'          # new, ready, running, done
        self.label = ('begin',)     # where it is parked
        self.blocked = None         # predicate: None = runnable
        self.error = None
        self.killed = 0
        self.thread = None

    def start_thread(self):
        self.thread = Thread(None, _Body(self._run), 'task%d' % self.tid, 4 * 1024 * 1024)
        self.thread.setDaemon(True)
        self.thread.start()

    def _run(self):
        global _local_task
        _tls.task = self
        self.sem.acquire()
        try:
            try:
                if not self.killed:
                    self.result = self.fn(*self.args, **self.kwds)
            except TaskKilled:
                pass
            except Throwable, e:
                self.error = ('%s' % e, traceback.format_exc())
            except:
                self.error = (repr(sys.exc_info()[1]), traceback.format_exc())
        finally:
            self.state = 'done'
            self.sched.baton.release()

    def runnable(self):
        if self.state == 'done':
            return False
        return self.blocked is None or self.blocked()


_tls = threading.local()
_current = [None]     # the active Scheduler


class Scheduler(object):
    """One execution. choose(kind, options, default_index) -> index, given by the explorer."""

    def __init__(self, chooser, max_steps=2000):
        self.chooser = chooser
        self.tasks = []
        self.baton = Semaphore(0)
        self.steps = 0
        self.max_steps = max_steps
        self.trace = []
        self.last = None
        self.on_step = None
        self.idle = None             # called when no task can run; true: look again
        self.horizon = False

    def spawn(self, fn, args=(), kwds=None, name=None):
        t = Task(self, len(self.tasks), fn, args, kwds or {}, name or getattr(fn, '__name__', 'task'))
        self.tasks.append(t)
        return t

    # called by a running task
    def point(self, label, blocked=None):
        t = getattr(_tls, 'task', None)
        if t is None or t.sched is not self:
            return
        if t.killed:
            t.killed += 1
            if t.killed > 200:
                Semaphore(0).acquire()      # swallows every kill: park the thread for good
            raise TaskKilled()
        t.label = label
        t.blocked = blocked
        t.state = 'ready'
        self.baton.release()
        t.sem.acquire()
        if t.killed:
            raise TaskKilled()

    def run(self, until=None):
        """until: stop as soon as this task is done and nothing else can run, or when all are done"""
        _current[0] = self
        try:
            while True:
                ready = [t for t in self.tasks if t.runnable()]
                if not ready:
                    if self.idle is not None and self.idle():
                        continue
                    break
                if self.steps >= self.max_steps:
                    self.horizon = True
                    break
                # canonical order: round robin after the task that ran last
                last = self.last
                if last is not None:
                    ready = [t for t in ready if t.tid > last] + [t for t in ready if t.tid <= last]
                i = 0
                if len(ready) > 1:
                    i = self.chooser('run', [t.tid for t in ready])
                t = ready[i]
                self.steps += 1
                self.trace.append((t.name, t.label))
                self.last = t.tid
                if t.state == 'new':
                    t.start_thread()
                t.state = 'running'
                t.blocked = None
                t.sem.release()
                self.baton.acquire()
                if self.on_step is not None:
                    self.on_step(self)
        finally:
            self.shutdown()
            _current[0] = None

    def shutdown(self):
        for t in self.tasks:
            n = 0
            while t.state != 'done':
                t.killed = max(1, t.killed)
                if t.state == 'new':
                    t.state = 'done'
                    break
                t.sem.release()
                if not _acquire(self.baton, 5):
                    break
                n += 1
                if n > 3:
                    break


def _acquire(sem, seconds):
    from java.util.concurrent import TimeUnit
    return sem.tryAcquire(seconds, TimeUnit.SECONDS)


def point(label, blocked=None):
    s = _current[0]
    if s is not None:
        s.point(label, blocked)


def spawn(fn, args=(), kwds=None):
    s = _current[0]
    if s is not None:
        return s.spawn(fn, args, kwds)
    return None


def kill(task):
    if task is not None:
        task.killed = max(1, task.killed)


def current():
    return getattr(_tls, 'task', None)


def choose(label, n):
    """an environment answer: 0 is the default one"""
    s = _current[0]
    if s is None:
        return 0
    return s.chooser(label, range(n))


# ---------------------------------------------------------------- explorer

class Chooser(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.choices = []
        self.points = []      # number of options

    def __call__(self, kind, options):
        i = len(self.choices)
        n = len(options)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise ReplayDivergence('choice %d of %d at point %d' % (c, n, i))
        else:
            c = 0
        self.choices.append(c)
        self.points.append((kind, n))
        return c


def trimmed(choices):
    """without the trailing default choices"""
    n = len(choices)
    while n and choices[n - 1] == 0:
        n -= 1
    return list(choices[:n])


def explore(execute, bound, limit=None, first=None, env_free=False):
    """Stateless depth-first search over all choice sequences with at most
    `bound` deviations (choices other than 0). execute(chooser) runs one
    execution; yields the Chooser of each. `first`=(i, n) restricts the search to the
    subtrees whose first deviation has index = i modulo n (the root run belongs to 0)."""
    stack = [([], 0)]
    count = 0
    root = True
    branch = 0
    while stack:
        prefix, dev = stack.pop()
        ch = Chooser(prefix)
        execute(ch)
        count += 1
        if not root or first is None or first[0] == 0:
            yield ch
        if limit is not None and count >= limit:
            return
        if dev < bound:
            new = []
            for i in range(len(prefix), len(ch.points)):
                for alt in range(1, ch.points[i][1]):
                    if root and first is not None:
                        branch += 1
                        if branch % first[1] != first[0]:
                            continue
                    new.append((ch.choices[:i] + [alt], dev + 1))
            new.reverse()
            stack.extend(new)
        root = False
