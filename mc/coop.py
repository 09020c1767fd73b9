"""A cooperative scheduler for real threads: locks (of code imported after `install`) and named points are where threads
can be switched; every schedule up to a number of preemptions is executed (stateless search)."""
import _thread
import sys
import threading

_tl = threading.local()
_real_lock = _thread.allocate_lock
_active = None


class Deadlock(BaseException):
    ...


class Lock:
    def __init__(self):
        self._lock = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = getattr(_tl, "coop", None)
        if s is None:
            return self._lock.acquire(blocking, timeout)
        s.point("lock")
        while not self._lock.acquire(False):
            if not blocking or (timeout is not None and 0 <= timeout):
                s.point("try lock")
                return False
            s.block(lambda: not self._lock.locked())
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def _at_fork_reinit(self):
        self._lock = _real_lock()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()


class RLock:
    def __init__(self):
        self._block = Lock()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._block.acquire(blocking, timeout):
            self._owner, self._count = me, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._count = None, 0

    # for conditions
    def _release_save(self):
        state, self._count, self._owner = (self._count, self._owner), 0, None
        self._block.release()
        return state

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _is_owned(self):
        return self._owner == _thread.get_ident()


def install():
    """the locks of code that is imported from now on are cooperative (when they are used by scheduled threads)"""
    threading.Lock = threading._allocate_lock = Lock
    threading.RLock = RLock


class _Task:
    def __init__(self, index):
        self.index, self.baton = index, _real_lock()
        self.baton.acquire()
        self.done = False
        self.waits = None
        self.result = None


class Coop:
    """one execution of the functions under a schedule: the choices made at the points where there is one"""

    def __init__(self, prefix=(), limit=5000):
        self.prefix, self.limit = list(prefix), limit
        self.trace = []  # (enabled tasks, chosen, the one that ran before (if it could go on) or None)
        self.tasks = []
        self.current = None
        self.deadlock = False
        self.end = _real_lock()
        self.end.acquire()

    def _enabled(self):
        return [t.index for t in self.tasks if not t.done and (t.waits is None or t.waits())]

    def _pick(self, before):
        enabled = self._enabled()
        if not enabled or self.deadlock:
            return None
        if len(enabled) == 1:
            return enabled[0]
        k = len(self.trace)
        if k < len(self.prefix) and self.prefix[k] in enabled:
            chosen = self.prefix[k]
        else:
            chosen = before if before in enabled else enabled[0]
        self.trace.append((tuple(enabled), chosen, before if before in enabled else None))
        if len(self.trace) > self.limit:
            self.deadlock = True
            return None
        return chosen

    def _switch(self, me, to):
        if to is None:  # nobody can go on
            if not all(t.done for t in self.tasks):
                self.deadlock = True
                for t in self.tasks:
                    if not t.done and t is not me:
                        try:
                            t.baton.release()
                        except RuntimeError:
                            pass
                if me is not None and not me.done:
                    raise Deadlock()
            return
        other = self.tasks[to]
        if other is me:
            return
        other.baton.release()
        if me is not None and not me.done:
            me.baton.acquire()
            if self.deadlock:
                raise Deadlock()

    def point(self, what):
        if self.deadlock:
            raise Deadlock()
        me = _tl.task
        self._switch(me, self._pick(me.index))

    def block(self, until):
        if self.deadlock:
            raise Deadlock()
        me = _tl.task
        me.waits = until
        try:
            self._switch(me, self._pick(None))
        finally:
            me.waits = None

    def _main(self, task, fn):
        task.baton.acquire()
        _tl.task, _tl.coop = task, self
        try:
            if self.deadlock:
                raise Deadlock()
            task.result = ("ok", fn())
        except Deadlock:
            task.result = ("err", "Deadlock", "waits forever")
        except BaseException as e:  # noqa
            task.result = ("err", type(e).__name__, str(e)[:300])
        finally:
            _tl.task = _tl.coop = None
            task.done = True
            if all(t.done for t in self.tasks):
                self.end.release()
            elif not self.deadlock:
                nxt = self._pick(None)
                if nxt is None:
                    self._switch(None, None)
                else:
                    self.tasks[nxt].baton.release()

    def run(self, fns):
        global _active
        self.tasks = [_Task(i) for i in range(len(fns))]
        for t, f in zip(self.tasks, fns):
            _thread.start_new_thread(self._main, (t, f))
        _active = self
        first = self._pick(None)
        self.tasks[first].baton.release()
        ok = self.end.acquire(True, 60)
        _active = None
        if not ok:
            raise RuntimeError("the scheduled threads did not end")
        return [t.result for t in self.tasks]


def point(what=""):
    s = getattr(_tl, "coop", None)
    if s is not None:
        s.point(what)


def schedules(execute, preemptions, first=None):
    """execute(prefix) -> Coop that ran; yields every execution with at most that many preemptions.
    first: (k, n): only the k-th of n parts of the space"""
    todo = [[]]
    number = 0
    while todo:
        prefix = todo.pop()
        c = execute(prefix)
        top = not prefix
        yield prefix, c
        used = 0
        for i, (enabled, chosen, before) in enumerate(c.trace):
            if i >= len(prefix):
                for e in enabled:
                    if e != chosen and used + (before is not None and e != before) <= preemptions:
                        number += 1
                        if top and first and number % first[1] != first[0]:
                            continue
                        todo.append([x[1] for x in c.trace[:i]] + [e])
            if before is not None and chosen != before:
                used += 1
