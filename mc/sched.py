"""A controlled scheduler for real threads: one thread runs at a time, and it gives up the processor only at the file
system operations (reported by an audit hook and by a wrapper of os.stat/os.lstat) that a schedule names."""
import os
import sys
import threading
import time
from concurrent.futures import Future, ThreadPoolExecutor

from mc import fsbox

_tl = threading.local()
_current = None
_installed = False
_READS = {"os.listdir": 0, "os.scandir": 0}
STALL = 0.3


class Abort(BaseException):
    pass


class Stop(OSError):
    """the injected failure"""


def _install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.addaudithook(_hook)
    for name in ("stat", "lstat"):
        real = getattr(os, name)

        def wrapper(path, *a, _real=real, **kw):
            s = _current
            if s is not None and getattr(_tl, "task", None) is not None and not getattr(_tl, "busy", False) \
                    and isinstance(path, (str, os.PathLike)):
                p = os.fspath(path)
                if isinstance(p, str) and p.startswith(s.box.prefix) and kw.get("dir_fd") is None:
                    s.event("stat", (p,))
            return _real(path, *a, **kw)

        for known in (os.supports_dir_fd, os.supports_follow_symlinks, os.supports_fd):
            if real in known:
                known.add(wrapper)
        setattr(os, name, wrapper)


def _hook(event, args):
    s = _current
    if s is None or not (event == "open" or event.startswith("os.")) or getattr(_tl, "busy", False):
        return
    if getattr(_tl, "task", None) is None:
        if s.guard_others:
            _tl.busy = True
            try:
                s.box.on_event(event, args)
            finally:
                _tl.busy = False
        return
    s.event(event, args)


class Task:
    def __init__(self, index, label):
        self.index, self.label = index, label
        self.done = False
        self.stalled = False
        self.n = 0  # interesting points passed
        self.ops = []  # (kind, path) of everything
        self.points = []


def tokens(kind, path):
    """-> (reads, writes) of an operation; creations in the same directory commute"""
    parent = os.path.dirname(path)
    if kind in ("os.mkdir", "create", "os.symlink"):
        return {("e", parent)}, {("e", path), ("w", parent)}
    if kind in ("os.remove",):
        return {("e", parent)}, {("e", path), ("w", parent)}
    if kind == "os.rmdir":
        return {("l", path), ("e", parent)}, {("e", path), ("w", parent)}
    if kind in ("os.listdir", "os.scandir"):
        return {("l", path), ("e", path)}, set()
    if kind in ("stat", "read"):
        return {("e", path), ("e", parent)}, set()
    return {("e", parent)}, {("e", path)}  # chmod, utime, ...


def conflicting(ops_a, ops_b):
    """the indexes of ops_a that do not commute with some operation of ops_b"""
    reads, writes, lists, changed = set(), set(), set(), set()
    for kind, path in ops_b:
        r, w = tokens(kind, path)
        for t, p in r:
            (lists if t == "l" else reads).add(p)
        for t, p in w:
            (changed if t == "w" else writes).add(p)
    out = set()
    for i, (kind, path) in enumerate(ops_a):
        r, w = tokens(kind, path)
        for t, p in r:
            if (p in changed) if t == "l" else (p in writes):
                out.add(i)
        for t, p in w:
            if (p in lists) if t == "w" else (p in writes or p in reads):
                out.add(i)
    return out


def label_of(fn, args, kwargs):
    """the name of the package that a submitted call is about"""
    todo = [*args, *kwargs.values(), getattr(fn, "__self__", None), *getattr(fn, "args", ()),
            *(getattr(fn, "keywords", None) or {}).values()]
    for c in getattr(fn, "__closure__", None) or ():
        try:
            todo.append(c.cell_contents)
        except ValueError:
            pass
    for o in todo:
        for o in (o, getattr(o, "_package", None), getattr(o, "package", None)):
            if isinstance(getattr(o, "name_key", None), str):
                return o.name_key
    return None


class Scheduler(ThreadPoolExecutor):
    """schedule: [(task, point, next task), ...]: when `task` is about to execute its `point`-th interesting operation,
    `next task` runs instead. interesting: the set of (kind, path), None means all."""

    def __init__(self, box: fsbox.Box, expected: int, first=0, schedule=(), interesting=None, fault=None):
        super().__init__(1)
        _install()
        self.box, self.expected, self.schedule = box, expected, list(schedule)
        self.interesting, self.fault = interesting, fault
        self.first = first
        self.cond = threading.Condition()
        self.tasks = []
        self.turn = None
        self.progress = 0
        self.aborted = False
        self.guard_others = True
        self.used = 0
        self.trace = []  # (task, point index, kind, path, unfinished others) in execution order
        self.fired = None
        self.threads = []
        self.stalls = 0
        self.submitting = False
        self.owner = threading.get_ident()

    # -- the executor
    def submit(self, fn, *args, **kwargs):
        fut = Future()
        task = Task(len(self.tasks), label_of(fn, args, kwargs))
        self.submitting = True
        with self.cond:
            self.tasks.append(task)
        t = threading.Thread(target=self._main, args=(task, fut, fn, args, kwargs), daemon=True)
        self.threads.append(t)
        t.start()
        self.submitting = False
        return fut

    def _everybody_is_there(self):
        """does the thread that submits the tasks wait for one of them?"""
        if len(self.tasks) >= self.expected:
            return True
        if self.submitting:
            return False
        frame = sys._current_frames().get(self.owner)  # noqa
        return frame is not None and frame.f_code.co_filename == threading.__file__ and not self.submitting

    def _main(self, task, fut, fn, args, kwargs):
        if not fut.set_running_or_notify_cancel():
            return
        result = error = None
        try:
            with self.cond:
                while self.turn is None and not self.aborted:
                    if self._everybody_is_there():
                        rest = [t.index for t in self.tasks if not t.done]
                        self.turn = self.first if self.first in rest else rest[0]
                        self.progress += 1
                        self.cond.notify_all()
                    else:
                        self.cond.wait(0.001)
            self._wait(task)
            _tl.task = task
            result = fn(*args, **kwargs)
        except BaseException as e:  # noqa
            error = e
        finally:
            _tl.task = None
            with self.cond:
                task.done = True
                if self.turn == task.index or self.turn is None:
                    self._next()
                self.progress += 1
                self.cond.notify_all()
        if error is not None:
            fut.set_exception(error)
        else:
            fut.set_result(result)

    def _next(self):
        rest = [t.index for t in self.tasks if not t.done]
        self.turn = rest[0] if rest else None

    def _wait(self, task):
        with self.cond:
            while self.turn != task.index and not self.aborted:
                before = self.progress
                if not self.cond.wait(STALL) and self.progress == before and not self.aborted:
                    holder = self.tasks[self.turn] if self.turn is not None else None
                    if holder is None or holder.done or not getattr(holder, "waiting", False):
                        # whoever has the turn waits for something that another thread has to do
                        self.stalls += 1
                        rest = [t.index for t in self.tasks if not t.done and t is not holder]
                        if rest:
                            self.turn = rest[(rest.index(task.index) + 0) % len(rest)] if task.index in rest else rest[0]
                            self.progress += 1
                            self.cond.notify_all()
            if self.aborted:
                raise Abort()

    # -- events of the controlled threads
    def event(self, event, args):
        _tl.busy = True
        try:
            described = self._describe(event, args)
            if not described:
                return
            task = _tl.task
            with self.cond:
                self.progress += 1
                if self.aborted:
                    raise Abort()
            self._wait(task)
            if event != "stat" and described[0][0] not in ("read", "os.listdir", "os.scandir"):
                self.box.on_event(event, args)  # nothing outside of the box
            task.ops += described
            if self.fault and self.fired is None and task.label == self.fault[0] and any(
                    k == self.fault[1] and self.fault[2] in p for k, p in described):
                self.fired = described[0]
                raise Stop(28, "injected failure", described[0][1])
            if self.interesting is not None and not any(d in self.interesting for d in described):
                return
            k = task.n
            task.n += 1
            others = [t.index for t in self.tasks if not t.done and t is not task]
            self.trace.append((task.index, k, described[0], tuple(others), self.used))
            if self.used < len(self.schedule):
                t, p, nxt = self.schedule[self.used]
                if t == task.index and p == k:
                    self.used += 1
                    if nxt in others:
                        with self.cond:
                            self.turn = nxt
                            self.progress += 1
                            task.waiting = True
                            self.cond.notify_all()
                        self._wait(task)
                        task.waiting = False
        finally:
            _tl.busy = False

    def _describe(self, event, args):
        """-> [(kind, path), ...]"""
        if event == "stat":
            return [("stat", os.path.abspath(args[0]))]
        found = []
        if event == "open":
            path, mode, flags = args
            if path is None or isinstance(path, int):
                return []
            write = bool((flags or 0) & fsbox._WRITE) if isinstance(flags, int) else any(c in str(mode) for c in "wax+")
            found = [("create" if write else "read", path, None)]
        elif event in _READS:
            path = args[0]
            if isinstance(path, int):
                try:
                    path = os.readlink(f"/proc/self/fd/{path}")
                except OSError:
                    return []
            found = [(event, path, None)]
        elif event == "os.rename":
            found = [("os.remove", args[0], args[2]), ("create", args[1], args[3])]
        elif event in fsbox._EVENTS:
            fd = {"os.mkdir": 2, "os.chmod": 2, "os.rmdir": 1, "os.remove": 1, "os.link": 2}.get(event)
            found = [(event, args[fsbox._EVENTS[event][0]], args[fd] if fd is not None and fd < len(args) else None)]
        elif event in fsbox._FORBIDDEN:
            self.box.on_event(event, args)
        out = []
        for kind, path, fd in found:
            try:
                path = os.fspath("." if path is None else path)
            except TypeError:
                continue
            if isinstance(path, bytes):
                path = os.fsdecode(path)
            if fd is not None and fd != -1 and not os.path.isabs(path):
                try:
                    path = os.path.join(os.readlink(f"/proc/self/fd/{fd}"), path)
                except OSError:
                    pass
            path = os.path.abspath(path)
            if not path.startswith(self.box.prefix) and kind in ("read", "os.listdir", "os.scandir"):
                continue
            out.append((kind, path))
        return out

    # -- use
    def __enter__(self):
        global _current
        self.box.count, self.box.log, self.box.escapes, self.box.fired = 0, [], [], None
        _current = self
        return self

    def __exit__(self, *exc):
        global _current
        with self.cond:
            self.aborted = self.aborted or any(not t.done for t in self.tasks)
            self.cond.notify_all()
        deadline = time.time() + 5
        for t in self.threads:
            t.join(max(0.0, deadline - time.time()))
        _current = None
        super().shutdown(wait=False)
