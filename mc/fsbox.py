"""A box around code that changes the file system: an audit hook refuses (and records) every change outside a scratch
directory, counts the operations inside it and can fail the n-th of them. One box per worker process."""
import errno
import os
import shutil
import stat
import sys
import tempfile
from contextlib import contextmanager, suppress
from pathlib import Path

_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
# event -> indexes of the path arguments that get changed
_EVENTS = {"os.mkdir": (0,), "os.rmdir": (0,), "os.remove": (0,), "os.rename": (0, 1), "os.link": (0, 1),
           "os.symlink": (1,), "os.chmod": (0,), "os.chown": (0,), "os.truncate": (0,), "os.utime": (0,),
           "os.setxattr": (0,), "os.removexattr": (0,), "os.mkfifo": (0,), "os.mknod": (0,)}
_FORBIDDEN = ("os.system", "os.kill", "os.killpg", "os.exec", "os.putenv-never")

_box = None
_installed = False


class Fault(OSError):
    """the injected failure"""


class Box:
    def __init__(self, base: str, drop_privileges=True):
        """base: a directory that the parent process made with `base_dir` and removes at the end"""
        self.root = Path(tempfile.mkdtemp(prefix="b", dir=base)).resolve()
        self.work = self.root / "w"
        self.tmp = self.root / "t"
        self.work.mkdir()
        self.tmp.mkdir()
        self.home = self.root / "h"
        self.home.mkdir()
        os.environ["TMPDIR"] = str(self.tmp)
        tempfile.tempdir = str(self.tmp)
        os.environ["HOME"] = str(self.home)
        if drop_privileges and os.geteuid() == 0:
            for p in (self.root, self.work, self.tmp, self.home):
                os.chown(p, 65534, 65534)
            try:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            except OSError:
                pass
        self.prefix = str(self.root) + os.sep
        self.armed = False  # guard and count?
        self.fault_at = None
        self.fault_error = errno.ENOSPC
        self.fault_reads = False
        self.crash_at = None  # the process ends (with 77) instead of the n-th operation
        self.crash_torn = False  # ... after a file that is opened for writing was made, or emptied
        self.cross_devices = False  # the work and the temporary directories are on different devices
        self.counted = ""  # only operations on files below this path are counted
        self.count = 0
        self.log = []
        self.keep_log = False
        self.escapes = []
        self.fired = None
        global _box, _installed
        _box = self
        if not _installed:
            _installed = True
            sys.addaudithook(_hook)

    # -- use
    def __enter__(self):
        self.count = 0
        self.log = []
        self.escapes = []
        self.fired = None
        self.armed = True
        return self

    def __exit__(self, *exc):
        self.armed = False
        self.fault_at = None

    def clear(self, path: Path = None):
        """empties the scratch directory (the hook is off)"""
        assert not self.armed
        path = path or self.work
        assert str(path).startswith(self.prefix)
        for c in os.listdir(path):
            p = os.path.join(path, c)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)

    def close(self):
        self.armed = False
        shutil.rmtree(self.root, ignore_errors=True)

    # -- hook
    def _inside(self, path, dir_fd=None):
        if isinstance(path, int):
            return True
        try:
            p = os.fspath(path)
        except TypeError:
            return True
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if dir_fd is not None and dir_fd != -1 and not os.path.isabs(p):
            try:
                p = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), p)
            except OSError:
                return False
        p = os.path.abspath(p)
        real = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        if os.path.exists(p):  # a write through a symlink ends where the link leads
            real2 = os.path.realpath(p)
        else:
            real2 = real
        return (real + os.sep).startswith(self.prefix) and (real2 + os.sep).startswith(self.prefix), p

    def on_event(self, event, args):
        if event == "open":
            path, mode, flags = args
            if path is None or isinstance(path, int):
                return
            writes = bool((flags or 0) & _WRITE) if isinstance(flags, int) else any(c in str(mode) for c in "wax+")
            if not writes:
                if self.fault_reads and isinstance(path, (str, os.PathLike)) and str(path).startswith(self.prefix):
                    self._step("read", path)
                return
            paths = [(path, None)]
            self.flags = flags if isinstance(flags, int) else 0
        elif event in _EVENTS:
            idx = _EVENTS[event]
            paths = [(args[i], None) for i in idx]
            # dir_fd arguments follow the paths
            if event in ("os.mkdir", "os.chmod"):
                paths = [(args[0], args[2])]
            elif event in ("os.rmdir", "os.remove"):
                paths = [(args[0], args[1])]
            elif event in ("os.rename", "os.link"):
                paths = [(args[0], args[2]), (args[1], args[3])]
        elif event in _FORBIDDEN:
            self.escapes.append((event, repr(args)[:200]))
            raise PermissionError(f"forbidden in the box: {event}")
        else:
            return
        for p, fd in paths:
            if isinstance(p, int) or p in ("/dev/null", os.devnull):
                continue
            inside = self._inside(p, fd)
            if inside is True:
                continue
            ok, full = inside
            if event == "os.symlink" or event in ("os.remove", "os.rename", "os.rmdir"):
                # these act on the name itself
                real = os.path.join(os.path.realpath(os.path.dirname(full)), os.path.basename(full))
                ok = (real + os.sep).startswith(self.prefix)
            if not ok:
                self.escapes.append((event, full))
                raise PermissionError(errno.EPERM, f"outside of the box: {event}", full)
        if self.cross_devices and event == "os.rename":
            parts = [os.path.abspath(p).startswith(str(self.tmp)) for p, _ in paths]
            if parts[0] != parts[1]:
                raise OSError(errno.EXDEV, "another device", str(paths[0][0]))
        self._step(event, paths[0][0], paths[-1][0])

    def _step(self, event, path, target=None):
        if self.counted and not any(str(p).startswith(self.counted) for p in (path, target)):
            return
        n = self.count
        self.count += 1
        if self.keep_log:
            self.log.append((event, str(path)))
        if n == self.crash_at:
            if self.crash_torn and event == "open":
                with suppress(OSError):
                    os.close(os.open(path, self.flags & ~os.O_EXCL))
            os._exit(77)
        if self.fault_at is not None and n == self.fault_at:
            self.fired = (event, str(path))
            raise Fault(self.fault_error, "injected failure", str(path))


@contextmanager
def base_dir():
    where = "/tmp"
    try:  # memory is much faster than a disk
        free = os.statvfs("/dev/shm")
        if os.access("/dev/shm", os.W_OK | os.X_OK) and free.f_bavail * free.f_frsize > (1 << 30):
            where = "/dev/shm"
    except OSError:
        pass
    path = tempfile.mkdtemp(prefix="pkmbox-", dir=where)
    os.chmod(path, 0o755)
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def worker_box(base: str, **kw) -> Box:
    """the box of this worker process"""
    global _box
    if _box is None or not str(_box.root).startswith(str(Path(base).resolve())):
        _box = Box(base, **kw)
    return _box


def _hook(event, args):
    box = _box
    if box is not None and box.armed and (event == "open" or event.startswith("os.")):
        box.armed = False  # the checks below must not audit themselves
        try:
            box.on_event(event, args)
        finally:
            box.armed = True


def snapshot(root: Path):
    """{relative path: ('d',) | ('f', executable, bytes) | ('l', target)}"""
    out = {}
    root = str(root)
    stack = [""]
    while stack:
        rel = stack.pop()
        with os.scandir(os.path.join(root, rel)) as it:
            for e in it:
                r = f"{rel}/{e.name}" if rel else e.name
                if e.is_symlink():
                    out[r] = ("l", os.readlink(e.path))
                elif e.is_dir():
                    out[r] = ("d",)
                    stack.append(r)
                else:
                    with open(e.path, "rb") as fd:
                        out[r] = ("f", bool(e.stat().st_mode & stat.S_IXUSR), fd.read())
    return out


def restore(root: Path, snap):
    """writes a snapshot into an empty directory"""
    root = str(root)
    for r in sorted(snap):
        v = snap[r]
        p = os.path.join(root, r)
        if v[0] == "d":
            os.mkdir(p)
        elif v[0] == "l":
            os.symlink(v[1], p)
        else:
            with open(p, "wb") as fd:
                fd.write(v[2])
            if v[1]:
                os.chmod(p, 0o755)


def diff(before, after, ignore=lambda p: False):
    out = []
    for p in sorted(set(before) | set(after)):
        if ignore(p):
            continue
        if p not in after:
            out.append(f"missing {p}")
        elif p not in before:
            out.append(f"extra {p}")
        elif before[p] != after[p]:
            out.append(f"changed {p}")
    return out
