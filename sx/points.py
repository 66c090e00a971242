"""Observation points of an operation on a directory.

While a `Points` is active, every step of the code that matters to others is
an event: changes of files below the roots (about to happen), reads of files
that `reads` accepts, lock and unlock of flocks, and whatever the stand-ins
announce by `tell`.  At every event `hook(i)` is called; it may run other code
(the events of which are not recorded) or raise an exception in place of the
step.

For each event the state of the lock files is probed from outside, so locks
are seen as another process sees them.
"""

import fcntl
import os
import sys

from .fstrace import WRITES

_active = []
_installed = []


class WouldBlock(BaseException):
    """Waits for a lock that is not going to be released."""


def _audit(event, args):
    if not _active or event != "open":
        return
    path, mode, flags = args
    if not isinstance(path, (str, bytes)):
        return
    path = os.fsdecode(path)
    for p in list(_active):
        if p.busy or not path.startswith(p.root + "/"):
            continue
        rel = path[len(p.root) + 1:]
        if rel in p.locks:
            continue
        if not isinstance(flags, int) or flags & WRITES:
            p.event("write", rel)
        elif p.reads and p.reads(rel):
            p.event("read", rel)


class Points:
    NAMES = [
        "rename", "replace", "unlink", "remove", "rmdir", "mkdir", "link",
        "symlink", "truncate", "chmod",
    ]

    def __init__(self, env, root, locks=(".backup", ".purge"), reads=None,
                 hook=None):
        self.env = env
        self.root = os.path.realpath(root)
        self.locks = locks
        self.reads = reads
        self.hook = hook
        self.events = []  # (kind, detail...)
        self.held = []  # per event: lock -> "", "sh", "ex"
        self.busy = False
        self.refused = False

    @property
    def n(self):
        return len(self.events)

    def probe(self):
        """State of the locks as others see it."""
        return {x: lock_state(os.path.join(self.root, x)) for x in self.locks}

    def event(self, *what):
        if self.busy or self not in _active:
            return
        self.busy = True
        try:
            i = len(self.events)
            self.events.append(what)
            self.held.append(self.probe())
            if self.hook:
                self.hook(i)
        finally:
            self.busy = False

    def tell(self, *what):
        if self in _active:
            self.event(*what)

    def __enter__(self):
        if not _installed:
            sys.addaudithook(_audit)
            _installed.append(1)
        self.undo = []

        def wrap(name):
            real = getattr(os, name)

            def f(*a, **kw):
                p = os.path.realpath(os.path.dirname(os.fspath(a[0])))
                if (p + "/").startswith(self.root + "/") and not (
                    name == "mkdir" and os.path.isdir(a[0])
                ):
                    rel = os.path.join(p, os.path.basename(os.fspath(a[0])))
                    self.event("write", rel[len(self.root) + 1:])
                return real(*a, **kw)

            self.undo.append((os, name, real))
            setattr(os, name, f)

        for n in self.NAMES:
            wrap(n)
        flock = fcntl.flock

        def lock(fd, op):
            if self.busy:
                return flock_nowait(flock, fd, op)
            n = fd if isinstance(fd, int) else fd.fileno()
            target = os.path.basename(os.readlink(f"/proc/self/fd/{n}"))
            if op & fcntl.LOCK_UN:
                self.event("unlock", target)
                return flock(fd, op)
            mode = "ex" if op & fcntl.LOCK_EX else "sh"
            wait = not op & fcntl.LOCK_NB
            self.event("trylock", target, mode, wait)
            try:
                flock_nowait(flock, fd, op)
            except (BlockingIOError, WouldBlock):
                self.refused = True
                raise
            self.event("locked", target, mode, wait)

        self.undo.append((fcntl, "flock", flock))
        fcntl.flock = lock
        self.env.p.replace(flock, lock)
        _active.append(self)
        return self

    def __exit__(self, *a):
        _active.remove(self)
        for obj, name, real in self.undo:
            setattr(obj, name, real)
        return False


def flock_nowait(flock, fd, op):
    try:
        return flock(fd, op | fcntl.LOCK_NB)
    except BlockingIOError:
        if op & fcntl.LOCK_NB:
            raise
        raise WouldBlock()


def lock_state(path):
    """"" | "sh" | "ex" """
    try:
        fd = os.open(path, os.O_RDONLY)
    except FileNotFoundError:
        return ""
    try:
        flock = _real_flock
        try:
            flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
            return ""
        except BlockingIOError:
            pass
        try:
            flock(fd, fcntl.LOCK_SH | fcntl.LOCK_NB)
            return "sh"
        except BlockingIOError:
            return "ex"
    finally:
        os.close(fd)


_real_flock = fcntl.flock
