"""Crash states of a directory.

`Trace` runs real code on a scratch directory and takes a picture of the
directory (names -> inodes, inodes -> contents) between any two file system
operations.  `Crash` describes all states that a crash may leave behind with
variables for the solver:

    k       the crash happens after k operations
    j       the names are those after j <= k operations (a machine that stops
            may lose the latest ones, but keeps their order), j >= the last
            sync
    ver.n   the content of inode n is that after ver operations (at least the
            last fsync of it or sync), or torn (-1) if it has unsynced writes

A killed process (machine=False) has j = k and ver = k, or torn content if the
file is written between operation k - 1 and k.
"""

import os
import stat
import sys

import z3

from .proxies import SymBool

TORN = "torn"

_active = []
_installed = []

WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _audit(event, args):
    if not _active or event != "open":
        return
    path, mode, flags = args
    if not isinstance(path, (str, bytes)):
        return
    if isinstance(flags, int) and not flags & WRITES:
        return
    for t in list(_active):
        t.opening(os.fsdecode(path))


class Trace:
    NAMES = [
        "rename", "replace", "unlink", "remove", "rmdir", "mkdir", "link",
        "symlink", "truncate", "chmod",
    ]

    def __init__(self, env, root):
        self.env = env
        self.root = str(root)
        self.snaps = []
        self.events = []
        self.busy = False
        self.order = {}
        self.fault = None  # fn(kind, path) -> exception | None

    # -- recording -----------------------------------------------------------
    def _picture(self):
        names, data = {}, {}
        stack = [""]
        while stack:
            d = stack.pop()
            with os.scandir(os.path.join(self.root, d)) as it:
                for e in sorted(it, key=lambda e: e.name):
                    rel = os.path.join(d, e.name)
                    st = e.stat(follow_symlinks=False)
                    if stat.S_ISDIR(st.st_mode):
                        names[rel] = "dir"
                        stack.append(rel)
                        continue
                    names[rel] = st.st_ino
                    if st.st_ino not in self.order:
                        self.order[st.st_ino] = len(self.order)
                    if stat.S_ISLNK(st.st_mode):
                        data[st.st_ino] = ("link", os.readlink(e.path))
                    elif st.st_ino not in data:
                        with open(e.path, "rb") as f:
                            data[st.st_ino] = f.read()
        return names, data

    def event(self, kind, ino=None):
        """The named operation is about to happen."""
        self.busy = True
        try:
            self.snaps.append(self._picture())
        finally:
            self.busy = False
        self.events.append((kind, ino))

    def opening(self, path):
        if self.busy:
            return
        if os.path.abspath(path).startswith(self.root + "/"):
            self.event("open")

    def __enter__(self):
        if not _installed:
            sys.addaudithook(_audit)
            _installed.append(1)
        self.undo = []
        self.root = os.path.realpath(self.root)

        def wrap(name):
            real = getattr(os, name)

            def f(*a, **kw):
                if name == "mkdir" and os.path.isdir(a[0]):
                    pass  # fails
                elif not self.busy:
                    self.event(name)
                    self._fail(name, a)
                return real(*a, **kw)

            self.undo.append((name, real))
            setattr(os, name, f)

        for n in self.NAMES:
            wrap(n)

        def syncing(name):
            real = getattr(os, name)

            def f(fd):
                n = fd if isinstance(fd, int) else fd.fileno()
                self.event("fsync", os.fstat(n).st_ino)
                self._fail(name, (fd,))

            self.undo.append((name, real))
            setattr(os, name, f)

        syncing("fsync")
        syncing("fdatasync")

        def sync():
            self.event("sync")

        self.undo.append(("sync", os.sync))
        os.sync = sync
        _active.append(self)
        return self

    def _fail(self, name, args):
        if self.fault:
            e = self.fault(name, args)
            if e:
                raise e

    def __exit__(self, *a):
        _active.remove(self)
        for name, real in self.undo:
            setattr(os, name, real)
        if len(self.snaps) == len(self.events):
            self.snaps.append(self._picture())
        return False

    # -- reading -------------------------------------------------------------
    @property
    def n(self):
        return len(self.events)

    def paths(self, suffix=""):
        return sorted(
            {
                p for names, _ in self.snaps for p, i in names.items()
                if i != "dir" and p.endswith(suffix)
            }
        )

    def content(self, k, ino):
        return self.snaps[k][1].get(ino)

    def at(self, i, ino):
        """Content of an inode after i operations; empty before its creation;
        the last one known after it was deleted."""
        c = self.snaps[i][1].get(ino)
        if c is not None:
            return c
        last = None
        for x in range(i, -1, -1):
            last = self.snaps[x][1].get(ino)
            if last is not None:
                return last
        return b""

    def lastsync(self, k, ino):
        """The content of ino after this many operations is durable at k."""
        for i in range(k - 1, -1, -1):
            kind, what = self.events[i]
            if kind == "sync" or (kind == "fsync" and what == ino):
                return i
        return 0

    def namesync(self, k):
        for i in range(k - 1, -1, -1):
            if self.events[i][0] == "sync":
                return i
        return 0


class Crash:
    def __init__(self, ctx, trace, machine, name="crash"):
        self.ctx = ctx
        self.t = t = trace
        self.machine = machine
        self.name = name
        n = t.n
        self.k = ctx.int(f"{name}.k", 0, n)
        self.inodes = sorted(t.order, key=t.order.get)
        if ctx.symbolic:
            self._symbolic()
        else:
            self._concrete()

    def _allowed(self, k, ino):
        """(first durable version, torn possible)"""
        t = self.t
        now = t.at(k, ino)
        if not self.machine:
            # the writes after operation k - 1 are not finished
            return k, k > 0 and t.at(k - 1, ino) != now
        mid = k < t.n and t.at(k + 1, ino) != now
        lo = t.lastsync(k, ino)
        changed = any(
            t.at(i, ino) != t.at(lo, ino) for i in range(lo, k + 1)
        )
        return lo, mid or changed

    def _symbolic(self):
        ctx, t = self.ctx, self.t
        k = self.k.e
        self.ver = {}
        if self.machine:
            self.j = ctx.int(f"{self.name}.j", 0, t.n)
            j = self.j.e
            for c in range(t.n + 1):
                ctx.add(
                    z3.Implies(k == c, z3.And(j >= t.namesync(c), j <= c))
                )
        else:
            self.j = self.k
        for ino in self.inodes:
            versions = {t.at(i, ino) for i in range(t.n + 1)}
            if len(versions) < 2:
                continue
            v = ctx.int(f"{self.name}.ver{t.order[ino]}", -1, t.n).e
            self.ver[ino] = v
            # runs of crash points with the same bounds
            for c in range(t.n + 1):
                lo, torn = self._allowed(c, ino)
                r = z3.And(v >= lo, v <= c)
                if torn:
                    r = z3.Or(r, v == -1)
                ctx.add(z3.Implies(k == c, r))

    def _concrete(self):
        ctx, t = self.ctx, self.t
        self.kc = min(self.k, t.n)
        self.jc = (
            min(max(ctx.int(f"{self.name}.j", 0, t.n), t.namesync(self.kc)),
                self.kc)
            if self.machine else self.kc
        )
        self.content = {}
        for ino in self.inodes:
            versions = {t.at(i, ino) for i in range(t.n + 1)}
            if len(versions) < 2:
                self.content[ino] = t.at(t.n, ino)
                continue
            lo, torn = self._allowed(self.kc, ino)
            v = ctx.int(f"{self.name}.ver{t.order[ino]}", -1, t.n)
            if v == -1 and torn:
                self.content[ino] = TORN
            else:
                self.content[ino] = t.at(min(max(v, lo), self.kc), ino)

    def cond(self, path, accept):
        """Does accept(content) hold for the file's content (None: no such
        file, TORN)?"""
        t = self.t
        if not self.ctx.symbolic:
            ino = t.snaps[self.jc][0].get(path)
            c = None if ino is None else self.content.get(ino)
            return bool(accept(c))
        cache = {}

        def acc(c):
            if c not in cache:
                cache[c] = bool(accept(c))
            return cache[c]

        per = {}
        for i, (names, _) in enumerate(t.snaps):
            per.setdefault(names.get(path), []).append(i)
        res = []
        for ino, where in per.items():
            if ino is None:
                e = z3.BoolVal(acc(None))
            elif ino not in self.ver:
                e = z3.BoolVal(acc(t.at(t.n, ino)))
            else:
                v = self.ver[ino]
                good = [i for i in range(t.n + 1) if acc(t.at(i, ino))]
                e = z3.Or(
                    _among(v, good), z3.And(v == -1, z3.BoolVal(acc(TORN)))
                )
            res.append(z3.Implies(_among(self.j.e, where), e))
        return SymBool(self.ctx, z3.And(*res))

    def materialize(self, target):
        """Build the crash state (concrete mode)."""
        os.makedirs(target, exist_ok=True)
        names = self.t.snaps[self.jc][0]
        done = {}
        for p in sorted(names):
            q = os.path.join(target, p)
            if names[p] == "dir":
                os.makedirs(q, exist_ok=True)
                continue
            ino = names[p]
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if ino in done:
                os.link(done[ino], q)
                continue
            c = self.content[ino]
            if isinstance(c, tuple):
                os.symlink(c[1], q)
                continue
            if c == TORN:
                c = max(
                    (self.t.at(i, ino) for i in range(self.t.n + 1)), key=len
                )
                c = c[: len(c) // 2]
            with open(q, "wb") as f:
                f.write(c)
            done[ino] = q


def _among(v, values):
    """v is one of the values, as ranges"""
    r = []
    values = sorted(values)
    i = 0
    while i < len(values):
        a = i
        while i + 1 < len(values) and values[i + 1] == values[i] + 1:
            i += 1
        if values[a] == values[i]:
            r.append(v == values[a])
        else:
            r.append(z3.And(v >= values[a], v <= values[i]))
        i += 1
    return z3.Or(*r) if r else z3.BoolVal(False)
