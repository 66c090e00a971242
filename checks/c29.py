"""C29: the daemon's periodic purges."""

import functools
import os
import shutil

from sx.scenario import Scenario

from .c28 import Boom, Commands
from .daemonutil import *

ASSUMPTIONS = [
    "modification times and the clock are any real numbers of this century; "
    "the limit of 93 days is exact up to one millisecond",
    "removing a directory tree is a stand-in that records its target",
]

REAL_STAT, REAL_SCAN, REAL_RMTREE = os.stat, os.scandir, shutil.rmtree
REAL_LSTAT = os.lstat


class Stat:
    def __init__(self, st, mtime):
        self._st = st
        self._m = mtime

    @property
    def st_mtime(self):
        return self._m

    def __getattr__(self, n):
        if n in ("st_mtime_ns", "st_atime", "st_ctime"):
            raise AssertionError(n)
        return getattr(self._st, n)

    def __getitem__(self, i):
        assert i < 7
        return self._st[i]


class Entry:
    def __init__(self, fs, e):
        self._fs, self._e = fs, e
        self.name, self.path = e.name, e.path

    def stat(self, *, follow_symlinks=True):
        return self._fs.stat(self.path, follow_symlinks=follow_symlinks)

    def is_dir(self, **kw):
        return self._e.is_dir(**kw)

    def is_file(self, **kw):
        return self._e.is_file(**kw)

    def is_symlink(self):
        return self._e.is_symlink()

    def __fspath__(self):
        return self.path


class Scan(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class Times:
    """Modification times per inode; everything else is the real thing."""

    def __init__(self, env):
        self.env = env
        self.m = {}
        self.removed = []
        self.hook = None
        self.deny_scan = self.deny_rmtree = lambda path: None
        p = env.p
        p.setattr(os, "stat", self.stat)
        p.setattr(os, "lstat", self.lstat)
        p.setattr(os, "scandir", self.scandir)
        p.setattr(shutil, "rmtree", self.rmtree)

    def stat(self, path, **kw):
        st = REAL_STAT(path, **kw)
        if kw.get("dir_fd") is not None or isinstance(path, int):
            return st
        m = self.m.get((st.st_dev, st.st_ino))
        if m is None:
            return st
        if self.hook:
            self.hook(path)
        return Stat(st, m)

    def lstat(self, path, **kw):
        return self.stat(path, follow_symlinks=False, **kw)

    def scandir(self, path="."):
        if isinstance(path, int):
            return REAL_SCAN(path)
        self.deny_scan(path)
        return Scan(
            Entry(self, e)
            for e in sorted(REAL_SCAN(path), key=lambda e: e.name)
        )

    def rmtree(self, path, *a, **kw):
        self.deny_rmtree(os.fspath(path))
        self.removed.append(os.fspath(path))

    def execute(self, fn):
        """what a thread of the executor would do"""
        if isinstance(fn, functools.partial):
            new = {
                REAL_STAT: self.stat, REAL_LSTAT: self.lstat,
                REAL_SCAN: self.scandir, REAL_RMTREE: self.rmtree,
            }.get(fn.func, fn.func)
            return new(*fn.args, **fn.keywords)
        return fn()

    def set(self, path, m):
        st = REAL_STAT(path, follow_symlinks=False)
        self.m[st.st_dev, st.st_ino] = m


def stop_after(n, each=None):
    """on_wait hook: stop the task at its n-th pause"""
    state = {"n": 0, "task": None, "pauses": []}

    def on_wait(remaining):
        state["n"] += 1
        state["pauses"].append(remaining)
        if each:
            each(state["n"])
        if state["n"] >= n:
            state["task"].cancel()
            return True
        return False

    async def go(lp, coro):
        t = state["task"] = asyncio.ensure_future(coro)
        try:
            await t
        except asyncio.CancelledError:
            return True
        return False

    return on_wait, go, state


def old_files(ctx, env):
    P = ctx.params
    d = mk_daemon(env)
    base = d.base_dir
    outside = env.tmp / "outside"
    outside.mkdir()
    (outside / "recent").write_text("x")
    fs = Times(env)
    stuck = set()
    if P.get("stuck"):
        # can not be examined or removed, ever
        how = ctx.choice("stuck", P["stuck"])
        k = ctx.pick("which", P["dirs"])
        bad = str(base / f"d{k}")

        def deny(path):
            if str(path) == bad:
                raise PermissionError(13, "denied", path)

        if how in ("rmtree", "scan"):
            stuck.add(bad)
            setattr(fs, f"deny_{how}", deny)
            ctx.cover(how)
    now = ctx.real("now", 10**9, 4 * 10**9)
    env.set_time(lambda: now)
    limit = 93 * 24 * 3600
    trees = {}
    for i in range(P["dirs"]):
        c = base / f"d{i}"
        c.mkdir()
        paths = [c]
        shape = ctx.choice(f"shape{i}", P["shapes"])
        if "f" in shape:
            (c / "f").write_text("x")
            paths.append(c / "f")
        if "s" in shape:
            (c / "s").mkdir()
            (c / "s" / "g").write_text("x")
            paths += [c / "s", c / "s" / "g"]
        if "e" in shape:
            (c / "s2").mkdir()
            (c / "s2" / "s3").mkdir()
            paths += [c / "s2", c / "s2" / "s3"]
        if "l" in shape:
            (c / "l").symlink_to(outside)
            paths.append(c / "l")
        if "b" in shape:  # dangling
            (c / "l2").symlink_to(outside / "none")
            paths.append(c / "l2")
        ms = []
        for p in paths:
            m = ctx.real(f"m-{p.relative_to(base)}", 0, 4 * 10**9)
            fs.set(p, m)
            ms.append(m)
        trees[str(c)] = ms
    # never candidates
    (base / "file").write_text("x")
    fs.set(base / "file", 0.0)
    (base / "link").symlink_to(outside)
    fs.set(base / "link", 0.0)
    recent = now
    fs.set(outside, recent)
    fs.set(outside / "recent", recent)
    racy = set()
    if P["fault"]:
        k = ctx.choice("fault", P["fault"])
        count = [0]

        def hook(path):
            count[0] += 1
            if count[0] == k:  # another process removes a file
                (base / "d0" / "f").unlink()
                racy.add(str(base / "d0"))
                ctx.cover("race")

        fs.hook = hook

    def each(n):
        ctx.check(len(fs.removed) == len(set(fs.removed)), "only once")
        for c in list(fs.removed):
            if c in racy:
                continue
            if c in trees:
                ctx.cover("purged")
                for m in trees[c]:
                    ctx.check(
                        m < now - limit + 0.001, "nothing in it is recent"
                    )
            else:
                ctx.check(False, f"{os.path.basename(c)} is not a candidate")
        if n == P["rounds"]:
            for c, ms in trees.items():
                if c in fs.removed or c in racy or c in stuck:
                    continue
                ctx.cover("kept")
                ctx.check(
                    disj(ctx, *[m >= now - limit - 0.001 for m in ms]),
                    "something in it is recent",
                )
        seen.extend(fs.removed)
        for c in fs.removed:
            if c in trees:
                del trees[c]
                REAL_RMTREE(c)
        fs.removed.clear()

    seen = []
    on_wait, go, st = stop_after(P["rounds"], each)
    res = vrun(
        lambda lp: go(lp, d.purge_old_files()), on_wait, fs.execute
    )
    ctx.check(res is True, "the purge is repeated")
    ctx.check(
        all(0 < p <= 24 * 3600 for p in st["pauses"]), "at least once a day"
    )


def pending(ctx, env):
    P = ctx.params
    d = mk_daemon(env)
    base = d.base_dir
    want = set()
    other = env.tmp / "other"
    other.mkdir()
    (other / "config").write_text("x")
    (other / ".purge_pending").touch()
    for i in range(P["dirs"]):
        n = f"d{i}"
        kind = ctx.choice(f"kind{i}", ["job", "old", "bare", "file", "link"])
        if kind == "file":
            (base / n).write_text("x")
            continue
        if kind == "link":
            (base / n).symlink_to(other)
            continue
        if kind == "bare":
            (base / n).mkdir()
        else:
            add_job(env, d, n, {"daily": {"interval": "1d", "keep": 1}})
            if kind == "old":
                del d.jobs[n]
        ask = ctx.flag(f"pending{i}")
        if ask:
            (base / n / ".purge_pending").touch()
        if ask and kind == "old":
            want.add(str(base / n))
    ran = []
    fail = ctx.choice("fail", ["no", "first", "code"])

    def command(args, data):
        args = [str(a) for a in args]
        if data != "spawn":
            return 1 if fail == "code" else 0
        i = args.index("-C")
        ctx.check(args[i + 2:] == ["gc"], "garbage collection only")
        ran.append(args[i + 1])
        if fail == "first" and len(ran) == 1:
            raise Boom()
        ctx.cover("gc")

    Commands(env, command)
    on_wait, go, st = stop_after(1)
    res = vrun(
        lambda lp: go(lp, d.purge_pending_backups()), on_wait, lambda f: f()
    )
    ctx.check(res is True, "the purge is repeated")
    if not want:
        ctx.cover("nothing")
    ctx.check(sorted(ran) == sorted(want),
              "requested for inactive backups only, and for all of them")
    ctx.check(
        all(0 < p <= 24 * 3600 for p in st["pauses"]), "at least once a day"
    )


def scenarios(tier):
    r = [
        Scenario(
            "one", old_files,
            "one directory with files, nested directories, links to recent "
            "files and dangling links; all modification times",
            dict(dirs=1, shapes=["", "f", "fs", "fl", "se", "lb", "fslb"],
                 fault=None, rounds=1),
            covers=["purged", "kept"],
        ),
        Scenario(
            "two", old_files,
            "two directories, a file of one may vanish meanwhile",
            dict(dirs=2, shapes=["f"], fault=[0, 1, 2, 3, 4, 5, 6],
                 rounds=1),
            covers=["purged", "kept", "race"],
        ),
        Scenario(
            "stuck", old_files,
            "two directories, one of which can not be read or removed",
            dict(dirs=2, shapes=["f"], fault=None, rounds=1,
                 stuck=["no", "scan", "rmtree"]),
            covers=["purged", "kept", "scan", "rmtree"],
        ),
        Scenario(
            "again", old_files,
            "one directory, two rounds",
            dict(dirs=1, shapes=["f"], fault=None, rounds=2),
            covers=["purged", "kept"],
        ),
        Scenario(
            "pending", pending,
            "two entries of any kind, with and without request, a "
            "collection may fail",
            dict(dirs=2),
            covers=["gc", "nothing"],
        ),
    ]
    if tier == "thorough":
        r += [
            Scenario(
                "three", old_files, "three directories of any shape",
                dict(dirs=3, shapes=["f", "fs", "fl"], fault=None, rounds=1),
                covers=["purged", "kept"],
            ),
            Scenario(
                "pending3", pending, "three entries", dict(dirs=3),
                covers=["gc", "nothing"],
            ),
        ]
    return r
