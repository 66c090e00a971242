"""C39: exit codes of the commands."""

import errno
import subprocess
import sys

import aiohttp
import yaml

from sx.scenario import Scenario

from .daemonutil import *

ASSUMPTIONS = [
    "the subcommands (backy-file) are stand-ins which return any exit code "
    "from 0 to 255, end by any signal or cannot be started",
    "the daemon's API is a stand-in",
]


def call(env, main, *args):
    """-> exit status of the process as its caller sees it"""
    import structlog

    import backy.logging

    p = env.p
    p.setattr(sys, "argv", ["backy", *[str(a) for a in args]])
    p.setattr(backy.logging, "init_logging", lambda *a, **kw: None)
    p.setattr(structlog.stdlib, "get_logger", lambda *a, **kw: LOG)
    try:
        code = main()
    except SystemExit as e:
        code = e.code
    if code is None:
        return 0
    return code


def ok_(code):
    """exit codes are taken modulo 256"""
    return code % 256 == 0


def mk_config(path, source=None):
    path.mkdir(exist_ok=True)
    (path / "config").write_text(yaml.safe_dump({
        "path": str(path),
        "source": source or {"type": "file", "filename": "/nonexistent"},
        "schedule": {"daily": {"interval": "1d", "keep": 3}},
    }))


class Runs:
    """subprocess.run for the subcommand"""

    def __init__(self, env, ctx, effect=None):
        self.calls = []
        self.codes = []

        def run(args, *a, **kw):
            i = len(self.calls)
            self.calls.append([str(x) for x in args])
            if ctx.flag(f"nostart{i}"):
                self.codes.append(None)
                raise FileNotFoundError(2, "no such command")
            rc = ctx.int(f"rc{i}", -64, 255)
            self.codes.append(rc)
            if effect:
                effect(self.calls[-1], rc)
            return subprocess.CompletedProcess(args, rc)

        env.p.setattr(subprocess, "run", run)

    def good(self, ctx):
        return conj(
            ctx, True, *[c is not None and c == 0 for c in self.codes]
        )


IDS = ["r0", "r1", "r2"]


def one(ctx, env):
    """Commands on a single repository which start subcommands."""
    import backy.cli

    P = ctx.params
    path = env.tmp / "job"
    mk_config(path)
    for i, r in enumerate(IDS):
        write_rev(path, r, D0 + hours(i), ["daily"],
                  trust=["distrusted", "verified", "distrusted"][i],
                  server="s1" if i == 2 else "")
    cmd = ctx.choice("cmd", P["cmds"])
    seen = []

    def effect(args, rc):
        if "backup" in args:
            seen.append(read_revs(path)[args[-1]])

    runs = Runs(env, ctx, effect)
    args = ["-C", path, *cmd]
    code = call(env, backy.cli.main, *args)
    kind = cmd[0]
    want = P["want"].get(" ".join(cmd))
    for c in runs.calls:
        ctx.check(
            c[0].endswith("backy-file") and c[c.index("-C") + 1] == str(path),
            "subcommands work on the repository",
        )
    tails = [c[c.index("-C") + 2:] for c in runs.calls]
    if kind == "backup":
        if want:
            ctx.check(
                len(tails) == 1 and tails[0][0] == "backup",
                "one backup is made",
            )
            if seen:
                ctx.check(
                    set(seen[0]["tags"]) == set(want)
                    and "duration" not in seen[0]["stats"]
                    and seen[0]["uuid"] not in IDS,
                    "a new revision with the given tags is made",
                )
        else:
            ctx.check(not tails, "no backup is made")
        ctx.check(
            set(read_revs(path)) == set(IDS),
            "an incomplete revision is not kept",
        )
    elif any(c is None for c in runs.codes):
        # a subcommand could not be started
        ctx.check(tails == want[:len(tails)], "as requested until then")
    else:
        ctx.check(tails == (want or []), "exactly what was requested is done")
    good = conj(ctx, want is not None, runs.good(ctx))
    ctx.check(
        iff(ctx, ok_(code), good),
        "success is reported exactly if everything succeeded",
    )
    ctx.cover("failed" if not ok_(code) else "ok")


CMDS = {
    "verify -r all": [["verify", r] for r in IDS],
    "verify -r local": [["verify", "r0"], ["verify", "r1"]],
    "verify": [["verify", "r0"]],
    "verify -r trust:verified": [["verify", "r1"]],
    "verify -r nope": None,
    "restore -r r1 file /tmp/x": [["restore", "r1", "/tmp/x"]],
    "restore file /tmp/x": [["restore", "r2", "/tmp/x"]],
    "restore -r nope file /tmp/x": None,
    "backup daily": ["daily"],
    "backup manual:x, daily": ["manual:x", "daily"],
    "backup other": None,
    "backup -f other": ["other"],
    "gc": [["gc"]],
    "gc --expire --local": [["gc"]],
    "gc --expire": None,
}


def split(c):
    return c.split(" ", 1) if c.startswith("backup manual") else c.split()


def local(ctx, env):
    """Commands that edit the repository itself."""
    import backy.cli

    path = env.tmp / "job"
    mk_config(path)
    for i, r in enumerate(IDS):
        write_rev(path, r, D0 + hours(i), ["daily"],
                  server="s1" if i == 2 else "")
    (path / "quarantine").mkdir()
    (path / "quarantine" / "p0.report").write_text("x")
    env.set_now(D0 + hours(3))
    cmd, good = ctx.choice("cmd", LOCAL)
    locked = ctx.flag("locked")
    if locked:

        # another process holds the lock of the repository
        lock_elsewhere(env, path)
    before = snap(path)
    code = call(env, backy.cli.main, "-C", path, *cmd)
    if cmd[0] == "check":
        ctx.check(code == 1, "a report is a warning")
        ctx.cover("check")
    elif locked and cmd[0] in ("rm", "tags", "distrust"):
        ctx.check(not ok_(code), "a locked repository is a failure")
        ctx.check(snap(path) == before, "nothing is changed")
        ctx.cover("locked")
    else:
        ctx.check(ok_(code) == good, "success is reported exactly on success")
        ctx.cover("ok" if good else "failed")
        if not good:
            ctx.check(snap(path) == before, "nothing is changed")


def lock_elsewhere(env, path):
    import fcntl


    for n in (".backup", ".purge"):
        f = open(path / n, "a")
        env.keep = getattr(env, "keep", []) + [f]
        fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)


def snap(path):
    return {
        str(f.relative_to(path)): f.read_bytes()
        for f in path.rglob("*")
        if f.is_file() and not f.is_symlink() and f.suffix != ".lock"
        and not f.name.startswith((".backup", ".purge"))
    }


LOCAL = [
    (["rm", "-r", "r0"], True),
    (["rm", "-r", "nope"], False),
    (["tags", "set", "-r", "r0", "daily"], True),
    (["tags", "set", "-r", "r0", "other"], False),
    (["tags", "set", "-f", "-r", "r0", "other"], True),
    (["tags", "add", "--expect", "daily", "-r", "r0", "manual:x"], True),
    (["tags", "add", "--expect", "x", "-r", "r0", "manual:x"], False),
    (["tags", "remove", "-r", "nope", "daily"], False),
    (["distrust"], True),
    (["distrust", "-r", "nope"], False),
    (["rev-parse", "-r", "r1"], True),
    (["rev-parse", "-r", "nope"], False),
    (["log", "-r", "nope"], False),
    (["log", "--json"], True),
    (["reports-list"], True),
    (["reports-show", "p0"], True),
    (["reports-show", "p1"], False),
    (["reports-delete", "p0"], True),
    (["reports-delete", "p1"], False),
    (["check"], None),
    (["init", "file"], False),
]


class Api:
    def __init__(self, jobs, ctx=None):
        self.jobs = jobs
        self.started = []
        self.ctx = ctx

    async def get_jobs(self):
        await asyncio.sleep(0)
        return [
            {"name": n, "path": str(p),
             "schedule": {"daily": {"interval": "1d", "keep": 3}}}
            for n, p in self.jobs
        ]

    async def run_job(self, name):
        await asyncio.sleep(0)
        k = self.ctx.choice(f"answer-{name}", ["ok", "404", "500", "net"])
        if k == "ok":
            self.started.append(name)
            return
        self.failed = k
        if k == "net":
            raise aiohttp.ClientConnectionError("x")
        raise aiohttp.ClientResponseError(None, (), status=int(k))


def several(ctx, env):
    """Commands on the repositories of several jobs."""
    import backy.cli

    P = ctx.params
    names = ["a1", "b", "a2"][: P["jobs"]]
    now = D1
    env.set_now(now)
    level = {}
    jobs = []
    for n in names:
        path = env.tmp / n
        path.mkdir()
        jobs.append((n, path))
        write_rev(path, "r0", now - hours(
            ctx.choice(f"age-{n}", [1, 100])), ["daily"])
        (path / "quarantine").mkdir()
        rep = ctx.flag(f"report-{n}")
        if rep:
            (path / "quarantine" / "p0.report").write_text("x")
        if ctx.flag(f"only-{n}"):
            write_rev(path, "r1", now - hours(1), ["daily"])
        revs = read_revs(path)
        late = all(now - r["timestamp"] > hours(36) for r in revs.values())
        level[n] = (2 if late else 1 if rep else 0, "r1" in revs)
    api = Api(jobs, ctx)
    env.p.setattr(backy.cli.Command, "api", api)
    flt, sel = ctx.choice("filter", [
        (["-a"], names),
        (["--jobs", "^a"], [n for n in names if n[0] == "a"]),
        (["--jobs", "b$"], [n for n in names if n == "b"]),
        (["--jobs", "zz"], []),
    ])
    cmd = ctx.choice("cmd", [
        ["check"], ["rm", "-r", "r1"], ["backup", "x"],
        ["tags", "add", "--expect", "daily", "-r", "r1", "manual:x"],
    ])
    code = call(env, backy.cli.main, "-C", env.tmp, *flt, *cmd)
    if not sel:
        ctx.check(not ok_(code), "no job to work on is a failure")
        ctx.cover("none")
        return
    if cmd[0] == "check":
        ctx.check(
            code == max(level[n][0] for n in sel),
            "check returns the most severe result",
        )
        ctx.cover("check")
    elif cmd[0] == "backup":
        if len(sel) > 1:
            ctx.check(
                ok_(code) == (api.started == sel),
                "success means that all backups are started",
            )
            ctx.cover("started" if api.started == sel else "not started")
        ctx.check(set(api.started) <= set(sel), "only the selected jobs")
    else:
        all_there = all(level[n][1] for n in sel)
        ctx.check(
            ok_(code) == all_there,
            "success is reported exactly if all jobs succeeded",
        )
        ctx.cover("all" if all_there else "not all")
        if all_there:
            for n, path in jobs:
                r = read_revs(path).get("r1")
                done = r is None or "manual:x" in r["tags"]
                ctx.check(
                    not level[n][1] or done == (n in sel),
                    "exactly the selected jobs are changed",
                )


def source(ctx, env):
    """The entry point of the subcommands."""
    from backy.file import FileSource

    path = env.tmp / "job"
    mk_config(path, {"type": ctx.choice("type", ["file", "file", "rbd"]),
                     "filename": "x", "pool": "p", "image": "i"})
    for i, r in enumerate(IDS):
        write_rev(path, r, D0 + hours(i), ["daily"])
    what = ctx.choice("what", ["ok", "false", "none"] + list(FAILS))
    called = []

    def op(kind):
        def f(*a, **kw):
            called.append((kind, [x.uuid for x in a if hasattr(x, "uuid")]))
            if what in FAILS:
                raise FAILS[what]()
            return {"ok": True, "false": False, "none": None}[what]

        return f

    class Dummy(FileSource):
        @classmethod
        def from_config(cls, repository, config, log):
            if config["type"] != "file":
                raise AssertionError()
            return cls(repository, env.tmp / "x")

        def backup(self, *a):
            return op("backup")(*a)

        def restore(self, *a):
            return op("restore")(*a)

        def verify(self, *a):
            return op("verify")(*a)

        def gc(self, *a):
            return op("gc")(*a)

    kind = ctx.choice("kind", ["backup", "restore", "verify", "gc"])
    rev = ctx.choice("rev", ["r0", "nope"])
    args = {
        "backup": [rev], "restore": [rev, "target"], "verify": [rev],
        "gc": [],
    }[kind]
    if ctx.flag("no config"):
        (path / "config").unlink()
    conf = (path / "config").exists() and yaml.safe_load(
        (path / "config").read_text()
    )["source"]["type"] == "file"
    code = call(
        env, lambda: Dummy.main("backy-file", "-C", str(path), kind, *args)
    )
    can = conf and (kind == "gc" or rev == "r0")
    ctx.check(
        called == ([(kind, [rev] if args else [])] if can else []),
        "exactly what was requested is done",
    )
    good = can and (
        what == "ok" or (kind != "backup" and what in ("none", "false"))
    )
    ctx.check(ok_(code) == good, "success is reported exactly on success")
    ctx.cover("ok" if good else "failed")


FAILS = {
    "busy": lambda: BlockingIOError(errno.EAGAIN, "x"),
    "deadlock": lambda: OSError(errno.EDEADLK, "x"),
    "full": lambda: OSError(errno.ENOSPC, "x"),
    "assert": AssertionError,
    "error": lambda: Exception("x"),
    "key": KeyError,
    "rc": lambda: subprocess.CalledProcessError(3, "x"),
}


def scenarios(tier):
    return [
        Scenario(
            "one", one,
            "each command that starts subcommands, with up to 3 of them "
            "which return any code or end by any signal",
            dict(cmds=[split(c) for c in CMDS],
                 want=dict(CMDS)),
            ["ok", "failed"],
        ),
        Scenario(
            "local", local,
            "21 commands that succeed, fail, or find the repository locked",
            {}, ["ok", "failed", "locked", "check"],
        ),
        Scenario(
            "several", several,
            "up to 3 jobs in any state, selected by a filter",
            dict(jobs=2 if tier == "quick" else 3),
            ["none", "check", "started", "not started", "all", "not all"],
        ),
        Scenario(
            "source", source,
            "operations of a source which succeed, report failure or raise",
            {}, ["ok", "failed"],
        ),
    ]
