"""C48: a dry run changes nothing."""

import contextlib
import io
import os
import subprocess

import yaml

from sx.scenario import Scenario

from .c39 import IDS, call, mk_config, ok_
from .daemonutil import *

ASSUMPTIONS = [
    "the subcommands (backy-file) and the daemon's API are stand-ins that "
    "record how they are called",
]

CHANGING = [
    ["rm", "-r", "r0"], ["rm", "-r", "all"], ["rm", "-r", "remote"],
    ["tags", "set", "-r", "r0", "manual:x"],
    ["tags", "add", "-r", "all", "manual:x"],
    ["tags", "remove", "--autoremove", "-r", "all", "daily"],
    ["distrust"], ["distrust", "-r", "r0"],
    ["verify"], ["verify", "-r", "all"],
    ["backup", "daily"], ["backup", "-f", "other"],
    ["backup", "--bg", "daily"],
    ["restore", "file", "TARGET"], ["restore", "-r", "r0", "file", "TARGET"],
    ["gc"], ["gc", "--expire", "--local"],
    ["reports-delete", "p0"], ["reports-delete", "--all-reports"],
    ["reload-daemon"],
]
READING = [
    ["rev-parse"], ["rev-parse", "--uuid", "-r", "r1"], ["log"],
    ["log", "--json", "-r", "local"], ["reports-list"],
    ["reports-show", "p0"], ["check"],
]


def tree(path):
    """Everything below path but lock files, which hold nothing."""
    r = {}
    for d, ds, fs in os.walk(path):
        for n in ds + fs:
            p = os.path.join(d, n)
            if n in (".backup", ".purge"):
                continue
            st = os.lstat(p)
            r[p] = (
                st.st_mode,
                None if os.path.isdir(p) else (
                    st.st_ino, st.st_mtime_ns,
                    os.readlink(p) if os.path.islink(p)
                    else open(p, "rb").read(),
                ),
            )
    return r


class Api:
    def __init__(self, jobs):
        self.jobs = jobs
        self.changed = []

    async def get_jobs(self):
        return [
            {"name": n, "path": str(p),
             "schedule": {"daily": {"interval": "1d", "keep": 3}}}
            for n, p in self.jobs
        ]

    async def run_job(self, name):
        self.changed.append(("run", name))

    async def reload_daemon(self):
        self.changed.append(("reload",))


def dry(ctx, env):
    import backy.cli

    P = ctx.params
    env.set_now(D0 + dt.timedelta(30))
    names = ["a1", "b"]
    for n in names:
        path = env.tmp / n
        mk_config(path)
        for i, r in enumerate(IDS):
            write_rev(
                path, r, D0 + hours(i),
                ctx.choice(f"tags-{i}", [["daily"], []])
                if n == "a1" and P["any"] else ["daily"],
                complete=ctx.flag(f"complete-{i}") if n == "a1" else True,
                trust=ctx.choice(f"trust-{i}", ["trusted", "distrusted"])
                if n == "a1" and i < 2 else "trusted",
                server="s1" if i == 2 else "",
            )
        (path / "quarantine").mkdir()
        (path / "quarantine" / "p0.report").write_text("x")
    cmd = ctx.choice("command", CHANGING + READING)
    api = Api([(n, env.tmp / n) for n in names])
    env.p.setattr(backy.cli.Command, "api", api)
    runs = []

    def run_(args, *a, **kw):
        runs.append(args)
        return subprocess.CompletedProcess(args, 0)

    env.p.setattr(subprocess, "run", run_)
    cmd = [str(env.tmp / "target") if x == "TARGET" else x for x in cmd]
    where = ["-C", env.tmp / "a1"]
    if ctx.flag("several"):
        ctx.assume(cmd[0] not in ("restore", "verify", "gc",
                                  "reload-daemon"))
        where = ["-a"]
    before = tree(env.tmp)

    def go(*flags):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            code = call(env, backy.cli.main, *flags, *where, *cmd)
        return code, out.getvalue()

    flag = ctx.choice("flag", ["-n", "--dry-run"])
    res = go(flag)
    ctx.check(tree(env.tmp) == before, "a dry run changes no files")
    ctx.check(runs == [], "a dry run starts no operation")
    ctx.check(api.changed == [], "a dry run requests no change")
    if cmd in READING:
        ctx.check(res == go(), "commands that only read work as usual")
        ctx.cover("reading")
    else:
        ctx.cover(cmd[0])
        # the same command has an effect otherwise
        go()
        if tree(env.tmp) != before or runs or api.changed:
            ctx.cover("effective")


def scenarios(tier):
    return [
        Scenario(
            "dry", dry,
            "every command in typical uses, on one or all of 2 jobs, whose "
            "revisions are in any state",
            dict(any=tier == "thorough"),
            ["effective", "reading", "rm", "tags", "distrust", "verify",
             "backup", "restore", "gc", "reports-delete", "reload-daemon"],
        ),
    ]
