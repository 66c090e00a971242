"""C49: commands work on exactly the selected revisions."""

import contextlib
import io
import itertools
import json as json_
import subprocess

from sx.scenario import Scenario

from .c39 import call, mk_config, ok_
from .daemonutil import *

ASSUMPTIONS = [
    "the subcommands (backy-file) are stand-ins that record how they are "
    "called",
]

SPECS = {
    "all": lambda r: True,
    "local": lambda r: r["server"] == "",
    "remote": lambda r: r["server"] != "",
    "clean": lambda r: r["complete"],
    "tag:daily": lambda r: "daily" in r["tags"],
    "not(tag:daily)": lambda r: "daily" not in r["tags"],
    "trust:distrusted": lambda r: r["trust"] == "distrusted",
    "trust:distrusted&local":
        lambda r: r["trust"] == "distrusted" and r["server"] == "",
    "first": lambda r: r["pos"] == 0,
    "last": lambda r: r["pos"] == r["n"] - 1,
    "latest": lambda r: r["pos"] == r["n"] - 1,
    "1..": lambda r: r["pos"] >= r["n"] - 2,
    "r1": lambda r: r["uuid"] == "r1",
    "r1,r0": lambda r: r["uuid"] in ("r0", "r1"),
    "nope": None,
}
DEFAULT = {
    "distrust": "local", "verify": "trust:distrusted&local", "tags": "all",
    "log": "all", "rev-parse": "all", "restore": "latest",
}
SINGLE = ["first", "last", "latest", "r1", "nope"]


def act(ctx, env):
    import backy.cli

    P = ctx.params
    path = env.tmp / "job"
    mk_config(path)
    n = P["revs"]
    order = ctx.choice("order", list(itertools.permutations(range(n))))
    revs = []
    for i in range(n):
        server, trust, complete = ctx.choice(f"kind{i}", P["kinds"])
        r = dict(
            uuid=f"r{i}", pos=order[i], n=n, server=server, trust=trust,
            complete=complete,
            tags=ctx.choice(f"tags{i}", P["tags"]),
        )
        revs.append(r)
        write_rev(
            path, r["uuid"], D0 + hours(order[i]), r["tags"],
            r["tags"] if server else [], trust=trust, server=server,
            complete=complete,
        )
    env.set_now(D0 + dt.timedelta(30))
    runs = []

    def run_(args, *a, **kw):
        runs.append([str(x) for x in args])
        return subprocess.CompletedProcess(args, 0)

    env.p.setattr(subprocess, "run", run_)
    cmd = ctx.choice("command", P["commands"])
    spec = ctx.choice(
        "revision",
        ([None] if cmd in DEFAULT else [])
        + (SINGLE if cmd == "restore" else P["specs"]),
    )
    select = SPECS[spec or DEFAULT[cmd]]
    if select is not None:
        sel = sorted(
            [r for r in revs if select(r)], key=lambda r: r["pos"]
        )
        if spec == "r1,r0":
            sel = sorted(sel, key=lambda r: r["uuid"], reverse=True)
    r = ["-r", spec] if spec else []
    args = {
        "rm": ["rm", *r],
        "distrust": ["distrust", *r],
        "verify": ["verify", *r],
        "tags": ["tags", "add", *r, "manual:new"],
        "log": ["log", "--json", *r],
        "rev-parse": ["rev-parse", "--uuid", *r],
        "restore": ["restore", *r, "file", "/target"],
    }[cmd]
    before = read_revs(path)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        code = call(env, backy.cli.main, "-C", path, *args)
    after = read_revs(path)
    if cmd not in ("verify", "restore"):
        ctx.check(not runs, "no subcommand is needed")
    if select is None:
        ctx.check(not ok_(code), "an unknown revision is a failure")
        ctx.check(after == before and not runs, "nothing is changed")
        ctx.cover("unknown")
        return
    refused = cmd == "distrust" and any(x["server"] for x in sel)
    ctx.check(ok_(code) != refused, "the result is reported")
    uuids = [x["uuid"] for x in sel]
    if refused:
        ctx.check(after == before, "a refused command changes nothing")
        ctx.cover("refused")
    elif cmd in ("log", "rev-parse"):
        if cmd == "log":
            got = [x["uuid"] for x in json_.loads(out.getvalue())]
        else:
            got = out.getvalue().split()
        ctx.check(got == uuids, "the selected revisions in their order")
        ctx.check(after == before, "nothing is changed")
        ctx.cover("listed")
    elif cmd in ("verify", "restore"):
        tail = ["/target"] if cmd == "restore" else []
        want = [[cmd, u, *tail] for u in uuids]
        got = [c[c.index("-C") + 2:] for c in runs]
        ctx.check(got == want, "the selected revisions are processed")
        ctx.check(
            all(c[c.index("-C") + 1] == str(path) for c in runs),
            "in the repository",
        )
        ctx.check(after == before, "nothing else is changed")
        ctx.cover("processed")
    else:
        for x in revs:
            u = x["uuid"]
            want = dict(before[u], tags=set(before[u]["tags"]))
            if u in uuids:
                if cmd == "rm":
                    if not x["server"]:
                        ctx.check(u not in after, "removed ones are gone")
                        continue
                    # to be removed by its server
                    want["tags"] = set()
                elif cmd == "distrust":
                    want["trust"] = "distrusted"
                else:
                    want["tags"] |= {"manual:new"}
            got = after.get(u)
            if got is not None:
                got = dict(got, tags=set(got["tags"]))
                got["parent"] = want["parent"]
            ctx.check(
                got == want, "exactly the selected revisions are changed"
            )
        ctx.check(set(after) <= set(before), "no other revisions appear")
        ctx.cover("changed")


def restore(ctx, env):
    """What the user asks for reaches the source."""
    import backy.cli
    import backy.file
    import backy.rbd

    P = ctx.params
    path = env.tmp / "job"
    kind = ctx.choice("source", ["file", "rbd"])
    mk_config(path, {"type": kind, "filename": "x", "pool": "p",
                     "image": "i"})
    for i in range(2):
        write_rev(path, f"r{i}", D0 + hours(i), ["daily"])
    cls = {"file": backy.file.FileSource, "rbd": backy.rbd.RBDSource}[kind]
    asked = []
    env.p.setattr(
        cls, "restore", lambda self, rev, args: asked.append((rev.uuid, args))
    )

    def run_(args, *a, **kw):
        args = [str(x) for x in args]
        ctx.check(args[0] == f"backy-{kind}", "the command of the source")
        try:
            code = call(env, lambda: cls.main(*args))
        except SystemExit as e:
            code = e.code
        return subprocess.CompletedProcess(args, code)

    env.p.setattr(subprocess, "run", run_)
    target = ctx.choice("target", P["targets"])
    rev = ctx.choice("revision", ["r0", "r1"])
    backend = None
    flags = []
    if kind == "rbd":
        backend = ctx.choice("backend", [None, "auto", "python", "rust"])
        if backend:
            flags = ["--backend", backend]
    code = call(
        env, backy.cli.main, "-C", path, "restore", "-r", rev, kind, *flags,
        target,
    )
    ctx.check(ok_(code), "the restore works")
    ctx.check(len(asked) == 1, "one restore happens")
    if len(asked) != 1:
        return
    u, args = asked[0]
    ctx.check(u == rev, "of the revision")
    ctx.check(str(args.target) == target, "to the target")
    if kind == "rbd":
        ctx.check(
            args.backend is backy.rbd.RestoreBackend(backend or "auto"),
            "by the backend",
        )
    ctx.cover(kind)


def scenarios(tier):
    big = tier == "thorough"
    kinds = [("", "trusted", True), ("", "distrusted", True),
             ("s1", "trusted", True), ("", "trusted", False)]
    return [
        Scenario(
            "act", act,
            "every command with its default or given revisions; up to 3 "
            "revisions of any order, origin, trust and tags",
            dict(
                revs=3 if big else 2,
                kinds=kinds if not big
                else kinds + [("s1", "distrusted", True),
                              ("", "verified", True)],
                tags=[["daily"], ["manual:x"]],
                commands=["rm", "distrust", "verify", "tags", "log",
                          "rev-parse", "restore"],
                specs=list(SPECS),
            ),
            ["unknown", "refused", "listed", "processed", "changed"],
        ),
        Scenario(
            "restore", restore,
            "restores of 2 revisions of either source to 5 kinds of targets "
            "by every backend",
            dict(targets=["-", "/dev/rbd0", "rel/path", "a b", "x=1"]),
            ["file", "rbd"],
        ),
    ]
