"""C35: metadata survives crashes and failing writes."""

import os
import resource

import yaml

from sx.env import LOG
from sx.fstrace import TORN, Crash, Trace
from sx.scenario import Scenario

from .common import *

CONF = {"daily": {"interval": "1d", "keep": 2}}

ASSUMPTIONS = [
    "the file system keeps the order of metadata operations (names) across a "
    "power failure; the content of a file that was not synced afterwards may "
    "be that of any earlier moment since its last sync, or torn",
    "a killed process leaves what it has done so far; a file it is just "
    "writing may be torn",
]


def tree(root):
    r = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                r[os.path.relpath(p, root)] = fh.read()
    return r


# -- operations: (what has to exist before, the operation, names written) -----

def op_materialize(env, repo, path):
    import backy.revision

    def op():
        r = backy.revision.Revision.create(
            repo, {"daily"}, LOG, uuid="new"
        )
        r.materialize()

    return op, {"new.rev"}


def op_write(env, repo, path):
    write_rev(path, "u0", D0, ["daily", "manual:a"])
    write_rev(path, "u1", D0 + dt.timedelta(1), ["daily"], complete=False)
    repo.scan()

    def op():
        r = repo.find_by_uuid("u1")
        r.stats["duration"] = 7.0
        r.write_info()
        r.readonly()

    return op, {"u1.rev"}


def op_tags(env, repo, path):
    write_rev(path, "u0", D0, ["daily", "manual:a"])
    write_rev(path, "u1", D0 + dt.timedelta(1), ["daily"])
    repo.scan()
    return lambda: repo.tags("add", "all", {"manual:b"}), {"u0.rev", "u1.rev"}


def op_distrust(env, repo, path):
    write_rev(path, "u0", D0, ["daily"])
    write_rev(path, "u1", D0 + dt.timedelta(1), ["daily"])
    repo.scan()
    return lambda: repo.distrust(list(repo.history)), {"u0.rev", "u1.rev"}


def op_expire(env, repo, path):
    for i in range(4):
        write_rev(
            path, f"u{i}", D0 + i * dt.timedelta(1),
            ["daily"] + (["manual:x"] if i == 1 else []),
            server="s1" if i == 0 else "", orig_tags=["daily"] * (i == 0),
        )
    repo.scan()
    return repo.expire, {"u0.rev", "u1.rev"}


def op_config(env, repo, path):
    import backy.source

    src = backy.source.CmdLineSource(
        repo, {"type": "file", "filename": "/x"}, LOG
    )
    if env.ctx.flag("config exists"):
        backy.source.CmdLineSource(
            repo, {"type": "file", "filename": "/old"}, LOG
        ).store()
    return src.store, {"config"}


def op_report(env, repo, path):
    import backy.report

    if env.ctx.flag("earlier report"):
        repo.add_report(
            backy.report.ChunkMismatchReport(b"aaa" * 50, b"bbb", 0)
        )
    rep = backy.report.ChunkMismatchReport(b"aaa" * 50, b"ccc" * 70, 4096)
    return (
        lambda: repo.add_report(rep),
        {
            f"quarantine/{rep.uuid}.report",
            f"quarantine/chunks/{rep.source_hash}",
            f"quarantine/chunks/{rep.target_hash}",
        },
    )


OPS = {
    "materialize": op_materialize,
    "write": op_write,
    "tags": op_tags,
    "distrust": op_distrust,
    "expire": op_expire,
    "config": op_config,
    "report": op_report,
}


def prepare(ctx, env):
    env.set_now(D0 + dt.timedelta(10))
    path = env.tmp / "repo"
    path.mkdir()
    repo = mk_repo(path, CONF)
    name = ctx.choice("operation", ctx.params["ops"])
    op, names = OPS[name](env, repo, path)
    return path, repo, name, op, names


def metadata(name):
    return name.endswith((".rev", ".report")) or name == "config" or (
        name.startswith("quarantine/chunks/")
        and not os.path.basename(name).startswith("tmp")
    )


def crash(ctx, env):
    path, repo, name, op, names = prepare(ctx, env)
    env.tmp.joinpath("links").mkdir()
    with Trace(env, path) as t:
        op()
    ctx.check(t.n > 0, "something was written")
    old, new = t.snaps[0], t.snaps[-1]

    def at(snap, p):
        i = snap[0].get(p)
        return None if i is None else snap[1][i]

    # what is written in the end can be loaded
    for p in names:
        c = at(new, p)
        if name == "expire" and p == "u1.rev" and c is None:
            continue
        ctx.check(c is not None, "the file is written")
    check_loadable(ctx, env, path, repo)
    c = Crash(ctx, t, machine=ctx.choice("kind", ["process", "machine"])
              == "machine")
    seen = {p for p in t.paths() if metadata(p)}
    ctx.check(
        seen <= names | set(old[0]), "only names of metadata are written"
    )
    for p in sorted(seen):
        allowed = [at(old, p), at(new, p)]
        ctx.check(
            c.cond(p, lambda x: x in allowed),
            "the file has its complete old or complete new content",
        )
    if name == "report":
        rep = [p for p in names if p.endswith(".report")][0]
        for p in names - {rep}:
            ctx.check(
                implies(
                    ctx, c.cond(rep, lambda x: x is not None),
                    c.cond(p, lambda x: x == at(new, p)),
                ),
                "a report comes with its chunks",
            )
    ctx.cover(name)
    if not ctx.symbolic:
        # what the real code makes of it
        d = env.tmp / "after"
        c.materialize(d)
        r = mk_repo(d, CONF)
        want = {p[:-4] for p in seen if p.endswith(".rev")}
        ctx.check(
            {x.uuid for x in r.history} <= want, "no other revisions appear"
        )
        check_loadable(ctx, env, d, r)


def check_loadable(ctx, env, path, repo):
    import backy.source

    repo.scan()
    repo.scan_reports()
    for r in repo.history:
        with open(path / f"{r.uuid}.rev") as f:
            ctx.check(
                {"uuid", "timestamp", "stats", "trust", "tags", "orig_tags",
                 "server"} <= set(yaml.safe_load(f)),
                "revisions can be loaded",
            )
    for u in repo.report_ids:
        with open(path / "quarantine" / f"{u}.report") as f:
            d = yaml.safe_load(f)
        ctx.check(
            d["uuid"] == u and set(d) >= {
                "timestamp", "source_hash", "target_hash", "offset"
            },
            "reports can be loaded",
        )
    if (path / "config").exists():
        with open(path / "config") as f:
            ctx.check(
                set(yaml.safe_load(f)) == {"path", "source", "schedule"},
                "the configuration can be loaded",
            )


class Boom(Exception):
    pass


def errors(ctx, env):
    """One write, sync or rename fails."""
    path, repo, name, op, names = prepare(ctx, env)
    where = ctx.choice("where", ["fsync", "rename", "write", "chmod"])
    at = ctx.pick("at", ctx.params["steps"])
    n = [0]
    hit = []

    def fault(kind, args):
        if kind not in {
            "fsync": ("fsync", "fdatasync"), "rename": ("rename", "replace"),
            "chmod": ("chmod",), "write": (),
        }[where]:
            return None
        n[0] += 1
        if n[0] == at + 1:
            hit.append(str(args[-1]))
            return OSError(28, "No space left on device")

    before = tree(path)
    t = Trace(env, path)
    t.fault = fault
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    limit = [0, 1, 40, 4096][at % 4] if where == "write" else soft
    exc = None
    if where == "write":
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    try:
        with t:
            try:
                op()
            except Exception as e:
                exc = e
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    after = tree(path)
    if exc is None:
        ctx.cover("no fault")
        return
    ctx.cover("failed in " + where)
    for p in after:
        base = os.path.basename(p)
        if base.startswith("."):
            continue
        if where == "chmod" and p in names:
            continue
        ctx.check(
            p in names or p in before,
            "no temporary file is left",
        )
    if any(after.get(p) == before.get(p) for p in names):
        ctx.cover("kept")
    # what was changed before the failing step is complete
    check_loadable(ctx, env, path, mk_repo(path, CONF))
    for p in before:
        ctx.check(p in after or name == "expire", "no file is lost")


def raising(ctx, env):
    """The content itself can not be written."""
    path = env.tmp / "repo"
    path.mkdir()
    write_rev(path, "u0", D0, ["daily"])
    repo = mk_repo(path, CONF)
    r = repo.find_by_uuid("u0")
    kind = ctx.choice("kind", ["stats", "new", "config", "report"])
    bad = object()
    if kind == "stats":
        r.stats["x"] = bad

        def op():
            r.write_info()
    elif kind == "new":
        import backy.revision

        x = backy.revision.Revision.create(repo, {"a"}, LOG, uuid="new")
        x.stats["x"] = bad

        def op():
            x.materialize()
    elif kind == "config":
        import backy.source

        backy.source.CmdLineSource(
            repo, {"type": "file", "filename": "/old"}, LOG
        ).store()
        op = backy.source.CmdLineSource(
            repo, {"type": "file", "x": bad}, LOG
        ).store
    else:
        import backy.report

        rep = backy.report.ChunkMismatchReport(b"a", b"b", 1)
        rep.offset = bad

        def op():
            repo.add_report(rep)
    before = tree(path)
    try:
        op()
        ok = True
    except Exception:
        ok = False
    ctx.check(not ok, "the failure is reported")
    after = tree(path)
    for p in list(after):
        if p.startswith("quarantine/chunks/"):
            del after[p]
    ctx.check(after == before, "nothing changes")
    ctx.cover(kind)


def scenarios(tier):
    ops = list(OPS)
    return [
        Scenario(
            "crash",
            crash,
            "writing a new or changed revision, the tags or trust state of "
            "two revisions, expiry, job configuration, report; process or "
            "machine stops after any number of file system operations with "
            "any persisted subset the file system model allows",
            dict(ops=ops),
            ops,
        ),
        Scenario(
            "errors",
            errors,
            "the same operations; the 1st to 6th fsync, rename or chmod "
            "fails or the file system is full after 0, 1, 40 or 4096 bytes",
            dict(ops=ops, steps=6),
            ["failed in fsync", "failed in rename", "failed in write",
             "kept"],
        ),
        Scenario(
            "raising",
            raising,
            "content that can not be serialised",
            {},
            ["stats", "new", "config", "report"],
        ),
    ]
