"""C34: the file source."""

import os

from sx.scenario import Scenario
from sx.symbytes import blob_eq, rope

from .common import *
from .rbdutil import new_rev

ASSUMPTIONS = [
    "file contents are generic byte strings (opaque to the code)",
    "no two operations on a file source run at the same time (it takes no "
    "locks)",
]


def put(ctx, p, data, how="write"):
    """Change the source file."""
    if how == "replace" and os.path.exists(p):
        q = str(p) + ".new"
        put(ctx, q, data)
        os.rename(q, p)
        return
    with open(p, "wb") as f:
        f.write(rope(ctx, data) if ctx.symbolic else data)


def get(ctx, p):
    with open(p, "rb") as f:
        d = f.read()
    return rope(ctx, d) if ctx.symbolic else d


def mk(env, repo):
    import backy.source

    return backy.source.CmdLineSource(
        repo,
        {"type": "file", "filename": str(env.tmp / "source")},
        LOG,
    ).create_source()


def history(ctx, env):
    """Backups of a changing file with arbitrary steps in between."""
    import pathlib

    P = ctx.params
    repo = mk_repo(env.tmp / "repo")
    n = P["backups"]
    want = {}
    t = increasing(ctx, n)
    srcfile = env.tmp / "source"
    how = ctx.choice("how", ["write", "replace"])
    for i in range(n):
        data = ctx.blob(f"data{i}", ctx.choice(f"len{i}", P["lens"]))
        put(ctx, srcfile, data, how)
        r = new_rev(repo, f"u{i}", t[i])
        ctx.check(bool(mk(env, repo).backup(r)), "backup succeeds")
        repo.scan()
        want[f"u{i}"] = data
        rec = read_revs(repo.path)
        ctx.check(set(rec) == set(want), "all revisions are recorded")
        ctx.check("duration" in rec[f"u{i}"]["stats"], "complete")
        step = ctx.choice(f"step{i}", P["steps"])
        if step == "remove":
            k = ctx.choice(f"k{i}", sorted(want))
            repo.find_by_uuid(k).remove()
            del want[k]
        elif step == "gc":
            mk(env, repo).gc()
        elif step == "stale":
            # left behind by someone else
            write_rev(repo.path, "zz", D0)
            mk(env, repo).gc()
            ctx.check(
                set(read_revs(repo.path)) - {"zz"} == set(want),
                "garbage collection keeps known revisions",
            )
            (repo.path / "zz.rev").unlink(missing_ok=True)
        elif step == "remote":
            # pulled from another server
            write_rev(repo.path, "zr", D0, ["a"], server="s1")
            repo.scan()
            mk(env, repo).gc()
            ctx.check(
                set(read_revs(repo.path)) == set(want) | {"zr"},
                "garbage collection keeps known revisions",
            )
            (repo.path / "zr.rev").unlink()
        repo.scan()
    if ctx.flag("changed"):
        put(ctx, srcfile, ctx.blob("later", 3), how)
    if ctx.flag("gone"):
        srcfile.unlink()
    rec = read_revs(repo.path)
    ctx.check(set(rec) == set(want), "exactly the kept revisions are there")
    for i, (u, data) in enumerate(sorted(want.items())):
        src = mk(env, repo)
        target = env.tmp / f"target-{u}"
        if ctx.params.get("targets") and ctx.flag(f"exists{i}"):
            put(ctx, target, ctx.blob("junk", 77))
        src.restore(
            repo.find_by_uuid(u),
            src.restore_type.from_args(target=pathlib.Path(target), foo=1),
        )
        ctx.check(
            blob_eq(ctx, get(ctx, target), data),
            "a restore yields the content at backup time",
        )
        ctx.cover("restored")


def others(repo):
    """Files that are no revision metadata: name -> identity and content"""
    r = {}
    for d, _, fs in os.walk(repo.path):
        for f in fs:
            p = os.path.join(d, f)
            if not (f.endswith(".rev") or f in (".backup", ".purge")):
                st = os.lstat(p)
                r[os.path.relpath(p, repo.path)] = (
                    st.st_ino, st.st_size,
                    os.readlink(p) if os.path.islink(p)
                    else open(p, "rb").read(),
                )
    return r


def collect(ctx, env):
    """Collection among whatever else is in the directory."""
    P = ctx.params
    big = len(P["any"]) > 1
    repo = mk_repo(env.tmp / "repo")
    path = repo.path
    known = ["u0", "u1"]
    for i, u in enumerate(known):
        write_rev(
            path, u, D0 + dt.timedelta(i),
            complete=ctx.flag(f"complete{i}") if i in P["any"] else True,
            trust=ctx.choice(f"trust{i}", P["trust"]),
            server=ctx.choice(f"server{i}", P["servers"])
            if not i or i in P["any"] else "",
        )
        if ctx.flag(f"data{i}"):
            (path / u).write_text(f"data of {u}")
    there = False
    for i, name in enumerate(P["names"]):
        if there or ctx.flag(f"there{i}"):
            there = not big
            p = path / name
            p.parent.mkdir(exist_ok=True)
            p.write_text(f"content of {name}")
    if (path / "config").exists():
        os.symlink("u1", path / "last")
    repo.scan()
    src = mk(env, repo)
    k = ctx.choice("removed", [None, "u1"])
    if k:
        repo.find_by_uuid(k).remove(force=True)
    if ctx.flag("seen before"):
        repo.scan()
    late = ctx.flag("late")
    if late:
        # by another process
        write_rev(path, "u2", D0 + dt.timedelta(5))
        (path / "u2").write_text("data of u2")
    had = others(repo)
    src.gc()
    ctx.check(
        set(read_revs(path)) - {"u2"} == {u for u in known if u != k},
        "garbage collection keeps known revisions",
    )
    ctx.check(
        others(repo) == had, "garbage collection removes metadata only"
    )
    ctx.cover("end")


def verify(ctx, env):
    repo = mk_repo(env.tmp / "repo")
    t = increasing(ctx, 2)
    for i in range(2):
        put(ctx, env.tmp / "source", ctx.blob(f"data{i}", 5))
        mk(env, repo).backup(new_rev(repo, f"u{i}", t[i]))
        repo.scan()
    lost = [ctx.flag(f"lost{i}") for i in range(2)]
    for i in range(2):
        if lost[i]:
            (repo.path / f"u{i}").unlink()
    before = read_revs(repo.path)
    k = ctx.pick("k", 2)
    try:
        mk(env, repo).verify(repo.find_by_uuid(f"u{k}"))
        ok = True
    except AssertionError:
        ok = False
    ctx.check(ok == (not lost[k]), "verification fails iff data is missing")
    ctx.check(read_revs(repo.path) == before, "metadata is kept")
    ctx.cover("ok" if ok else "failed")
    # a backup never overwrites existing data
    put(ctx, env.tmp / "source", ctx.blob("more", 5))
    try:
        mk(env, repo).backup(repo.find_by_uuid(f"u{k}"))
        again = True
    except AssertionError:
        again = False
    ctx.check(again == lost[k], "existing data is not overwritten")


def scenarios(tier):
    steps = ["none", "remove", "gc", "stale", "remote"]
    r = [
        Scenario(
            "history",
            history,
            "2 backups of a file changed in place or replaced, with removal "
            "or garbage collection in between; restores to new or existing "
            "targets",
            dict(backups=2, lens=[0, 5], steps=steps, targets=True),
            ["restored"],
        ),
        Scenario(
            "verify",
            verify,
            "2 revisions with or without their data",
            {},
            ["ok", "failed"],
        ),
        Scenario(
            "collect",
            collect,
            "2 revisions in any state, with or without data, among other "
            "files, some of which appear late",
            dict(
                names=["config", "backy.log", "quarantine/x.report"]
                + (["README", "last.rev.bak"] if tier == "thorough" else []),
                trust=["trusted"] if tier == "quick"
                else ["trusted", "distrusted", "verified"],
                servers=["", "s1"],
                any=[1] if tier == "quick" else [0, 1],
            ),
            ["end"],
        ),
    ]
    if tier == "thorough":
        r.append(
            Scenario(
                "history3",
                history,
                "3 backups",
                dict(backups=3, lens=[5], steps=steps),
                ["restored"],
            )
        )
    return r
