"""C10: distrust makes the next backup rewrite its chunks."""

import os

from sx.env import LOG
from sx.scenario import Scenario
from sx.symbytes import blob_eq

from .common import *
from .chunkutil import *
from .rbdutil import *

ASSUMPTIONS = RBD_ASSUMPTIONS + chunk_assumptions + [
    "every local revision has an image",
]

KINDS = {
    "ok": dict(),
    "ver": dict(trust="verified"),
    "dis": dict(trust="distrusted"),
    "disinc": dict(trust="distrusted", complete=False),
    "disrem": dict(trust="distrusted", server="s1"),
}


def ident(env, path):
    return {
        h: (os.stat(p).st_ino, os.stat(p).st_mtime_ns)
        for h, p in store_files(env, path / "chunks").items()
    }


def backup(ctx, env):
    """A backup whose chunks are stored (and maybe damaged) already."""
    attributes(ctx, env)
    env.chunks()
    P = ctx.params
    path = env.tmp / "repo"
    path.mkdir()
    A, B = ctx.blob("A", CS), ctx.blob("B", ctx.int("nb", 1, CS))
    mode = ctx.choice("mode", P["modes"])
    pos = 0
    if mode == "full":
        head = A + B
    else:
        # one chunk of the parent is replaced by the stored chunk A, which may
        # be what the parent has there
        head = A + B
        base = head if mode == "same" else ctx.blob("C", CS) + B
    ceph = Ceph(env, head=head)
    repo = mk_repo(path)
    t = []
    kinds = []
    for i, ks in enumerate(P["revs"]):
        k = ctx.choice(f"kind{i}", ks)
        kinds.append(k)
        ti = ctx.dt(f"t{i}", D0, D1)
        for o in t:
            ctx.assume(ti != o)
        t.append(ti)
        write_rev(path, f"u{i}", ti, ["a"], **KINDS[k])
        write_image(env, repo, f"u{i}", A + B if i == 0 else A)
    if mode != "full":
        tb = ctx.dt("tb", D0, D1)
        for o in t:
            ctx.assume(tb > o)
        write_rev(path, "base", tb, ["a"])
        write_image(env, repo, "base", base)
        ceph.snaps.append(Snap("backy-base", base))

        def diff(c, o, n):
            s = HEADER + record(ctx, "f", o.name) + record(ctx, "t", n.name)
            s = s + record(ctx, "s", size_of(ctx, n.content))
            return s + record(ctx, "w", 0, A) + record(ctx, "e")

        ceph.diff = diff
    now = ctx.dt("now", D0, D1)
    for o in t:
        ctx.assume(now > o)
    if mode != "full":
        ctx.assume(now > tb)
    repo.scan()
    r = new_rev(repo, "new", now)
    src = mk_source(repo)
    files = store_files(env, path / "chunks")
    ha, hb = mapping(path / "u0")[0], mapping(path / "u0")[1]
    kind = ctx.choice("damage", P["damages"])
    if kind != "none":
        damage(ctx, files[ha], kind, ctx.blob("other", 5))
    # the daemon's process may have looked before the distrust
    before = ident(env, path)
    forced = any(k == "dis" for k in kinds)
    res = src.backup(r)
    after = ident(env, path)
    if not forced:
        ctx.cover("not forced")
        if kind == "none":
            ctx.check(bool(res), "the backup succeeds")
            ctx.check(
                all(after.get(h) == before[h] for h in (ha, hb)),
                "stored chunks are used as they are",
            )
        return
    ctx.cover("forced")
    ctx.check(bool(res), "the backup succeeds")
    written = [ha] if mode != "full" else [ha, hb]
    for h in written:
        ctx.check(
            h in after and after[h] != before.get(h),
            "every written chunk is stored anew",
        )
        c = stored(ctx, store_files(env, path / "chunks")[h])
        ctx.check(
            c is not None and hash_of(c) == h, "the stored chunk is intact"
        )
    ctx.check(
        blob_eq(ctx, read_image(env, repo, "new"), head),
        "the new revision can be read",
    )
    # the newest distrusted one was verified
    newest = None
    for i, k in enumerate(kinds):
        if k == "dis" and (newest is None or t[i] > t[newest]):
            newest = i
    revs = read_revs(path)
    for i, k in enumerate(kinds):
        want = KINDS[k].get("trust", "trusted")
        got = revs.get(f"u{i}", {}).get("trust")
        if i == newest:
            ctx.check(
                got == "verified", "the newest distrusted one is verified"
            )
        else:
            ctx.check(got == want, "others keep their trust state")


def distrust(ctx, env):
    """The distrust command."""
    attributes(ctx, env)
    import backy.cli

    P = ctx.params
    path = env.tmp / "repo"
    path.mkdir()
    n = P["n"]
    t = increasing(ctx, n)
    for i in range(n):
        write_rev(
            path, f"u{i}", t[i], ["a"],
            server=ctx.choice(f"server{i}", ["", "s1"]),
            trust=ctx.choice(f"trust{i}", ["trusted", "verified"]),
            complete=ctx.flag(f"complete{i}"),
        )
    before = read_revs(path)
    spec = ctx.choice(
        "spec",
        ["local", "u0", "first", "last", "u0,u1", "clean&local", "all",
         "not(u0)"],
    )
    uu = [f"u{i}" for i in range(n)]
    loc = [u for u in uu if not before[u]["server"]]
    clean = [u for u in uu if "duration" in before[u]["stats"]]
    sel = {
        "local": loc, "u0": ["u0"], "first": ["u0"], "last": [uu[-1]],
        "u0,u1": ["u0", "u1"], "all": uu, "not(u0)": uu[1:],
        "clean&local": [u for u in loc if u in clean],
    }[spec]
    repo = mk_repo(path)
    cmd = backy.cli.Command(path, env.tmp / "c", False, None, LOG)
    try:
        cmd.distrust(repo, spec)
        ok = True
    except Exception:
        ok = False
    except AssertionError:
        ok = False
    after = read_revs(path)
    ctx.check(set(after) == set(before), "no revision appears or disappears")
    remote = [u for u in sel if u not in loc]
    ctx.check(
        ok == (not remote), "remote revisions are refused, others accepted"
    )
    for u in uu:
        a, b = plain(after[u]), plain(before[u])
        if u in sel and u in loc:
            if ok:
                ctx.check(a["trust"] == "distrusted", "selected: distrusted")
                ctx.cover("distrusted")
            a["trust"] = b["trust"]
        ctx.check(a == b, "nothing else changes")


def scenarios(tier):
    r = [
        Scenario(
            "backup",
            backup,
            "full or differential backup; two older revisions of any kind "
            "and order, the stored chunk intact or damaged in any way",
            dict(
                revs=[["ok", "dis"], list(KINDS)], modes=["full", "diff", "same"],
                damages=["none", "missing", "garbage", "other"],
            ),
            ["forced", "not forced"],
        ),
        Scenario(
            "distrust",
            distrust,
            "distrust command with several specifiers on 2 revisions of any "
            "kind",
            dict(n=2),
            ["distrusted"],
        ),
    ]
    r.append(
        Scenario(
            "attributes", backup,
            "revisions with other tags and statistics",
            dict(revs=[["ok", "dis"]], modes=["full", "diff"],
                 damages=["garbage", "other"],
                 attrs=["untagged", "manual", "many", "stats", "slow", "instant"]),
            ["forced", "not forced", "attributes"],
            path_s=120,
        )
    )
    r.append(
        Scenario(
            "distrust-attributes", distrust,
            "2 revisions with other tags and statistics",
            dict(n=2,
                 attrs=["untagged", "manual", "many", "stats", "slow", "instant"]),
            ["distrusted", "attributes"],
            path_s=120,
        )
    )
    if tier != "quick":
        r += [
            Scenario(
                "backup-three",
                backup,
                "three older revisions, any damage",
                dict(
                    revs=[["ok", "dis"], list(KINDS), ["dis", "ver"]],
                    modes=["full", "diff", "same"], damages=["none"] + DAMAGES,
                ),
                ["forced", "not forced"],
            ),
            Scenario(
                "distrust-three",
                distrust,
                "three revisions",
                dict(n=3),
                ["distrusted"],
            ),
        ]
    return r
