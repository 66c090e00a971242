"""C07: choice of the parent of a differential backup."""

from sx.scenario import Scenario
from sx.symbytes import blob_eq

from .common import *
from .rbdutil import *

ASSUMPTIONS = RBD_ASSUMPTIONS + [
    "incomplete revisions were cleared before the backup (C28), so all older "
    "revisions are complete",
    "revisions have pairwise different timestamps",
]


def parent(ctx, env):
    attributes(ctx, env)
    env.chunks()
    P = ctx.params
    n = P["revs"]
    path = env.tmp / "repo"
    path.mkdir()
    ceph = Ceph(env, head=ctx.blob("head", 12))
    always = ctx.flag("always_full")
    t = []
    for i in range(n):
        ti = ctx.dt(f"t{i}", D0, D1)
        for o in t:
            if P.get("ordered"):
                ctx.assume(ti > o)
            else:
                ctx.assume(ti != o)
        t.append(ti)
    repo = mk_repo(path)
    revs = []
    for i in range(n):
        if P.get("kinds"):
            k = ctx.choice(f"kind{i}", P["kinds"])
            server = "s1" if k == "remote" else ""
            trust = "distrusted" if k == "distrusted" else "trusted"
            snap = k != "nosnap"
        else:
            server = ctx.choice(f"server{i}", ["", "s1"])
            trust = ctx.choice(
                f"trust{i}", ["trusted", "distrusted", "verified"]
            )
            snap = ctx.flag(f"snap{i}")
        revs.append((t[i], server, trust, snap))
        write_rev(path, f"u{i}", t[i], ["a"], server=server, trust=trust)
        c = ctx.blob(f"old{i}", 10 + i)
        if not server:
            write_image(env, repo, f"u{i}", c)
        if snap:
            ceph.snaps.append(Snap(f"backy-u{i}", c))
    now = ctx.dt("now", D0, D1)
    for o in t:
        ctx.assume(now != o)
    repo.scan()
    r = new_rev(repo, "new", now)
    src = mk_source(repo, **{"full-always": always})
    # reference
    want = None
    for i in range(n):
        ts, server, trust, snap = revs[i]
        if server or trust == "distrusted" or not snap or not (ts < now):
            continue
        if want is None or ts > revs[want][0]:
            want = i
    if always:
        want = None
    ok = src.backup(r)
    full = [c for c in ceph.calls if c[0] == "export"]
    diff = [c for c in ceph.calls if c[0] == "export-diff"]
    if want is None:
        ctx.cover("full")
        ctx.check(bool(full) and not diff, "no usable parent: full backup")
    else:
        ctx.cover("diff")
        ctx.check(
            not full and len(diff) == 1, "usable parent: differential backup"
        )
        if diff:
            ctx.check(
                diff[0][2] == f"backy-u{want}",
                "based on the latest usable parent",
            )
    ctx.check(bool(ok), "backup succeeds")
    ctx.check(
        blob_eq(ctx, read_image(env, repo, "new"), ceph.head),
        "the new revision has the snapshot's content",
    )


def scenarios(tier):
    kinds = ["ok", "remote", "distrusted", "nosnap"]
    r = [
        Scenario(
            "two",
            parent,
            "2 older or newer revisions in any order, any server, trust, "
            "snapshot present or not",
            dict(revs=2),
            ["full", "diff"],
        ),
        Scenario(
            "three",
            parent,
            "3 revisions with the new one anywhere between; each usable, "
            "remote, distrusted or without snapshot",
            dict(revs=3, kinds=kinds, ordered=True),
            ["full", "diff"],
        ),
    ]
    r.append(
        Scenario(
            "attributes", parent,
            "2 revisions with other tags and statistics",
            dict(revs=2, kinds=["ok", "distrusted", "remote"], ordered=True,
                 attrs=["untagged", "manual", "many", "stats", "slow", "instant", "verified"]),
            ["full", "diff", "attributes"],
            path_s=120,
        )
    )
    if tier == "thorough":
        r.append(
            Scenario(
                "four",
                parent,
                "4 revisions, the new one anywhere between",
                dict(revs=4, kinds=kinds, ordered=True),
                ["full", "diff"],
            )
        )
    return r
