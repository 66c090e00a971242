"""C09: verification of revisions."""

import os

from sx.scenario import Scenario
from sx.symbytes import blob_eq

from .common import *
from .chunkutil import *
from .rbdutil import *

ASSUMPTIONS = RBD_ASSUMPTIONS + chunk_assumptions + [
    "every local revision has an image",
]


def verify(ctx, env):
    """One revision is verified among others that share chunks with it."""
    attributes(ctx, env)
    env.chunks()
    P = ctx.params
    path = env.tmp / "repo"
    path.mkdir()
    Ceph(env)
    repo = mk_repo(path)
    A, B = ctx.blob("A", CS), ctx.blob("B", CS)
    own = ctx.blob("own", ctx.int("n", 1, CS))
    images = {"target": A + B + own}
    trust = ctx.choice("trust", ["trusted", "distrusted", "verified"])
    kind = {}
    write_rev(path, "target", D0 + hours(5), ["a"], trust=trust,
              complete=not (P.get("inc") and ctx.flag("incomplete")))
    # others, before and after it
    kinds = {
        "ver": dict(trust="verified"),
        "verinc": dict(trust="verified", complete=False),
        "verrem": dict(trust="verified", server="s1"),
        "ok": dict(trust="trusted"),
        "dis": dict(trust="distrusted"),
    }
    for i, t in enumerate(P["others"]):
        k = ctx.choice(f"kind{i}", t)
        u = f"u{i}"
        kind[u] = k
        share = ctx.choice(f"share{i}", P["share"])
        images[u] = {"A": A, "B": B, "AB": A + B, "-": b""}[share] + ctx.blob(
            f"own{i}", 10
        )
        write_rev(path, u, D0 + hours(9 * i), ["a"], **kinds[k])
    for u, c in images.items():
        write_image(env, repo, u, c)
    # left over from something removed before
    write_image(env, repo, "gone", ctx.blob("junk", 100))
    junk = set(mapping(path / "gone").values())
    os.unlink(path / "gone")
    repo.scan()
    src = mk_source(repo)
    bad = ctx.choice("bad", ["none", 0, 1, 2])
    h = None
    files = store_files(env, path / "chunks")
    if bad != "none":
        h = mapping(path / "target")[bad]
        damage(
            ctx, files[h], ctx.choice("damage", P["damages"]),
            ctx.blob("other", 5),
        )
    if trust == "verified" and not P.get("again"):
        ctx.assume(False)
    before = read_revs(path)
    raw = {
        x: open(p, "rb").read()
        for x, p in store_files(env, path / "chunks").items()
    }
    trusted = set()
    for u, k in kind.items():
        if k == "ver":
            trusted |= set(mapping(path / u).values())
    if trust == "verified" and "duration" in before["target"]["stats"]:
        trusted |= set(mapping(path / "target").values())
    maps = {u: mapping(path / u) for u in images}
    try:
        src.verify(repo.find_by_uuid("target"))
        ok = True
    except Exception:
        ok = False
    ctx.check(ok, "verification ends normally")
    after = read_revs(path)
    fail = h is not None and h not in trusted
    for u in kind:
        ctx.check(after.get(u) == before[u], "other revisions stay the same")
    stored_now = store_files(env, path / "chunks")
    if fail:
        ctx.cover("removed")
        ctx.check("target" not in after, "the damaged revision is removed")
        ctx.check(h not in stored_now, "the damaged chunk is not stored")
    else:
        ctx.cover("verified")
        ctx.check("target" in after, "an intact revision is kept")
        ctx.check(
            after.get("target", {}).get("trust") == "verified",
            "an intact revision is marked verified",
        )
        ctx.check(
            plain(after.get("target", {}), trust=trust)
            == plain(before["target"]),
            "nothing else changes",
        )
    needed = set()
    for u in images:
        if u in after and not after[u]["server"]:
            needed |= set(maps[u].values())
    for x in needed:
        if x == h:
            continue
        ctx.check(
            x in stored_now and open(stored_now[x], "rb").read() == raw[x],
            "intact chunks of the remaining revisions are kept",
        )
    ctx.check(
        not any(x in stored_now for x in junk), "unused chunks are removed"
    )
    for u, c in images.items():
        if (u in after and not after[u]["server"]
                and h not in maps[u].values()):
            ctx.check(
                blob_eq(ctx, read_image(env, repo, u), c),
                "the remaining revisions can be read",
            )


def scenarios(tier):
    k = ["ver", "verinc", "verrem", "ok", "dis"]
    r = [
        Scenario(
            "one-other",
            verify,
            "a revision of 3 chunks, one of them (or none) damaged in any of "
            "7 ways, and one other revision of any kind sharing chunks",
            dict(others=[k], share=["A", "-"], damages=DAMAGES),
            ["removed", "verified"],
        ),
        Scenario(
            "two-others",
            verify,
            "two other revisions of any kind, one older and one newer",
            dict(others=[["ver", "verinc", "verrem"], ["ver", "ok", "dis"]],
                 share=["A", "B"], damages=["missing", "other"]),
            ["removed", "verified"],
        ),
        Scenario(
            "again",
            verify,
            "also revisions that are verified already or incomplete",
            dict(others=[["ver", "ok"]], share=["AB"], inc=True, again=True,
                 damages=["other", "torn"]),
            ["removed", "verified"],
        ),
    ]
    r.append(
        Scenario(
            "attributes", verify,
            "revisions with other tags and statistics",
            dict(others=[["ver", "ok"]], share=["A"],
                 damages=["missing", "other"],
                 attrs=["untagged", "manual", "many", "stats", "slow", "instant"]),
            ["removed", "verified", "attributes"],
            path_s=120,
        )
    )
    if tier != "quick":
        r.append(
            Scenario(
                "three-others",
                verify,
                "three others",
                dict(others=[k, ["ver", "ok"], k], share=["A", "B"],
                     damages=["missing", "other"]),
                ["removed", "verified"],
            )
        )
    return r
