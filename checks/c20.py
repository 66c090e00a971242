"""C20: revision metadata."""

import os

from sx.scenario import Scenario

from .common import *

ASSUMPTIONS = [
    "symbolic tags and server names are YAML texts of arbitrary content "
    "(quoting by the YAML library is exercised with a list of awkward texts "
    "only)",
    "revisions have pairwise different timestamps",
]

AWKWARD = ["daily", "", "1", "yes", "null", "2020-01-01", "a: b", "- x", "ü",
           "# c", "'", "manual:x", "1e3", "~", "a\nb", " x "]


def mk(ctx, repo, i=0):
    import backy.revision
    from backy.revision import Trust

    r = backy.revision.Revision.create(repo, set(), LOG, uuid=f"u{i}")
    r.timestamp = ctx.dt(f"ts{i}", D0, D1)
    r.trust = ctx.choice(
        f"trust{i}", [Trust.TRUSTED, Trust.DISTRUSTED, Trust.VERIFIED]
    )
    return r


def same(ctx, a, b, msg):
    ctx.check(a.uuid == b.uuid, msg + ": uuid")
    ctx.check(a.timestamp == b.timestamp, msg + ": timestamp")
    ctx.check(a.trust == b.trust, msg + ": trust")
    ctx.check(set(a.tags) == set(b.tags), msg + ": tags")
    ctx.check(set(a.orig_tags) == set(b.orig_tags), msg + ": original tags")
    ctx.check(a.server == b.server, msg + ": server")
    ctx.check(a.stats == b.stats, msg + ": statistics")


def roundtrip(ctx, env):
    import backy.revision

    repo = mk_repo(env.tmp)
    r = mk(ctx, repo)
    P = ctx.params
    if P["text"] == "symbolic":
        r.tags = {ctx.str(f"tag{i}") for i in range(P["tags"])}
        r.orig_tags = {ctx.str(f"orig{i}") for i in range(P["tags"])}
        r.server = ctx.str("server")
    else:
        r.tags = {ctx.choice("tag", AWKWARD)}
        r.orig_tags = ctx.choice("orig", [set(), {"a", "b"}])
        r.server = ctx.choice("server", AWKWARD)
    r.stats = {"bytes_written": ctx.int("bytes", 0)}
    if ctx.flag("complete"):
        r.stats["duration"] = ctx.real("duration", 0, 100000)
    if ctx.flag("verified"):
        r.stats["ceph-verification"] = "partial"
    how = ctx.choice("how", ["write_info", "materialize"])
    getattr(r, how)()
    repo.scan()
    ctx.check(len(repo.history) == 1, "one revision")
    same(ctx, repo.history[0], r, "rescan")
    same(ctx, repo.find_by_uuid("u0"), r, "by uuid")
    l = backy.revision.Revision.load(r.info_filename, repo, LOG)
    same(ctx, l, r, "load")
    # and again: nothing changes
    l.write_info()
    repo.scan()
    same(ctx, repo.history[0], r, "second rewrite")
    ctx.check(sorted(os.listdir(env.tmp)) == ["quarantine", "u0.rev"],
              "no other file appears")
    ctx.cover("end")


def listing(ctx, env):
    """Scanning a directory."""
    n = ctx.params["revs"]
    perm = ctx.params.get("server")
    ts = []
    for i in range(n):
        t = ctx.dt(f"t{i}", D0, D1)
        for o in ts:
            ctx.assume(t != o)
        ts.append(t)
        write_rev(env.tmp, f"u{i}", t, ["a"],
                  server=ctx.choice(f"srv{i}", ["", "s1"]) if perm else "",
                  complete=ctx.flag(f"c{i}"))
    junk = ctx.choice(
        "junk", ["none", "symlink", "dangling", "foreign", "tmp", "data"])
    if junk == "symlink":
        os.symlink("u0.rev", env.tmp / "last.rev")
    elif junk == "dangling":
        os.symlink("gone.rev", env.tmp / "old.rev")
    elif junk == "foreign":
        (env.tmp / "other").mkdir()
        write_rev(env.tmp / "other", "x", ts[0])
        os.symlink("other/x.rev", env.tmp / "x.rev")
    elif junk == "tmp":
        (env.tmp / "tmpabcdef").write_text("half a revisi")
    elif junk == "data":
        (env.tmp / "u0").write_text("data")
    before = set(os.listdir(env.tmp))
    repo = mk_repo(env.tmp)

    def check(gone, what):
        want = [i for i in range(n) if i not in gone]
        got = [r.uuid for r in repo.history]
        ctx.check(sorted(got) == [f"u{i}" for i in want],
                  f"{what}: every revision exactly once")
        h = repo.history
        for a, b in zip(h, h[1:]):
            ctx.check(a.timestamp < b.timestamp, f"{what}: oldest first")

    check([], "scan")
    repo.scan()
    check([], "second scan")
    k = ctx.pick("k", n)
    r = repo.find_by_uuid(f"u{k}")
    force = ctx.flag("force")
    remote = bool(r.server)
    r.remove(force=force)
    gone = [k] if force or not remote else []
    check(gone, "after removal")
    repo.scan()
    check(gone, "scan after removal")
    after = set(os.listdir(env.tmp)) - {"quarantine"}
    ctx.check(after == before - {f"u{i}.rev" for i in gone},
              "only that revision's metadata is removed")
    if not gone:
        ctx.cover("remote")
        ctx.check(set(repo.find_by_uuid(f"u{k}").tags) == set(),
                  "a removed remote revision has no tags")
    ctx.cover("end")


def parent(ctx, env):
    """Loading a revision of an older version or of another server."""
    import backy.revision

    repo = mk_repo(env.tmp)
    t = ctx.dt("t", D0, D1)
    d = {"uuid": "u0", "timestamp": t}
    for k, v in [("stats", {"bytes_written": 3}), ("tags", ["a"]),
                 ("orig_tags", ["b"]), ("server", "s"), ("parent", "x"),
                 ("trust", "verified")]:
        if ctx.flag("has-" + k):
            d[k] = v
    import yaml

    with open(env.tmp / "u0.rev", "w") as f:
        yaml.safe_dump(d, f)
    repo.scan()
    r = repo.find_by_uuid("u0")
    ctx.check(r.timestamp == t, "timestamp")
    ctx.check(set(r.tags) == set(d.get("tags", [])), "tags")
    ctx.check(set(r.orig_tags) == set(d.get("orig_tags", [])), "orig_tags")
    ctx.check(r.server == d.get("server", ""), "server")
    ctx.check(r.trust.value == d.get("trust", "trusted"), "trust")
    ctx.check(r.stats == d.get("stats", {}), "stats")
    ctx.cover("end")


def scenarios(tier):
    r = [
        Scenario(
            "roundtrip",
            roundtrip,
            "any timestamp, trust, statistics, two tags and original tags and "
            "a server of up to 8 arbitrary characters",
            dict(text="symbolic", tags=2),
            ["end"],
        ),
        Scenario(
            "awkward-texts",
            roundtrip,
            f"tag and server among {AWKWARD}",
            dict(text="awkward"),
            ["end"],
        ),
        Scenario(
            "listing",
            listing,
            "3 revisions with any timestamps, complete or not; other files "
            "and links in the directory; removal of any one",
            dict(revs=3),
            ["end"],
        ),
        Scenario(
            "listing-remote",
            listing,
            "2 revisions of any server; removal of any one",
            dict(revs=2, server=True),
            ["end", "remote"],
        ),
        Scenario("old-format", parent, "any fields missing", {}, ["end"]),
    ]
    if tier == "thorough":
        r.append(
            Scenario(
                "listing-4",
                listing,
                "4 revisions of any server",
                dict(revs=4, server=True),
                ["end", "remote"],
            )
        )
    return r
