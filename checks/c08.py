"""C08: snapshot cleanup after a backup."""

import subprocess

from sx.scenario import Scenario

from .common import *
from .rbdutil import *

ASSUMPTIONS = RBD_ASSUMPTIONS + [
    "snapshots made by backy are called backy-<revision>, where the revision "
    "ID does not contain 'backy-'",
]


# names that resemble backy's, next to the free ones of the other scenarios
FIXED = [
    "backy-u0", "backy-gone", "x-backy-u0", "old-backy-gone", "backy",
    "backy_u0", "Backy-u0", "u0", "new", "xbacky-new",
]


def cleanup(ctx, env):
    """A run on an image with arbitrary other snapshots."""
    attributes(ctx, env)
    env.chunks()
    P = ctx.params
    path = env.tmp / "repo"
    path.mkdir()
    ceph = Ceph(env, head=b"")
    always = ctx.flag("always_full")
    n = P["revs"]
    t = []
    for i in range(n):
        ti = ctx.dt(f"t{i}", D0, D1)
        for o in t:
            ctx.assume(ti != o)
        t.append(ti)
    repo = mk_repo(path)
    server = []
    for i in range(n):
        server.append(ctx.choice(f"server{i}", ["", "s1"]))
        write_rev(path, f"u{i}", t[i], ["a"], server=server[i])
        if not server[i]:
            write_image(env, repo, f"u{i}", b"")
    now = ctx.dt("now", D0, D1)
    for o in t:
        ctx.assume(now != o)
    repo.scan()
    r = new_rev(repo, "new", now)
    names = []
    for i in range(P["snaps"]):
        if P.get("fixed"):
            nm = ctx.choice(f"name{i}", FIXED)
            ctx.assume(nm not in names)
            names.append(nm)
            ceph.snaps.append(Snap(nm, b""))
            continue
        nm = ctx.str(f"name{i}", 10)
        ctx.assume(neg(ctx, is_(ctx, nm, "backy-new")))
        if ctx.symbolic:
            import z3

            ctx.assume(z3.And(nm.e != "", z3.Not(z3.Contains(nm.e, "@"))))
            rest = z3.SubString(nm.e, 1, z3.Length(nm.e))
            ctx.assume(z3.Not(z3.Contains(rest, "backy-")))
            for o in names:
                ctx.assume(nm.e != o.e)
        names.append(nm)
        ceph.snaps.append(Snap(nm, b""))
    stuck = [ctx.flag(f"stuck{i}") for i in range(P["snaps"])]
    err = ctx.choice("err", [
        subprocess.CalledProcessError(16, "rbd"), OSError("x"),
    ]) if any(stuck) else None
    # the step of the backup in which it fails, if at all
    fail = ctx.choice("fail", P["fail"])
    src = mk_source(repo, **{"full-always": always})

    def fault(kind, arg):
        if kind == fail:
            return OSError("failure")
        if kind == "rm":
            nm = ceph.snapname(arg)
            for i in range(P["snaps"]):
                if stuck[i] and names[i] == nm:
                    return err
        return None

    ceph.fault = fault
    try:
        src.backup(r)
        ctx.cover("done")
    except OSError:
        ctx.check(fail != "no", "the run fails only if a step fails")
        ctx.cover("failed")
    # reference
    newest = "new"
    tn = now
    for i in range(n):
        if not server[i] and t[i] > tn:
            newest, tn = f"u{i}", t[i]
    left = ceph.names()

    def there(x):
        return disj(ctx, False, *[is_(ctx, y, x) for y in left])

    for i in range(P["snaps"]):
        nm = names[i]
        if ctx.symbolic and not P.get("fixed"):
            import z3

            made = z3.PrefixOf(z3.StringVal("backy-"), nm.e)
        else:
            made = nm.startswith("backy-")
        keep = disj(
            ctx,
            neg(ctx, made),
            stuck[i],
            conj(ctx, not always, is_(ctx, nm, "backy-" + newest)),
        )
        ctx.check(
            iff(ctx, there(nm), keep),
            "exactly the outdated backy snapshots are removed",
        )
    ctx.check(
        iff(ctx, there("backy-new"), not always and newest == "new"),
        "the own snapshot is kept as base of the next backup",
    )
    ctx.check(
        len(left) <= P["snaps"] + 1, "no further snapshot appears"
    )


def is_(ctx, a, b):
    """equality of texts as an obligation"""
    if ctx.symbolic:
        from sx.proxies import SymBool, zstr

        return SymBool(ctx, zstr(a) == zstr(b))
    return a == b


def scenarios(tier):
    r = [
        Scenario(
            "names",
            cleanup,
            "one other snapshot with any name up to 10 characters, 1 other "
            "revision of any server before or after; failing removals",
            dict(revs=1, snaps=1, fail=["no", "export", "map"]),
            ["done", "failed"],
        ),
        Scenario(
            "two-names",
            cleanup,
            "two other snapshots with any names, no other revision",
            dict(revs=0, snaps=2, fail=["no"]),
            ["done"],
        ),
        Scenario(
            "revs",
            cleanup,
            "2 other revisions of any server in any order",
            dict(revs=2, snaps=1, fail=["no"]),
            ["done"],
        ),
    ]
    r.append(
        Scenario(
            "resembling",
            cleanup,
            "two other snapshots out of 10 names which resemble those of "
            "backy, 1 other revision",
            dict(revs=1, snaps=2, fail=["no"], fixed=True),
            ["done"],
        )
    )
    r.append(
        Scenario(
            "attributes", cleanup,
            "1 other revision with other tags and statistics",
            dict(revs=1, snaps=1, fail=["no"], fixed=True,
                 attrs=["untagged", "manual", "instant"]),
            ["done", "attributes"],
            path_s=120,
        )
    )
    if tier == "thorough":
        r.append(
            Scenario(
                "more",
                cleanup,
                "2 other revisions, 2 other snapshots",
                dict(revs=2, snaps=2, fail=["no", "export", "unmap"]),
                ["done"],
            )
        )
    return r
