"""C06: a backup is complete only if it was stored and checked."""

import os
import subprocess

import yaml

from sx.env import LOG
from sx.scenario import Scenario
from sx.symbytes import blob_eq

from .common import *
from .chunkutil import CS, chunk_assumptions, damage, mapping, mk_store
from .chunkutil import open_image, store_files
from .rbdutil import *

ASSUMPTIONS = RBD_ASSUMPTIONS + chunk_assumptions + [
    "random.sample may return any distinct elements",
    "faults are failing rbd commands, failing renames and failing fsync "
    "calls up to the point where the revision is marked complete",
]


def recorded(path, uuid):
    """absent, incomplete or complete"""
    d = read_revs(path).get(uuid)
    if d is None:
        return "absent"
    return "complete" if "duration" in d["stats"] else "incomplete"


def reports(path):
    return [
        n for n in os.listdir(path / "quarantine") if n.endswith(".report")
    ]


def setup(ctx, env, head, base=None, extra=()):
    """Repository with a base revision (if any) and a fresh one."""
    path = env.tmp / "repo"
    path.mkdir()
    ceph = Ceph(env, head=head)
    repo = mk_repo(path)
    if base is not None:
        write_rev(path, "base", D0, ["a"])
        write_image(env, repo, "base", base)
        ceph.snaps.append(Snap("backy-base", base))
    for u, kw in extra:
        write_rev(path, u, D0 - hours(5), ["a"], **kw)
    repo.scan()
    r = new_rev(repo, "new", D0 + hours(2))
    return path, ceph, repo, r


def judge(ctx, env, path, repo, result, content):
    """Reported success and completeness have to agree."""
    state = recorded(path, "new")
    if result is True:
        ctx.check(state == "complete", "a successful run completes")
        ctx.check(
            blob_eq(ctx, read_image(env, repo, "new"), content),
            "a complete revision has the content of the snapshot",
        )
        ctx.cover("complete")
    else:
        ctx.check(state != "complete", "a failed run is not complete")
        if result is False:
            ctx.check(
                state == "absent", "a revision that is not right is removed"
            )
            ctx.cover("removed")
        else:
            ctx.cover("failed")


def run(src, r):
    try:
        res = src.backup(r)
    except Exception as e:
        return e
    return bool(res)


def faults(ctx, env):
    """One step fails."""
    env.chunks()
    P = ctx.params
    base = ctx.blob("base", 100) if ctx.flag("base") else None
    head = ctx.blob("head", ctx.int("n", 1, P["size"]))
    path, ceph, repo, r = setup(ctx, env, head, base)
    src = mk_source(repo)
    where = ctx.choice("where", ["rbd", "rename", "fsync", "write", "none"])
    at = ctx.pick("at", P["steps"]) if where != "none" else 0
    n = [0]
    err = ctx.choice(
        "err",
        [subprocess.CalledProcessError(1, "rbd"),
         subprocess.CalledProcessError(2, "rbd"),
         OSError(5, "Input/output error"), TimeoutError("x")]
        if where == "rbd" else [OSError(28, "No space left on device")],
    )
    hit = []

    def step(x=None):
        n[0] += 1
        if n[0] == at + 1:
            hit.append(x)
            return err
        return None

    if where == "rbd":
        ceph.fault = lambda kind, arg: step(kind)
    elif where in ("rename", "fsync"):
        for name in {"rename": ("rename", "replace"), "fsync": (
                "fsync", "fdatasync")}[where]:
            real = getattr(os, name)

            def broken(*a, real=real, name=name, **kw):
                e = step(name)
                if e:
                    raise e
                return real(*a, **kw)

            env.p.setattr(os, name, broken)
    elif where == "write":
        # storing chunk data
        import lzo

        real = lzo.compress

        def broken(*a, **kw):
            e = step("write")
            if e:
                raise e
            return real(*a, **kw)

        env.p.setattr(lzo, "compress", broken)
        env.p.replace(real, broken)
    res = run(src, r)
    judge(ctx, env, path, repo, res, head)
    soft = {"rm"}  # failing removals of snapshots are only logged
    if hit and hit[0] not in soft and not (
        # a snapshot that does not exist is not an error
        hit[0] == "info" and getattr(err, "returncode", None) == 2
    ):
        ctx.check(res is not True, "a failing step fails the run")
    if not hit:
        ctx.check(res is True, "a run without faults succeeds")
    if base is not None:
        ctx.check(
            blob_eq(ctx, read_image(env, repo, "base"), base),
            "the base is still there",
        )
        ctx.check(recorded(path, "base") == "complete", "base is complete")


def takeover(ctx, env):
    """The source delivers something else than the snapshot holds."""
    env.chunks()
    P = ctx.params
    blocks = ctx.pick("blocks", P["blocks"]) + 1
    size = blocks * CS
    head = ctx.blob("head", size)
    diff = ctx.flag("diff")
    base = ctx.blob("base", size) if diff else None
    path, ceph, repo, r = setup(ctx, env, head, base)
    p = ctx.int("p", 0, P["blocks"] * CS)
    ctx.assume(p < size)
    how = ctx.choice("how", P["how"])
    if how == "altered":
        n = ctx.int("n", 1, CS)
        ctx.assume(p + n <= size)
        bad = head[:p] + ctx.blob("bad", n) + head[p + n:]
    elif how == "cut":
        bad = head[:p]
        n = size - p
    elif how == "more":
        n = ctx.int("n", 1, CS)
        bad = head + ctx.blob("bad", n)
        p = size
    else:
        bad, n = head, 0
    if diff:
        real = full_diff
        ceph.diff = lambda c, o, nw: real(c, o, Snap(nw.name, bad))
    else:
        ceph.export = lambda c: bad
    # the block the comparison looks at
    sampled = []
    import random

    draw = random.sample

    def sample(population, k, **kw):
        v = draw(population, k, **kw)
        sampled.extend(v)
        return v

    env.p.setattr(random, "sample", sample)
    env.p.replace(draw, sample)
    res = run(mk_source(repo), r)
    ctx.check(isinstance(res, bool), "the run ends with a verdict")
    if how == "same":
        ctx.check(res is True, "a faithful backup is accepted")
        judge(ctx, env, path, repo, res, head)
        ctx.check(not reports(path), "no problem is reported")
        return
    ctx.check(len(sampled) >= 1, "at least one block is compared")
    seen = disj(
        ctx,
        how in ("cut", "more"),
        *[
            conj(ctx, p < (b + 1) * CS, p + n > b * CS) for b in sampled
        ],
    )
    if res is True:
        ctx.check(
            neg(ctx, seen), "a compared difference is noticed"
        )
        ctx.check(recorded(path, "new") == "complete", "complete")
        ctx.check(not reports(path), "no problem is reported")
        ctx.cover("unseen")
    else:
        ctx.check(seen, "only compared differences are noticed")
        ctx.check(recorded(path, "new") == "absent", "it is removed")
        ctx.check(len(reports(path)) == 1, "a problem report is kept")
        ctx.cover("removed")
    if base is not None:
        ctx.check(recorded(path, "base") == "complete", "base is kept")


def damaged(ctx, env):
    """Stored data is damaged while the backup uses it."""
    env.chunks()
    P = ctx.params
    old = ctx.blob("base", CS) + ctx.blob("tail", 50)
    what = ctx.choice("what", ["partial", "reuse"])
    if what == "partial":
        # a part of a chunk of the base is replaced
        p = ctx.int("p", 0, CS + 49)
        n = ctx.int("n", 1, CS)
        ctx.assume(p + n <= CS + 50)
        d = ctx.blob("new", n)
        head = old[:p] + d + old[p + n:]
    else:
        head = old
    path, ceph, repo, r = setup(
        ctx, env, head, old if what == "partial" else None,
        [("remote", dict(server="s1")), ("local", {}),
         ("inc", dict(complete=False))],
    )
    for u in ("local", "inc"):
        write_image(env, repo, u, old)

    def diff(c, o, nw):
        s = HEADER + record(ctx, "f", o.name) + record(ctx, "t", nw.name)
        s = s + record(ctx, "s", CS + 50)
        s = s + record(ctx, "w", p, d)
        return s + record(ctx, "e")

    ceph.diff = diff
    k = ctx.pick("which", 2)
    h = mapping(path / "local")[k]
    kind = ctx.choice("kind", P["kinds"])
    damage(
        ctx, store_files(env, path / "chunks")[h], kind, ctx.blob("other", 20)
    )
    res = run(mk_source(repo), r)
    # the stored chunk is needed unless it is replaced as a whole
    if what == "partial":
        a, b = k * CS, CS + k * 50
        touched = conj(ctx, p < b, p + n > a)
        whole = conj(ctx, p <= a, p + n >= a + CS)
        write_needs = conj(ctx, touched, neg(ctx, whole))
        read_needs = conj(ctx, neg(ctx, touched), k == 0)
        needed = disj(ctx, write_needs, read_needs)
    else:
        # missing chunks are simply stored again
        needed = k == 0 and kind != "missing"
    if res is True:
        ctx.check(neg(ctx, needed), "damaged data that is used is noticed")
        ctx.check(recorded(path, "new") == "complete", "complete")
        ctx.cover("unseen")
        return
    ctx.check(res is False, "a damaged store makes the run report failure")
    ctx.check(needed, "the run fails only if damaged data is used")
    ctx.check(recorded(path, "new") == "absent", "the revision is removed")
    revs = read_revs(path)
    ctx.check(
        revs.get("remote", {}).get("trust") == "trusted",
        "remote revisions are left alone",
    )
    ctx.check("inc" in revs and revs["inc"]["trust"] == "distrusted",
              "incomplete local revisions are distrusted")
    ctx.cover("removed")


def command(ctx, env):
    """The exit code of the backup command."""
    import backy.logging
    import backy.rbd

    env.chunks()
    head = ctx.blob("head", 100)
    path, ceph, repo, r = setup(ctx, env, head)
    with open(path / "config", "w") as f:
        yaml.safe_dump(
            {"path": str(path), "source": {
                "type": "rbd", "pool": "p", "image": "i"},
             "schedule": {"daily": {"interval": "1d", "keep": 3}}}, f)
    env.p.setattr(backy.logging, "init_logging", lambda *a, **kw: None)
    import structlog.stdlib

    env.p.setattr(structlog.stdlib, "get_logger", lambda *a, **kw: LOG)
    what = ctx.choice("what", ["ok", "differs", "fails", "locked", "unknown"])
    if what == "differs":
        ceph.export = lambda c: ctx.blob("bad", 100)
    elif what == "fails":
        ceph.fault = lambda kind, arg: OSError("x") if kind == "create" else None
    elif what == "locked":
        other = mk_repo(path)
        lock = other.lock(".backup", "exclusive")
        lock.__enter__()
    rc = backy.rbd.RBDSource.main(
        "backy-rbd", "-t", "AAAA", "-C", str(path), "backup",
        "new" if what != "unknown" else "none",
    )
    if what == "locked":
        lock.__exit__(None, None, None)
    ctx.check(
        (rc == 0) == (what == "ok"), "success is reported exactly if it is one"
    )
    ctx.check(
        (recorded(path, "new") == "complete") == (what == "ok"),
        "complete exactly on success",
    )
    ctx.cover(what)


def scenarios(tier):
    r = [
        Scenario(
            "faults",
            faults,
            "full or differential backup of an image of up to 100 bytes; any "
            "one of the first 14 rbd commands, renames, fsyncs or chunk "
            "writes fails with one of several errors",
            dict(size=100, steps=14),
            ["complete", "failed"],
        ),
        Scenario(
            "takeover",
            takeover,
            "image of 1 or 2 blocks; the stream is altered in any range, cut "
            "or continued anywhere; any block is sampled; full or "
            "differential",
            dict(blocks=2, how=["same", "altered", "cut", "more"]),
            ["unseen", "removed"],
            path_s=120,
        ),
        Scenario(
            "damaged",
            damaged,
            "a chunk the backup may need is damaged in several ways; any "
            "range of the image changed",
            dict(kinds=["missing", "garbage", "other"]),
            ["removed", "unseen"],
            path_s=120,
        ),
        Scenario(
            "command",
            command,
            "exit code of the command for a good, differing, failing, "
            "locked and unknown backup",
            {},
            ["ok", "differs", "fails", "locked", "unknown"],
        ),
    ]
    if tier != "quick":
        r += [
            Scenario(
                "takeover-three",
                takeover,
                "image of up to 3 blocks",
                dict(blocks=3, how=["altered", "cut"]),
                ["unseen", "removed"],
                path_s=120,
            ),
            Scenario(
                "faults-large",
                faults,
                "image of up to 1.5 chunks, any of the first 25 steps fails",
                dict(size=CS + CS // 2, steps=25),
                ["complete", "failed"],
            ),
        ]
    return r
