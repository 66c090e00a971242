"""C53: a failing step never costs a backup."""

import errno
import pickle
import subprocess

import aiohttp

from .c21 import lock_states
from .chunkutil import *
from .concutil import *

KEPT = ["u0", "u1", "u2"]

ASSUMPTIONS = ASSUMPTIONS + [
    "exactly one step fails: opening a file for writing, changing a name, a "
    "sync, reading metadata, an image or a chunk, taking a lock, an rbd "
    "command or a request to a peer; closing, unlocking and releasing work",
    "a chunk that can not be read when it is verified counts as damaged (as "
    "documented in the code)",
]


def failure(e, kind):
    if e[0] == "ceph":
        return subprocess.CalledProcessError(5, ["rbd", str(e[1])])
    if e[0] == "api":
        return aiohttp.ClientConnectionError("no route")
    if kind == "other":
        # something that is not an OSError
        return MemoryError()
    no = {
        "trylock": errno.ENOLCK, "read": errno.EIO, "sync": errno.EIO,
        "write": errno.ENOSPC,
    }[e[0]]
    return OSError(no, os.strerror(no))


def view(w, new):
    """What is recorded, with the new revision's ID abstracted."""
    revs = read_revs(w.path)
    res = {}
    for u, d in revs.items():
        d = dict(d)
        n = "new" if u == new else u
        for k in ("uuid", "_file", "parent"):
            d.pop(k, None)
        st = dict(d["stats"])
        d["stats"] = sorted(st) if n == "new" else st
        d["tags"] = sorted(
            t for t in d["tags"]
        )
        d["orig_tags"] = sorted(d["orig_tags"])
        res[n] = d
    return res


def images(w, revs):
    repo = w.repo()
    res = {}
    for u, d in revs.items():
        if d["server"] or "duration" not in d["stats"]:
            continue
        try:
            res[u] = read_image(w.native, repo, u)
        except Exception as e:
            res[u] = repr(e)
    return res


def snaps(w, who):
    return sorted(
        (x.name.replace(f"new-{who}", "new"), x.content)
        for x in w.ceph.snaps
    )


def leftovers(w):
    """Chunks that belong to nothing, and unfinished files."""
    used = set()
    for u, d in read_revs(w.path).items():
        if not d["server"] and "duration" in d["stats"]:
            used |= set(mapping(w.path / u).values())
    extra = set()
    for d, _, fs in os.walk(w.path):
        for f in fs:
            if f.endswith(".chunk.lzo"):
                if f.removesuffix(".chunk.lzo") not in used:
                    extra.add(f)
            elif "tmp" in f or os.path.basename(d) != "b" and f != "store":
                extra.add(f)
    return extra


def world(ctx, env, name):
    w = World(ctx, env, name)
    repo = w.repo()
    repo.scan()
    repo._clean()
    mk_source(repo).gc()
    w.ceph.head = SMALL[ctx.params["head"]]
    return w


class Steps:
    """Runs an operation, announcing its steps."""

    def __init__(self, env, w):
        self.env, self.w = env, w

    def run(self, f, step):
        """step(events) is called before each step."""
        env, w = self.env, self.w

        def hook(i):
            if p.events[i][0] not in ("unlock", "locked"):
                step(p.events)

        p = Points(
            env, w.path, reads=lambda rel: reads(rel) or rel == "config",
            hook=hook,
        )
        fsync, sync = os.fsync, os.sync
        env.p.setattr(
            os, "fsync", lambda fd: (p.tell("sync", ""), fsync(fd))[1]
        )
        env.p.setattr(os, "sync", lambda: p.tell("sync", ""))
        w.points = p
        try:
            with p:
                return call(f)
        finally:
            w.points = None
            env.p.setattr(os, "fsync", fsync)
            env.p.setattr(os, "sync", sync)


def failing(ctx, env, w, f):
    """One step fails -> the step, the result"""
    P = ctx.params
    kind = ctx.choice("kind", P["errors"])
    at = ctx.int("step", 0, 300)
    hit = []

    def step(events):
        e = events[-1]
        if hit:
            # files can be removed, devices be unmapped
            if P.get("persistent") and e[0] == hit[0][0] and (
                e[0] != "write" and e[1] not in ("unmap", "showmapped")
            ):
                raise failure(e, kind)
        elif at == len(events) - 1:
            hit.append(e)
            raise failure(e, kind)

    r = Steps(env, w).run(f, step)
    return (hit[0], r) if hit else (None, r)


def killed(ctx, env, w, f, n):
    """The process dies before one of n steps -> the step, None"""
    at = ctx.pick("step", n)
    rd, wr = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(rd)

            def out(e):
                state = (
                    e, [(x.name, x.content) for x in w.ceph.snaps],
                    w.ceph.mapped,
                )
                with os.fdopen(wr, "wb") as fh:
                    pickle.dump(state, fh)
                os._exit(0)

            def step(events):
                if len(events) > at:
                    out(events[-1])

            Steps(env, w).run(f, step)
            out(None)
        finally:
            os._exit(1)
    os.close(wr)
    with os.fdopen(rd, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    assert data, "no result"
    e, snaps, mapped = pickle.loads(data)
    w.ceph.snaps = [Snap(*x) for x in snaps]
    w.ceph.mapped = mapped
    return e, ("killed", None)


def faults(ctx, env):
    P = ctx.params
    op = ctx.choice("operation", P["ops"])
    ctx.cover(op)
    # without failure
    w0 = world(ctx, env, "good")
    f, _ = w0.prepare(op, "a")
    n = [0]
    r0 = Steps(env, w0).run(f, lambda events: n.append(len(events)))
    ctx.check(r0[0] == "ok", f"{op} works")
    good = view(w0, "new-a")
    good_images = images(w0, read_revs(w0.path))
    good_snaps = snaps(w0, "a")
    # with
    w = world(ctx, env, "w")
    before = read_revs(w.path)
    f, _ = w.prepare(op, "a")
    if P.get("killed"):
        e, r = killed(ctx, env, w, f, n[-1])
    else:
        e, r = failing(ctx, env, w, f)
    if e is None:
        return
    ctx.cover(e[0])
    ctx.cover(r[0])
    ctx.check(
        not any(lock_states(w.path).values()), "locks are released"
    )
    dead = r[0] == "killed"
    if not dead and (e[0] != "ceph" or e[1] not in ("unmap", "showmapped")):
        ctx.check(not w.ceph.mapped, "no device stays mapped")
    ctx.check(
        dead or not [f for f in leftovers(w) if "tmp" in f],
        "no unfinished file is left",
    )
    revs = read_revs(w.path)
    got = images(w, revs)
    may = set(KEPT) - set(good_images)
    unreadable = not dead and e[0] == "read" and e[1].endswith(".chunk.lzo")
    if op == "verify" and unreadable:
        may.add("u1")
    for u in KEPT:
        if u in may and (u not in revs or unreadable):
            continue  # removed, or found to be damaged
        ctx.check(u in revs, "no backup is lost")
        if u not in revs:
            continue
        ctx.check(got.get(u) == SMALL[u], "and its content is intact")
        ctx.check(
            {k: v for k, v in revs[u].items() if k in (
                "timestamp", "server", "stats", "uuid", "orig_tags")}
            == {k: v for k, v in before[u].items() if k in (
                "timestamp", "server", "stats", "uuid", "orig_tags")},
            "as is what is known of it",
        )
        ctx.check(
            set(revs[u]["tags"]) in (
                set(before[u]["tags"]),
                set(good[u]["tags"]) if u in good else set(),
            ),
            "its tags are the old or the new ones",
        )
    if "new-a" in revs and "duration" in revs["new-a"]["stats"]:
        ctx.check(
            got["new-a"] == w.ceph.head, "a complete backup is exact"
        )
        ctx.check(op == "backup", "made by a backup only")
    if r[0] == "ok" and r[1] == r0[1] and not unreadable:
        ctx.check(
            view(w, "new-a") == good, "what is reported as done is done"
        )
    if op == "restore" and r[0] == "ok":
        ctx.check(
            (w.out / "restored-a").read_bytes() == SMALL["u1"],
            "what was restored is exact",
        )
    if "then" in P:
        # something else
        op2 = ctx.choice("then", P["then"])
        ctx.cover("then " + op2)
        if op2 == "rm" and "u0" not in revs:
            return
        f, _ = w.prepare(op2, "b")
        r = call(f)
        ctx.check(
            r[0] == "ok" or op == "backup" and op2 in ("gc", "verify"),
            "something else works afterwards",
        )
        if op2 == "expire":
            may = may | P["expired"]
        if op2 == "rm":
            may = may | {"u0"}
        revs = read_revs(w.path)
        got = images(w, revs)
        ctx.check(
            set(KEPT) - may <= set(revs), "which loses no backup either"
        )
        ctx.check(
            all(got[u] == SMALL.get(u, w.ceph.head) for u in got),
            "all backups are exact",
        )
        return
    # once more
    who = "a"
    if op == "backup":
        if "duration" in revs.get("new-a", {"stats": {}})["stats"]:
            return  # it was complete already
        repo = w.repo()
        repo.scan()
        repo._clean()
        who = "b"
    if op == "rm" and "u0" not in revs or op == "verify" and (
        "u1" not in revs or unreadable
    ):
        return  # nothing to repeat
    f, _ = w.prepare(op, who)
    r = call(f)
    ctx.check(r[0] == "ok", "it works when it is repeated")
    ctx.cover("again")
    now = view(w, "new-" + who)
    if op == "backup" and unreadable:
        # all revisions were distrusted
        for d in list(now.values()) + list(good.values()):
            d.pop("trust")
    ctx.check(now == good, "with the same result as without failure")
    want = {
        ("new-" + who if u == "new-a" else u): d for u, d in good_images.items()
    }
    ctx.check(images(w, read_revs(w.path)) == want, "also of the contents")
    if op == "backup":
        ctx.check(snaps(w, who) == good_snaps, "and of the snapshots")
    mk_source(w.repo()).gc()
    ctx.check(
        not [f for f in leftovers(w) if not dead or "tmp" not in f],
        "nothing is left over",
    )


def garbage(w):
    return [f for f in leftovers(w) if f.endswith(".chunk.lzo")]


def requested(ctx, env):
    """A collection that a peer asked for is not forgotten before it is
    done."""
    P = ctx.params
    op = ctx.choice("operation", ["gc", "verify"])
    ctx.cover(op)
    n = []
    for name in ("good", "w"):
        w = world(ctx, env, name)
        if P["removed"] == "all":
            for u in KEPT:
                if u != "u1" or op == "gc":
                    (w.path / (u + ".rev")).unlink()
        else:
            (w.path / "u2.rev").unlink()
        (w.path / ".purge_pending").touch()
        ctx.check(bool(garbage(w)), "there is something to collect")
        f, _ = w.prepare(op, "a")
        if name == "good":
            r = Steps(env, w).run(f, lambda events: n.append(len(events)))
            ctx.check(r[0] == "ok", f"{op} works")
            ctx.check(not garbage(w), "garbage is collected")
            ctx.check(
                not (w.path / ".purge_pending").exists(), "nothing is pending"
            )
    if ctx.flag("killed"):
        e, r = killed(ctx, env, w, f, n[-1])
    else:
        e, r = failing(ctx, env, w, f)
    if e is None:
        return
    ctx.cover(r[0])
    pending = (w.path / ".purge_pending").exists()
    ctx.check(
        pending or not garbage(w), "a request is kept until it is fulfilled"
    )
    if pending:
        ctx.cover("kept")
    if op == "verify" and "u1" not in read_revs(w.path):
        return
    f, _ = w.prepare(op, "b")
    ctx.check(call(f)[0] == "ok", "it works when it is repeated")
    ctx.check(not garbage(w), "garbage is collected")
    ctx.check(
        not (w.path / ".purge_pending").exists(), "nothing is pending"
    )


def scenarios(tier):
    big = tier == "thorough"
    r = [
        Scenario(
            "faults", faults,
            "every operation, any single step fails",
            dict(ops=ALL, errors=["io"], head="head"),
            ["failed", "ok", "again", "write", "read", "trylock", "ceph", "sync",
             "api"] + ALL,
        ),
        Scenario(
            "persistent", faults,
            "all steps of the same kind fail from then on",
            dict(ops=["backup", "push", "pull", "verify"] + ["gc"] * big,
                 errors=["io"], head="u2", persistent=True),
            ["failed", "again", "trylock", "ceph", "sync", "api"],
        ),
    ]
    r.append(Scenario(
        "killed", faults,
        "the process dies before any step",
        dict(ops=ALL, head="head", killed=True),
        ["killed", "again", "write", "read", "trylock", "ceph", "sync",
         "api"] + [o for o in ALL],
    ))
    r.append(Scenario(
        "then", faults,
        "the process dies before any step, something else is done next",
        dict(ops=["backup", "expire", "rm", "gc", "verify"] + (
                 ["tags", "distrust", "push", "pull", "clean"] * big),
             then=["gc", "backup", "verify", "expire"] + (
                 ["push", "pull", "rm", "restore", "distrust"] * big),
             head="head", killed=True, expired={"u0", "u2"}),
        ["killed", "then gc", "then backup", "then verify", "then expire"],
    ))
    for removed in ["one", "all"]:
        r.append(Scenario(
            "requested-" + removed, requested,
            f"a collection was requested, {removed} revisions are gone; any "
            "single step of it fails, or the process dies there",
            dict(removed=removed, errors=["io"], head="head"),
            ["failed", "killed", "kept", "gc", "verify"],
        ))
    if big:
        r.append(Scenario(
            "other", faults,
            "any single step fails with another exception",
            dict(ops=ALL, errors=["other"], head="head"),
            ["failed", "again", "write", "read"] + ALL,
        ))
    return r
