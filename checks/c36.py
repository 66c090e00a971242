"""C36: a crash during a backup never damages complete revisions."""

import json
import os
import shutil

import lzo
import mmh3
import yaml

from sx.engine import ConcreteCtx
from sx.env import LOG
from sx.fstrace import TORN, Crash, Trace
from sx.scenario import Scenario

from .common import *
from .rbdutil import *

ASSUMPTIONS = RBD_ASSUMPTIONS + [
    "the file system keeps the order of metadata operations (names) across a "
    "power failure; the content of a file that was not synced afterwards may "
    "be that of any earlier moment since its last sync, or torn; sync and "
    "fsync do what they say",
    "a killed process leaves what it has done so far; a file it is just "
    "writing may be torn",
    "image contents are fixed examples; the crash point and what is persisted "
    "are symbolic",
]

CS = 4 * 1024 * 1024


class Native:
    """Environment whose data is plain bytes also in symbolic runs."""

    def __init__(self, env):
        self.ctx = ConcreteCtx({})
        self.p = env.p
        self.tmp = env.tmp
        self.dev = env.tmp / "nativedev"
        self.dev.mkdir(exist_ok=True)

    def put(self, path, content):
        with open(path, "wb") as f:
            f.write(content)


def chunk_ok(path, content):
    """Is this what has to be stored under that name?"""
    if not isinstance(content, bytes):
        return False
    try:
        d = lzo.decompress(content)
    except lzo.error:
        return False
    return os.path.basename(path).split(".")[0] == mmh3.hash_bytes(d).hex()


def text(tag, n):
    s = (tag + "-backy ").encode()
    return (s * (n // len(s) + 1))[:n]


def blobs():
    """Four images that share chunks."""
    a, b, c = text("A", CS), text("B", CS), text("C", CS)
    return {
        "one": a + b[:70000],
        "two": a + c[:50000],
        "new": b + a + text("N", 9000),
        "short": c[:50000],
    }


def complete(content):
    if not isinstance(content, bytes):
        return False
    try:
        d = yaml.safe_load(content)
        return "duration" in d["stats"]
    except Exception:
        return False


def mk(ctx, env):
    P = ctx.params
    native = Native(env)
    path = env.tmp / "repo"
    path.mkdir()
    B = blobs()
    head = ctx.choice("head", P["heads"])
    ceph = Ceph(native, head=B[head])
    repo = mk_repo(path)
    mk_source(repo)  # creates the store
    kinds = []
    for i, u in enumerate(["one", "two"][: P["bases"]]):
        k = ctx.choice(f"base{i}", P["kinds"])
        kinds.append(k)
        if k == "none":
            continue
        write_rev(
            path, u, D0 + i * dt.timedelta(1), ["a"],
            trust="distrusted" if k == "dis" else "trusted",
            complete=k != "inc",
        )
        write_image(native, repo, u, B[u])
        if k == "snap":
            ceph.snaps.append(Snap("backy-" + u, B[u]))
    repo.scan()
    if P.get("wrong"):
        # the comparison of the backup with its source fails
        if ctx.flag("differs"):
            ceph.device = lambda c: b"x" * len(c)
    return native, path, ceph, repo, kinds, B[head]


def backup(ctx, env):
    native, path, ceph, repo, kinds, head = mk(ctx, env)
    before = {u for u, d in read_revs(path).items() if "duration" in d[
        "stats"]}
    src = mk_source(repo)
    with Trace(env, path) as t:
        r = new_rev(repo, "new", D0 + dt.timedelta(9))
        src.backup(r)
        ctx.cover("ended")
    ctx.cover("+".join(k for k in kinds if k != "none") or "alone")
    machine = ctx.choice("kind", ["process", "machine"]) == "machine"
    c = Crash(ctx, t, machine)
    old, new = t.snaps[0], t.snaps[-1]

    def at(snap, p):
        i = snap[0].get(p)
        return None if i is None else snap[1][i]

    revs = t.paths(".rev")
    ctx.check(
        set(revs) == {f"{u}.rev" for u in ("one", "two", "new")} & set(revs),
        "only these revisions ever appear",
    )
    chunks = [p for p in t.paths() if p.startswith("chunks/")]
    stored = [p for p in chunks if p.endswith(".chunk.lzo")]
    # In this order, so that what is known about machine crashes does not
    # hide anything else.
    for rv in revs:
        u = rv[:-4]
        final = at(new, u) if at(new, rv) is not None else at(old, u)
        if final is None:
            continue
        is_complete = c.cond(rv, complete)
        ctx.check(
            implies(ctx, is_complete, c.cond(u, lambda x: x == final)),
            "a complete revision has its mapping",
        )
        mapping = json.loads(final)["mapping"]
        for h in sorted(set(mapping.values())):
            p = f"chunks/{h[:2]}/{h}.chunk.lzo"
            rewritten = at(old, p) is not None and len(
                {s[0].get(p) for s in t.snaps}
            ) > 1
            ok = c.cond(p, lambda x: chunk_ok(p, x))
            if machine and rewritten:
                ctx.check(
                    implies(
                        ctx, is_complete,
                        c.cond(p, lambda x: x is not None),
                    ),
                    "a rewritten chunk of a complete revision exists",
                )
                ctx.check(
                    implies(ctx, is_complete, ok),
                    "a rewritten chunk is intact after a machine crash",
                )
            else:
                ctx.check(
                    implies(ctx, is_complete, ok),
                    "a complete revision has its chunks",
                )
    for p in stored:
        if machine:
            ctx.check(
                c.cond(
                    p, lambda x: x is None or chunk_ok(p, x)
                ),
                "a stored chunk is intact after a machine crash",
            )
        else:
            ctx.check(
                c.cond(p, lambda x: x is None or chunk_ok(p, x)),
                "chunk files are absent or complete",
            )
    ctx.check(
        conj(ctx, True, *[c.cond(f"{u}.rev", complete) for u in sorted(
            before)]),
        "complete revisions stay complete",
    )
    if not ctx.symbolic:
        d = env.tmp / "after"
        c.materialize(d)
        readable(ctx, native, d, head, "can be read")


def readable(ctx, native, path, head, msg):
    """Read all complete revisions with the real code."""
    B = blobs()
    repo = mk_repo(path)
    for r in repo.get_history(clean=True):
        want = head if r.uuid.startswith("new") else B[r.uuid]
        try:
            got = read_image(native, repo, r.uuid)
        except Exception:
            got = None
        ctx.check(got == want, "a complete revision " + msg)
        ctx.cover("read " + r.uuid)


def again(ctx, env):
    """A killed backup is followed by another one."""
    native, path, ceph, repo, kinds, head = mk(ctx, env)
    src = mk_source(repo)
    with Trace(env, path) as t:
        r = new_rev(repo, "new", D0 + dt.timedelta(9))
        src.backup(r)
    k = ctx.int("crash.k", 0, t.n)
    if ctx.symbolic:
        lim = ctx.params.get("points", 400)
        k = ctx.concretize(k.e, "crash point", limit=lim)
    k = min(k, t.n)
    inputs = {"crash.k": k}
    state = Crash(ConcreteCtx(inputs), t, False)
    d = env.tmp / "after"
    state.materialize(d)
    shutil.copymode(path, d)
    # the aborted run may have removed old snapshots
    ceph.snaps = [
        Snap("backy-" + u, blobs().get(u, head))
        for u in ("one", "two", "new") if (d / f"{u}.rev").exists()
        and ctx.flag(f"snapshot {u}")
    ]
    ceph.device = None
    readable(ctx, native, d, head, "can be read after a crash")
    repo = mk_repo(d)
    repo._clean()
    readable(ctx, native, d, head, "can be read after the cleanup")
    r2 = new_rev(repo, "new2", D0 + dt.timedelta(12))
    ok = mk_source(repo).backup(r2)
    ctx.check(bool(ok), "the next backup succeeds")
    repo.scan()
    readable(ctx, native, d, head, "can be read after the next backup")
    mk_source(repo).gc()
    readable(ctx, native, d, head, "can be read after garbage collection")
    ctx.check(
        "new2" in read_revs(d), "the next backup is recorded"
    )


def scenarios(tier):
    q = [
        Scenario(
            "backup",
            backup,
            "backup of a 3-chunk image; up to two older revisions (with or "
            "without snapshot, distrusted, incomplete or none) that share "
            "chunks; process or machine stops after any number of file "
            "system operations with any persisted subset the file system "
            "model allows",
            dict(bases=2, kinds=["snap", "dis", "inc", "none"],
                 heads=["new", "short"], wrong=False),
            ["ended", "alone", "snap+snap"],
        ),
        Scenario(
            "again",
            again,
            "a backup killed after any number of file system operations, "
            "cleanup, another full or differential backup, collection",
            dict(bases=1, kinds=["snap"], heads=["new"]),
            ["read one", "read new", "read new2"],
        ),
    ]
    if tier == "thorough":
        q += [
            Scenario(
                "differs",
                backup,
                "the same, and the final comparison may fail",
                dict(bases=2, kinds=["snap", "dis", "inc", "none"],
                     heads=["new", "short"], wrong=True),
                ["ended"],
            ),
            Scenario(
                "again-more",
                again,
                "the same with an older revision of any kind",
                dict(bases=2, kinds=["snap", "dis", "none"],
                     heads=["new", "short"]),
                ["read one", "read new", "read new2"],
            ),
        ]
    return q
