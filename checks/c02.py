"""C02: content addressing; damaged chunks are never returned."""

import os

from sx.scenario import Scenario
from sx.symbytes import blob_eq, zeroes

from .common import *
from .chunkutil import *

ASSUMPTIONS = chunk_assumptions


def build(ctx, env, store, path, sizes):
    """An image with the given chunk contents."""
    f = open_image(path, store, "wb")
    m = Model(ctx)
    for i, n in enumerate(sizes):
        d = ctx.blob(f"c{i}", n)
        f.write(d)
        m.write(d)
    f.close()
    return m


def damaged(ctx, env):
    """Reads and writes on an image with one damaged chunk."""
    env.chunks()
    P = ctx.params
    path = env.tmp / "img"
    last = ctx.int("last", 1, CS)
    sizes = [CS] * (P["chunks"] - 1) + [last]
    st0 = mk_store(env)
    m = build(ctx, env, st0, path, sizes)
    which = ctx.pick("which", P["chunks"])
    kind = ctx.choice("kind", DAMAGES)
    files = store_files(env)
    ctx.check(len(files) == P["chunks"], "every chunk is stored")
    h = mapping(path)[which]
    damage(ctx, files[h], kind, ctx.blob("other", ctx.int("no", 1, CS)))
    a, b = which * CS, which * CS + sizes[which]
    # possibly with the store object that wrote the chunk
    st = st0 if P.get("same") and ctx.flag("same store") else mk_store(env)
    f = open_image(path, st, P["mode"])
    op = ctx.choice("op", P["ops"])
    if op in ("fill", "part"):
        # something is written into the damaged chunk first
        d0 = ctx.int("d0", a, a + CS - 1)
        n = ctx.int("dn", 1, CS)
        ctx.assume(d0 + n <= a + CS)
        whole = conj(ctx, d0 == a, n == CS)
        data = ctx.blob("data", n)
        f.seek(0)
        try:
            f.seek(d0)
            f.write(data)
            failed = False
        except Exception:
            failed = True
        if op == "fill":
            ctx.assume(whole)
            ctx.check(not failed, "a whole chunk can be replaced")
            ctx.cover("replaced")
            m.seek(d0)
            m.write(data)
            f.flush()
            f.seek(0)
            if kind == "missing":
                # nothing of the damage is left
                ctx.check(
                    blob_eq(ctx, f.read(), m.content()), "replaced content"
                )
                ctx.cover("end")
            return
        ctx.assume(neg(ctx, whole))
        ctx.check(failed, "a partial write to a damaged chunk fails")
        ctx.cover("rejected")
        return
    pos = ctx.int("pos", 0, P["chunks"] * CS)
    n = ctx.int("n", 0, P["maxread"])
    ctx.assume(pos <= m.size())
    if op == "two":
        # an earlier access to another place of the same image
        p0 = ctx.int("p0", 0, P["chunks"] * CS)
        ctx.assume(p0 < m.size())
        try:
            f.seek(p0)
            f.read(3)
        except Exception:
            pass
    f.seek(pos)
    try:
        got = f.read(n)
    except Exception:
        ctx.check(
            conj(ctx, pos < b, pos + n > a, n > 0),
            "only reads that need the damaged chunk fail",
        )
        ctx.cover("error")
        return
    m.seek(pos)
    ctx.check(
        blob_eq(ctx, got, m.read(n)),
        "a read of a damaged image returns only what was written",
    )
    ctx.check(
        neg(ctx, conj(ctx, pos < b, pos + n > a, n > 0)),
        "a read that needs the damaged chunk fails",
    )
    ctx.cover("end")


def addressed(ctx, env):
    """Everything stored is named by its content; stored chunks stay."""
    env.chunks()
    P = ctx.params
    store = mk_store(env)
    p1, p2 = env.tmp / "img1", env.tmp / "img2"
    m1 = build(ctx, env, store, p1, [CS, ctx.int("last", 1, CS)])
    if P.get("damage"):
        # a stored chunk may be damaged: it stays as it is unless forced
        k = ctx.pick("bad", 2)
        kind = ctx.choice("kind", ["other", "garbage"])
        damage(
            ctx, store_files(env)[mapping(p1)[k]], kind,
            ctx.blob("other", 5),
        )
    force = ctx.flag("force") if not P.get("damage") else False

    def snap():
        r = {}
        for h, p in store_files(env).items():
            st = os.stat(p)
            r[h] = (st.st_ino, st.st_mtime_ns, open(p, "rb").read())
        return r

    before = snap()
    fresh = ctx.flag("fresh store object")
    store = mk_store(env) if fresh else store
    store.force_writes = force
    f = open_image(p2, store, "rw")
    m2 = Model(ctx)
    for i, op in enumerate(P["ops"]):
        what = ctx.choice(f"what{i}", op)
        pos = ctx.int(f"pos{i}", 0, P["maxpos"])
        f.seek(pos)
        m2.seek(pos)
        if what == "same":
            d = ctx.blob("c0", CS)
        elif what == "zero":
            d = zeroes(ctx, ctx.int(f"n{i}", 1, CS))
        elif what == "new":
            d = ctx.blob(f"new{i}", ctx.int(f"n{i}", 1, CS + 10))
        elif what == "trunc":
            f.truncate()
            m2.truncate()
            continue
        f.write(d)
        m2.write(d)
    f.close()
    after = snap()
    files = store_files(env)
    for h in before:
        ctx.check(h in after, "no stored chunk disappears")
        if h not in after:
            continue
        if not force:
            ctx.check(
                after[h] == before[h], "a stored chunk is not written again"
            )
    for img in (p1, p2):
        for k, h in mapping(img).items():
            ctx.check(h in files, "every chunk of an image is stored")
    for h, p in files.items():
        if P.get("damage") and h in before:
            continue
        c = stored(ctx, p)
        ctx.check(c is not None, "stored chunks can be decompressed")
        if c is not None:
            ctx.check(hash_of(c) == h, "a chunk is stored under its hash")
    # chunks describe the image
    mp = mapping(p2)
    n = m2.size()
    content = m2.content()
    for k in sorted(mp):
        if P.get("damage") and mp[k] in before:
            continue
        if not (k * CS < n):
            continue
        c = stored(ctx, files[mp[k]])
        end = k * CS + CS
        want = content[k * CS : end] if end <= n else content[k * CS :]
        if "trunc" in P["ops"][-1]:
            # a chunk at the end may hold more than the image
            c = c[: size_(want)]
        ctx.check(blob_eq(ctx, c, want), "the mapping leads to the content")
    if not P.get("damage"):
        f = open_image(p1, mk_store(env), "rb")
        ctx.check(
            blob_eq(ctx, f.read(), m1.content()), "other images stay intact"
        )
    ctx.cover("end")
    if force:
        ctx.cover("force")


def unstored(ctx, env):
    """Storing a chunk fails once; what is written later is complete."""
    import tempfile

    import lzo

    env.chunks()
    P = ctx.params
    store = mk_store(env)
    last = ctx.int("last", 1, CS)
    parts = [ctx.blob("c0", CS), ctx.blob("c1", last)]
    if ctx.flag("stored before"):
        build(ctx, env, mk_store(env), env.tmp / "img0", [CS])
    if ctx.flag("forced"):
        store.force_writes = True
    at = ctx.int("fails at", 0, P["steps"])
    n = [0]
    failed = []

    def failing(f):
        def g(*a, **kw):
            i = n[0]
            n[0] += 1
            if at == i:
                failed.append(i)
                raise OSError(28, "No space left on device")
            return f(*a, **kw)

        return g

    for m, names in (
        (os, ["rename", "replace", "link", "chmod", "fsync"]),
        (lzo, ["compress"]),
        (tempfile, ["mkstemp", "NamedTemporaryFile"]),
    ):
        for x in names:
            env.p.setattr(m, x, failing(getattr(m, x)))

    def write(f, what):
        m = Model(ctx)
        for d in what:
            f.write(d)
            m.write(d)
        return m

    done = {}
    p1, p2 = env.tmp / "img1", env.tmp / "img2"
    f = open_image(p1, store, "wb")
    m = write(f, parts)
    try:
        f.flush()
        done[p1] = m
    except OSError:
        ctx.cover("failed")
        if ctx.flag("again"):
            # the same file, as leaving a with statement does: not all of it
            # needs to be there, but what it refers to
            try:
                f.close()
                done[p1] = None
            except OSError:
                pass
    # The process goes on with another image.
    order = ctx.choice("order", P["orders"])
    f = open_image(p2, store, "wb")
    m = write(f, [parts[i] for i in order])
    try:
        f.close()
        done[p2] = m
    except OSError:
        ctx.cover("failed")
    if not failed:
        return
    files = store_files(env)
    for p, m in done.items():
        for k, h in mapping(p).items():
            ctx.check(h in files, "every chunk of an image is stored")
            if h not in files:
                return
            c = stored(ctx, files[h])
            ctx.check(c is not None, "stored chunks can be decompressed")
            if c is None:
                return
            ctx.check(hash_of(c) == h, "a chunk is stored under its hash")
        if m is None:
            continue
        f = open_image(p, mk_store(env), "rb")
        ctx.check(
            blob_eq(ctx, f.read(), m.content()),
            "what was written completely can be read",
        )
        ctx.cover("end")


def scenarios(tier):
    h = CS // 2
    r = [
        Scenario(
            "damaged-read",
            damaged,
            "3 chunks, the last of any size, one damaged in any of 7 ways; a "
            "read of any range up to 2 chunks",
            dict(chunks=3, mode="rb", ops=["read"], maxread=2 * CS),
            ["end", "error"],
            path_s=120,
        ),
        Scenario(
            "damaged-read-again",
            damaged,
            "2 chunks; a read after another access anywhere that may have "
            "failed, by the store object that wrote the chunks or another",
            dict(chunks=2, mode="rb", ops=["two"], maxread=CS, same=True),
            ["end", "error"],
            path_s=120,
        ),
        Scenario(
            "damaged-write",
            damaged,
            "2 chunks; any write inside the damaged chunk",
            dict(chunks=2, mode="rw", ops=["fill", "part"], same=True),
            ["end", "replaced", "rejected"],
            path_s=120,
        ),
        Scenario(
            "addressed",
            addressed,
            "image of 2 chunks in the store; a second one written at any "
            "position with equal, zero or new content, then a new write",
            dict(
                maxpos=CS + h,
                ops=[["same", "zero", "new"], ["new"]] if tier != "quick"
                else [["same", "zero", "new"]],
            ),
            ["end", "force"],
            path_s=120,
        ),
        Scenario(
            "addressed-trunc",
            addressed,
            "as above, with the second image truncated anywhere",
            dict(maxpos=CS + h, ops=[["same"], ["trunc"]]),
            ["end", "force"],
            path_s=120,
        ),
        Scenario(
            "addressed-damaged",
            addressed,
            "as above with one stored chunk damaged and no forced writes",
            dict(maxpos=h, ops=[["same"]], damage=True),
            ["end"],
            path_s=120,
        ),
        Scenario(
            "unstored",
            unstored,
            "2 chunks; any one step of storing a chunk fails; then the same "
            "or other chunks are written by the same store object",
            dict(steps=10 if tier == "quick" else 20,
                 orders=[[0], [0, 1]] if tier == "quick"
                 else [[0], [0, 1], [0, 0]]),
            ["end", "failed"],
            path_s=120,
        ),
    ]
    return r
