"""C01: a chunked image behaves like a plain file of bytes."""

from sx.scenario import Scenario
from sx.symbytes import blob_eq, zeroes

from .common import *
from .chunkutil import CS, Model, mk_store, open_image, chunk_assumptions

ASSUMPTIONS = chunk_assumptions


def seq(ctx, env):
    """A sequence of operations on one image, compared with a byte file."""
    env.chunks()
    P = ctx.params
    store = mk_store(env)
    store2 = mk_store(env)
    path = env.tmp / "img"
    model = Model(ctx)
    if P.get("initial") or P.get("size"):
        n0 = P.get("size") or ctx.int("n0", 0, P["initial"])
        data = ctx.blob("init", n0)
        f = open_image(path, store, "wb")
        f.write(data)
        f.close()
        model.write(data)
        model.seek(0)
    f = open_image(path, store, "rw")
    for i, op in enumerate(P["ops"]):
        if isinstance(op, tuple):
            op = ctx.choice(f"op{i}", op)
        if op in ("write", "zero", "again"):
            pos = ctx.int(f"pos{i}", 0, P["maxpos"])
            n = ctx.int(f"len{i}", 0, P["maxlen"])
            if op == "write":
                data = ctx.blob(f"data{i}", n)
            elif op == "zero":
                data = zeroes(ctx, n)
            else:
                data = ctx.blob("init", n)
            r = f.seek(pos)
            ctx.check(r == pos, "seek returns the new position")
            model.seek(pos)
            f.write(data)
            model.write(data)
        elif op == "seek":
            pos = ctx.int(f"pos{i}", 0, P["maxpos"])
            f.seek(pos)
            model.seek(pos)
        elif op == "trunc":
            pos = ctx.int(f"pos{i}", 0, P["maxpos"])
            ctx.assume(pos <= model.size())
            f.seek(pos)
            f.truncate()
            model.seek(pos)
            model.truncate()
        elif op == "flush":
            f.flush()
        elif op == "reopen":
            f.close()
            f = open_image(path, store2, "rw")
            model.seek(0)
        elif op == "read":
            pos = ctx.int(f"pos{i}", 0, P["maxpos"])
            n = ctx.int(f"len{i}", 0, P["maxlen"])
            ctx.assume(pos <= model.size())
            f.seek(pos)
            model.seek(pos)
            got = f.read(n)
            ctx.check(
                blob_eq(ctx, got, model.read(n)),
                "a read returns the bytes written before",
            )
            ctx.cover("read")
        ctx.check(f.tell() == model.tell(), "position")
    ctx.check(f.size == model.size(), "size while open")
    f.seek(0)
    ctx.check(
        blob_eq(ctx, f.read(), model.content()), "content while open"
    )
    f.close()
    f = open_image(path, store2, "rb")
    ctx.check(f.size == model.size(), "size after reopening")
    ctx.check(
        blob_eq(ctx, f.read(), model.content()), "content after reopening"
    )
    f.close()
    ctx.cover("end")


def evict(ctx, env):
    """More chunks than are kept in memory."""
    env.chunks()
    P = ctx.params
    store = mk_store(env)
    store2 = mk_store(env)
    path = env.tmp / "img"
    n = P["chunks"]
    f = open_image(path, store, "rw")
    model = Model(ctx)
    if P.get("target"):
        f.flush_target = P["target"]
    full = ctx.blob("base", CS if ctx.params.get("dense") else 1000)
    for i in range(n):
        f.seek(i * CS)
        model.seek(i * CS)
        f.write(full)
        model.write(full)
    # go back to an arbitrary chunk, partly overwrite it, then to another
    for j in range(P["back"]):
        c = ctx.pick(f"c{j}", n - 1)
        off = ctx.int(f"off{j}", 0, CS - 1)
        ln = ctx.int(f"len{j}", 1, 5000)
        d = ctx.blob(f"d{j}", ln)
        f.seek(c * CS + off)
        model.seek(c * CS + off)
        f.write(d)
        model.write(d)
    # touch others again, so that the above may be evicted in between
    for i in range(0, n, P["stride"]):
        f.seek(i * CS)
        model.seek(i * CS)
        ctx.check(
            blob_eq(ctx, f.read(5), model.read(5)), "read after eviction"
        )
    pos = ctx.int("pos", 0, n * CS)
    ctx.assume(pos <= model.size())
    f.seek(0)
    ctx.check(blob_eq(ctx, f.read(), model.content()), "content while open")
    f.close()
    f = open_image(path, store2, "rb")
    ctx.check(blob_eq(ctx, f.read(), model.content()), "content after reopening")
    ctx.check(f.size == model.size(), "size after reopening")
    ctx.cover("end")


def scenarios(tier):
    h = CS // 2
    anyop = ("write", "zero", "seek", "trunc", "reopen", "flush")
    big = dict(maxpos=2 * CS + h, maxlen=CS + h)
    small = dict(maxpos=CS + h, maxlen=CS + 10)
    r = [
        Scenario(
            "one-op",
            seq,
            "one arbitrary operation on an existing image of any size up to "
            "2.5 chunks; positions up to 2.5 chunks, lengths up to 1.5 chunks",
            dict(big, initial=2 * CS + h, ops=[anyop + ("again", "read")]),
            ["end", "read"],
            path_s=120,
        ),
        Scenario(
            "two-ops",
            seq,
            "two arbitrary operations on an initially empty image; positions "
            "up to 1.5 chunks, lengths up to 1 chunk + 10",
            dict(small, ops=[("write", "seek"), anyop]),
            ["end"],
            path_s=120,
        ),
        Scenario(
            "overwrite",
            seq,
            "image of 1 chunk + 100 bytes: write, reopen, write or truncate",
            dict(small, maxlen=CS, size=CS + 100,
                 ops=["write", "reopen", ("write", "trunc")]),
            ["end"],
            path_s=120,
        ),
        Scenario(
            "shrink-grow",
            seq,
            "image of 1 chunk + 100 bytes: truncate anywhere, then write or "
            "seek anywhere",
            dict(small, maxlen=50, size=CS + 100,
                 ops=["trunc", ("reopen", "flush"), ("write", "seek")]),
            ["end"],
            path_s=120,
        ),
        Scenario(
            "evict",
            evict,
            "22 chunks, an arbitrary one rewritten at any offset",
            dict(chunks=22, back=1, stride=7),
            ["end"],
            path_s=120,
        ),
        Scenario(
            "evict-small-cache",
            evict,
            "4 chunks with a cache for 1..2, an arbitrary rewrite",
            dict(chunks=4, back=1, target=1, stride=2),
            ["end"],
            path_s=120,
        ),
    ]
    if tier == "thorough":
        r += [
            Scenario(
                "three-ops",
                seq,
                "three arbitrary operations on an initially empty image",
                dict(small, ops=[anyop, anyop, anyop]),
                ["end"],
                path_s=120,
            ),
            Scenario(
                "read-anywhere",
                seq,
                "write and read anywhere on an existing image",
                dict(big, initial=2 * CS + h, ops=["write", "read"]),
                ["end", "read"],
                path_s=120,
            ),
            Scenario(
                "evict-two",
                evict,
                "5 chunks with a cache for 1..2, two arbitrary rewrites",
                dict(chunks=5, back=2, target=1, stride=2),
                ["end"],
                path_s=120,
            ),
        ]
    return r
