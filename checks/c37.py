"""C37: converting an old chunk store keeps every chunk."""

import os

from sx.engine import ConcreteCtx
from sx.fstrace import Crash, Trace
from sx.scenario import Scenario

from .chunkutil import mk_store
from .common import *

ASSUMPTIONS = [
    "the old layout is <h[:2]>/<h[2:4]>/<h>.chunk.lzo below the store and no "
    "file named store, as the conversion expects it",
    "the file system keeps the order of metadata operations (names) across a "
    "power failure; rename is atomic",
    "names and contents of the chunks are fixed examples, including equal "
    "and differing prefixes; which chunks exist, where, and the crash point "
    "are symbolic",
]

# same directory, same first directory, other directory, directory that is
# called like the other one's subdirectory
HASHES = [
    "aabb" + "0" * 28,
    "aabb" + "1" * 28,
    "aacc" + "0" * 28,
    "bbaa" + "2" * 28,
    "0000" + "3" * 28,
]


def old_path(h):
    return f"{h[:2]}/{h[2:4]}/{h}.chunk.lzo"


def new_path(h):
    return f"{h[:2]}/{h}.chunk.lzo"


def content(h):
    return b"content of " + h.encode()


def put(p, data):
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_bytes(data)


def files(root):
    """All files below root."""
    r = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(d, f), "rb") as fh:
                r[os.path.relpath(os.path.join(d, f), root)] = fh.read()
    return r


def dirs(root):
    return {
        os.path.relpath(os.path.join(d, x), root)
        for d, xs, _ in os.walk(root) for x in xs
    }


def mk(ctx, env):
    """A store of the old layout; -> its path and chunks"""
    P = ctx.params
    path = env.tmp / "chunks"
    path.mkdir()
    if not P["bare"] or ctx.flag("all directories exist"):
        for x in range(256):
            (path / f"{x:02x}").mkdir()
    chunks = []
    for i, h in enumerate(HASHES[: P["chunks"]]):
        where = ctx.choice(f"chunk{i}", ["none", "old", "new"])
        if where == "none":
            continue
        chunks.append(h)
        put(path / (old_path(h) if where == "old" else new_path(h)),
            content(h))
    if ctx.flag("empty directory"):
        (path / "aa" / "dd").mkdir(parents=True)
    if P["stray"] and ctx.flag("stray"):
        # a killed backup left this
        put(path / "aa" / "bb" / "tmpabc123_x", b"part of a chunk")
    return path, chunks


def check_store(ctx, env, path, chunks, when):
    """The store of the real code has exactly these chunks."""
    try:
        st = mk_store(env, path)
    except OSError as e:
        ctx.check(False, f"the store can be opened {when} ({e.strerror})")
        return
    ctx.check(set(st.ls()) == set(chunks), f"all chunks are listed {when}")
    for h in chunks:
        p = st.chunk_path(h)
        ctx.check(
            p.is_file() and p.read_bytes() == content(h),
            f"each chunk has its content {when}",
        )
    return st


def convert(ctx, env):
    path, chunks = mk(ctx, env)
    check_store(ctx, env, path, chunks, "after the conversion")
    ctx.cover(f"{len(chunks)} chunks")
    before = files(path), dirs(path)
    check_store(ctx, env, path, chunks, "when it is opened again")
    ctx.check(
        (files(path), dirs(path)) == before,
        "the converted store is left as it is",
    )


def interrupted(ctx, env):
    path, chunks = mk(ctx, env)
    with Trace(env, path) as t:
        mk_store(env, path)
    machine = ctx.choice("kind", ["process", "machine"]) == "machine"
    c = Crash(ctx, t, machine)
    exists = lambda x: x is not None
    marked = c.cond("store", exists)
    for h in chunks:
        good = lambda x: x == content(h)
        ctx.check(
            disj(ctx, c.cond(old_path(h), good), c.cond(new_path(h), good)),
            "every chunk is where it was or where it belongs",
        )
        ctx.check(
            implies(ctx, marked, c.cond(new_path(h), good)),
            "a store that is marked as converted has its chunks in place",
        )
    ctx.cover("crash")
    if not ctx.symbolic:
        d = env.tmp / "after"
        c.materialize(d)
        check_store(ctx, env, d, chunks, "after an interruption")


def twice(ctx, env):
    """Interrupted (maybe twice), then run again."""
    path, chunks = mk(ctx, env)
    for i in range(ctx.params["crashes"]):
        with Trace(env, path) as t:
            mk_store(env, path)
        k = ctx.int(f"crash{i}.k", 0, t.n)
        if ctx.symbolic:
            k = ctx.concretize(k.e, "crash point", limit=600)
        k = min(k, t.n)
        d = env.tmp / f"after{i}"
        Crash(ConcreteCtx({"crash.k": k}), t, False).materialize(d)
        path = d
    check_store(ctx, env, path, chunks, "after interruptions")
    ctx.cover("again")


def current(ctx, env):
    """A store of the current layout is left alone."""
    path = env.tmp / "chunks"
    st = mk_store(env, path)
    want = []
    for i, h in enumerate(HASHES[: ctx.params["chunks"]]):
        if ctx.flag(f"chunk{i}"):
            put(st.chunk_path(h), content(h))
            want.append(h)
    if ctx.flag("stray"):
        put(path / "aa" / "tmpabc123_x", b"part of a chunk")
    if ctx.flag("foreign directory"):
        put(path / "aa" / "bb" / "x", b"something else")
    if ctx.flag("other version"):
        (path / "store").write_bytes(b"v3")
    before = files(path), dirs(path)
    check_store(ctx, env, path, want, "afterwards")
    ctx.check(
        (files(path), dirs(path)) == before,
        "a store of the current layout is left as it is",
    )
    ctx.cover("current")


def scenarios(tier):
    n = 4 if tier == "quick" else 5
    q = [
        Scenario(
            "convert", convert,
            f"any set of up to {n} chunks, each in its old or already in its "
            "new place; with or without all directories, an empty directory, "
            "a left-over temporary file",
            dict(chunks=n, stray=True, bare=True),
            ["0 chunks", f"{n} chunks"],
        ),
        Scenario(
            "interrupted", interrupted,
            "up to 3 chunks; killed process or stopped machine after any "
            "number of file system operations",
            dict(chunks=3, stray=False, bare=False), ["crash"],
        ),
        Scenario(
            "twice", twice,
            "up to 3 chunks; killed after any number of operations, once "
            "(quick) or twice (thorough), then opened again",
            dict(chunks=3, stray=False, bare=False,
                 crashes=1 if tier == "quick" else 2),
            ["again"],
        ),
        Scenario(
            "current", current,
            f"any subset of {n} chunks, with or without foreign files",
            dict(chunks=n), ["current"],
        ),
    ]
    return q
