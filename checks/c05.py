"""C05: applying an RBD diff yields the new image or fails."""

from sx.scenario import Scenario
from sx.symbytes import blob_eq, zeroes

from .common import *
from .chunkutil import CS, Model, chunk_assumptions, mk_store, open_image
from .rbdutil import *

ASSUMPTIONS = chunk_assumptions + [
    "the stream follows the RBD diff v1 format: from, to and size records, "
    "then data and (non-empty) zero records inside the announced size, then "
    "the end marker; the stand-in for the pipe delivers as many bytes as requested "
    "unless the stream ends",
]


def parent_image(ctx, env, path):
    P = ctx.params
    n = P.get("n0") or ctx.int("n0", 0, P["parent"])
    d = ctx.blob("parent", n)
    f = open_image(path, mk_store(env), "wb")
    f.write(d)
    f.close()
    m = Model(ctx)
    m.write(d)
    return m


def resize(ctx, m, size):
    """The model of the announced size: cut or extended with zeroes."""
    m.seek(size)
    m.truncate()


def records(ctx, m, size):
    """Data records with their effect on the model."""
    P = ctx.params
    out = []
    prev = 0
    for i, kinds in enumerate(P["records"]):
        k = ctx.choice(f"kind{i}", kinds)
        if k == "none":
            continue
        off = ctx.int(f"off{i}", 0, P["size"])
        n = ctx.int(f"len{i}", 1 if k == "z" else 0, P["len"])
        ctx.assume(off + n <= size)
        if not P.get("overlap"):
            ctx.assume(off >= prev)
        prev = off + n
        d = ctx.blob(f"data{i}", n) if k == "w" else zeroes(ctx, n)
        m.seek(off)
        m.write(d)
        if k == "w":
            out.append(record(ctx, "w", off, d))
        else:
            out.append(record(ctx, "z", off, n))
    return out


def apply(ctx, env, path, stream):
    import backy.rbd.rbd

    f = open_image(path, mk_store(env), "rw")
    try:
        s = env.file(stream)
        d = backy.rbd.rbd.RBDDiffV1(s)
        d.integrate(f, "from-snap", "to-snap")
        return True
    except Exception:
        return False
    finally:
        f.close()


def good(ctx, env):
    env.chunks()
    P = ctx.params
    path = env.tmp / "img"
    m = parent_image(ctx, env, path)
    size = P.get("newsize") or ctx.int("size", 0, P["size"])
    resize(ctx, m, size)
    recs = records(ctx, m, size)
    s = HEADER + record(ctx, "f", "from-snap") + record(ctx, "t", "to-snap")
    s = s + record(ctx, "s", size)
    for r in recs:
        s = s + r
    s = s + record(ctx, "e")
    ok = apply(ctx, env, path, s)
    ctx.check(ok, "a proper diff is accepted")
    f = open_image(path, mk_store(env), "rb")
    ctx.check(f.size == size, "the image has the announced size")
    ctx.check(blob_eq(ctx, f.read(), m.content()), "the image is the new one")
    f.close()
    ctx.cover("end")


def cut(ctx, env):
    """The stream ends early, anywhere."""
    env.chunks()
    P = ctx.params
    path = env.tmp / "img"
    m = parent_image(ctx, env, path)
    size = P.get("newsize") or ctx.int("size", 0, P["size"])
    recs = records(ctx, m, size)
    s = HEADER + record(ctx, "f", "from-snap") + record(ctx, "t", "to-snap")
    s = s + record(ctx, "s", size)
    for r in recs:
        s = s + r
    s = s + record(ctx, "e")
    total = size_of(ctx, s)
    at = ctx.int("cut", 0, 1 << 40)
    ctx.assume(at < total)
    s = s[:at]
    ok = apply(ctx, env, path, s)
    ctx.check(not ok, "a stream without end marker is rejected")
    ctx.cover("end")


def bad(ctx, env):
    """A complete stream with something that does not belong there."""
    env.chunks()
    P = ctx.params
    path = env.tmp / "img"
    m = parent_image(ctx, env, path)
    size = P.get("newsize") or ctx.int("size", 0, P["size"])
    resize(ctx, m, size)
    recs = records(ctx, m, size)
    what = ctx.choice("what", ["from", "to", "header", "unknown"])
    # snapshot names: an arbitrary other name
    other = "x"
    if what in ("from", "to"):
        right = what + "-snap"
        other = ctx.choice(
            "other",
            ["", "x", right[:-1], right + "x", right.upper(),
             "to-snap" if what == "from" else "from-snap"],
        )
    head = HEADER
    if what == "header":
        head = ctx.choice(
            "head",
            [b"rbd diff v2\n", b"", b"rbd diff v1 ", b"\n" + HEADER],
        )
    parts = [
        record(ctx, "f", other if what == "from" else "from-snap"),
        record(ctx, "t", other if what == "to" else "to-snap"),
        record(ctx, "s", size),
        *recs,
        record(ctx, "e"),
    ]
    if what == "unknown":
        i = ctx.pick("where", len(parts))
        b = ctx.choice("byte", [b"x", b"W", b"\0", b"\xff", b"q", b" "])
        parts.insert(i, b + ctx.choice("payload", [b"", b"\0" * 16]))
    s = head
    for p in parts:
        s = s + p
    ok = apply(ctx, env, path, s)
    ctx.check(not ok, f"rejected: {what}")
    ctx.cover(what)


def scenarios(tier):
    h = CS // 2
    wz = ["w", "z"]
    small = dict(n0=100, newsize=150, size=150, len=150)
    r = [
        Scenario(
            "one-record",
            good,
            "parent and new size up to 1.5 chunks, one data or zero record "
            "of any position and length",
            dict(parent=CS + h, size=CS + h, len=CS + h, records=[wz]),
            ["end"],
            path_s=120,
        ),
        Scenario(
            "two-records",
            good,
            "parent of 100 bytes, new size 1 chunk + 50, two records",
            dict(n0=100, newsize=CS + 50, size=CS + 50, len=CS + 50,
                 records=[wz, wz]),
            ["end"],
            path_s=120,
        ),
        Scenario(
            "cut",
            cut,
            "a stream with one record of up to 1.5 chunks cut at any byte",
            dict(n0=100, newsize=CS + h, size=CS + h, len=CS + h,
                 records=[wz]),
            ["end"],
            path_s=120,
        ),
        Scenario(
            "cut-two",
            cut,
            "a stream with two small records cut at any byte",
            dict(small, records=[["w"], ["w", "z"]]),
            ["end"],
            path_s=120,
        ),
        Scenario(
            "bad",
            bad,
            "unknown records anywhere, other snapshot names, other headers",
            dict(small, records=[wz]),
            ["from", "to", "header", "unknown"],
            path_s=120,
        ),
    ]
    if tier != "quick":
        r += [
            Scenario(
                "one-record-large",
                good,
                "parent and new size up to 2.5 chunks",
                dict(parent=2 * CS + h, size=2 * CS + h, len=2 * CS + h,
                     records=[wz]),
                ["end"],
                path_s=180,
            ),
            Scenario(
                "cut-large",
                cut,
                "parent up to 100 bytes, any new size up to 1.5 chunks, up to "
                "two records, cut anywhere",
                dict(parent=100, size=CS + h, len=CS + h,
                     records=[wz, ["none", "w"]]),
                ["end"],
                path_s=180,
            ),
            Scenario(
                "overlap",
                good,
                "two records in any order, also overlapping",
                dict(parent=100, size=CS + h, len=CS + h, overlap=True,
                     records=[wz, wz]),
                ["end"],
                path_s=180,
            ),
            Scenario(
                "three-records",
                good,
                "three records on a parent of up to 1.5 chunks",
                dict(parent=CS + h, size=CS + h, len=CS,
                     records=[wz, wz, ["w"]]),
                ["end"],
                path_s=180,
            ),
        ]
    return r
