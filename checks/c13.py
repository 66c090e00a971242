"""C13: copying and hole punching."""

import ctypes

from sx.scenario import Scenario
from sx.symbytes import SymFile, blob_eq, zeroes

from .common import *
from .chunkutil import CS, chunk_assumptions, mk_store, open_image, size_

ASSUMPTIONS = chunk_assumptions + [
    "the target supports truncation; fallocate() of the C library is either "
    "not available for the file or works as documented (a stand-in in "
    "symbolic runs, the real one in replays)",
]


class KFile(SymFile):
    """A file the kernel's fallocate() works on."""

    fd = 1 << 20

    def fileno(self):
        return self.fd


def kernel(env, content):
    """A file for which hole punching is supported."""
    import backy.utils

    if not env.ctx.symbolic:
        return env.file(content)
    f = KFile(env.ctx, content)

    def fallocate(fd, mode, offset, n):
        if fd != f.fd:
            return -1
        if mode & 2:
            if not mode & 1:
                return -1  # not supported
            size = f.content._symlen()
            if offset < size:
                end = offset + n
                if end > size:
                    end = size
                f.content = (
                    f.content[:offset]
                    + zeroes(env.ctx, end - offset)
                    + f.content[end:]
                )
            return 0
        if mode & ~1:
            return -1
        if not mode & 1:
            f.truncate(offset + n)
        return 0

    class Lib:
        pass

    lib = Lib()
    lib.fallocate = fallocate
    env.p.setattr(ctypes, "CDLL", lambda *a, **kw: lib)
    env.p.replace(backy.utils.fallocate, backy.utils._make_fallocate())
    return f


class Rec:
    """A file that notes where it was written."""

    def __init__(self, f, log):
        self._f, self._log = f, log

    def write(self, data):
        pos = self._f.tell()
        self._log.append((pos, size_(data)))
        return self._f.write(data)

    def __getattr__(self, n):
        return getattr(self._f, n)


def source(ctx, env):
    """data, zeroes, data"""
    P = ctx.params
    n = ctx.int("n", 0, P["size"])
    d = ctx.blob("src", n)
    if P.get("zeroes"):
        if P.get("aligned"):
            d = ctx.blob("src", CS) + zeroes(
                ctx, CS * (1 + ctx.pick("nz", P["zeroes"]))
            ) + ctx.blob("end", n)
        else:
            d = d + zeroes(ctx, ctx.int("nz", 0, P["zeroes"]))
            d = d + ctx.blob("end", 5)
    if P.get("image"):
        f = open_image(env.tmp / "img", mk_store(env), "wb")
        f.write(d)
        f.close()
        return d, open_image(env.tmp / "img", mk_store(env), "rb")
    return d, env.file(d)


def copy(ctx, env):
    import backy.utils

    env.chunks()
    P = ctx.params
    d, s = source(ctx, env)
    old = ctx.choice("old", P["old"])
    t = b""
    if old == "other":
        t = ctx.blob("old", ctx.int("no", 0, P["oldsize"]))
    elif old == "zero":
        t = zeroes(ctx, ctx.int("no", 0, P["oldsize"]))
    tf = env.file(t)
    if P.get("moved"):
        s.seek(ctx.int("sp", 0, 5))
    r = backy.utils.copy(s, tf)
    ctx.check(r == size_(d), "the size is returned")
    ctx.check(blob_eq(ctx, env.content(tf), d), "the target is the source")
    ctx.cover(old)


def overwrite(ctx, env):
    import backy.utils

    env.chunks()
    P = ctx.params
    d, s = source(ctx, env)
    n = size_(d)
    how = ctx.choice("how", P["how"])
    p, m = 0, 0
    if how == "same":
        t = d
    elif how == "altered":
        # an older version of the source
        p = ctx.int("p", 0, P["pos"])
        m = ctx.int("m", 1, P["pos"])
        ctx.assume(p + m <= n)
        t = d[:p] + ctx.blob("x", m) + d[p + m:]
    elif how == "shorter":
        p = ctx.int("p", 0, P["pos"])
        ctx.assume(p < n)
        t = d[:p]
        m = n - p
    elif how == "longer":
        t = d + ctx.blob("x", ctx.int("m", 1, P["pos"]))
    elif how == "other":
        m = ctx.int("m", 0, P["pos"])
        t = ctx.blob("x", m)
        p, m = 0, n
    f = (kernel(env, t) if P.get("kernel") else env.file(t))
    log = []
    tf = Rec(f, log)
    real = backy.utils.punch_hole

    def punch(f, offset, len_):
        log.append((offset, len_))
        real(f, offset, len_)

    env.p.replace(real, punch)
    r = backy.utils.copy_overwrite(s, tf)
    env.p.replace(punch, real)
    ctx.check(r == n, "the size is returned")
    ctx.check(blob_eq(ctx, env.content(f), d), "the target is the source")
    # no access to equal blocks
    for pos, ln in log:
        if not ln > 0:
            continue
        first = (pos // CS) * CS
        last = ((pos + ln - 1) // CS) * CS
        ctx.check(
            disj(ctx, how == "other",
                 conj(ctx, m > 0, p < first + CS, p + m > first)),
            "equal blocks are not written",
        )
        ctx.check(
            disj(ctx, how == "other",
                 conj(ctx, m > 0, p < last + CS, p + m > last)),
            "equal blocks are not written",
        )
    ctx.cover(how)


def punch(ctx, env):
    import backy.utils

    env.chunks()
    P = ctx.params
    n = ctx.int("n", 1, P["size"])
    d = ctx.blob("d", n)
    p = ctx.int("p", 0, P["size"])
    m = ctx.int("m", 1, P["size"])
    ctx.assume(p + m <= n)
    if P.get("image"):
        f = open_image(env.tmp / "img", mk_store(env), "rw")
        f.write(d)
    elif ctx.flag("kernel"):
        f = kernel(env, d)
    else:
        f = env.file(d)
    at = ctx.int("at", 0, P["size"])
    ctx.assume(at <= n)
    f.seek(at)
    backy.utils.punch_hole(f, p, m)
    ctx.check(f.tell() == at, "the position stays")
    f.seek(0)
    got = f.read()
    want = d[:p] + zeroes(ctx, m) + d[p + m:]
    ctx.check(
        blob_eq(ctx, got, want), "exactly the given range is zeroed"
    )
    ctx.cover("end")


def scenarios(tier):
    h = CS // 2
    how = ["same", "altered", "shorter", "longer", "other"]
    olds = ["none", "other", "zero"]
    r = [
        Scenario(
            "copy",
            copy,
            "file up to 2.5 blocks over any file up to 3 blocks",
            dict(size=2 * CS + h, old=olds, oldsize=3 * CS, moved=True),
            olds,
            path_s=120,
        ),
        Scenario(
            "copy-image",
            copy,
            "image with data, zeroes, data up to 2 blocks over any file",
            dict(size=h, zeroes=CS, old=["other"], oldsize=2 * CS,
                 image=True),
            ["other"],
            path_s=120,
        ),
        Scenario(
            "overwrite",
            overwrite,
            "file up to 2 blocks over an older version of itself that "
            "differs in any range or in size, or over another file",
            dict(size=2 * CS, how=how, pos=2 * CS),
            how,
            path_s=120,
        ),
        Scenario(
            "overwrite-zeroes",
            overwrite,
            "data, up to 2 zero blocks, data over an older version differing "
            "in any range",
            dict(size=100, zeroes=2, aligned=True, how=how, pos=3 * CS),
            how,
            path_s=120,
        ),
        Scenario(
            "overwrite-holes",
            overwrite,
            "the same with fallocate() available",
            dict(size=100, zeroes=1, aligned=True, how=how, pos=2 * CS,
                 kernel=True),
            how,
            path_s=120,
        ),
        Scenario(
            "punch",
            punch,
            "any range of a file up to 2 blocks",
            dict(size=2 * CS),
            ["end"],
            path_s=120,
        ),
        Scenario(
            "punch-image",
            punch,
            "any range of an image up to 1.5 chunks",
            dict(size=CS + h, image=True),
            ["end"],
            path_s=120,
        ),
    ]
    if tier != "quick":
        r += [
            Scenario(
                "overwrite-large",
                overwrite,
                "file of up to 4 blocks with unaligned zeroes",
                dict(size=2 * CS, zeroes=2 * CS, how=how, pos=4 * CS),
                how,
                path_s=200,
            ),
            Scenario(
                "copy-large",
                copy,
                "file up to 6 blocks over any file up to 7 blocks",
                dict(size=6 * CS, old=olds, oldsize=7 * CS),
                olds,
                path_s=200,
            ),
        ]
    return r
