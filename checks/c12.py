"""C12: file comparisons never call differing contents equal."""

import datetime as dt

from sx.scenario import Scenario
from sx.symbytes import blob_eq

from .common import *
from .chunkutil import CS, chunk_assumptions, open_image, mk_store, size_

ASSUMPTIONS = chunk_assumptions + [
    "random.sample may return any distinct elements; the clock may stand "
    "still or pass the time limit at any of its readings",
]


def variant(ctx, a, n, maxlen):
    """Another content with the range in which it differs from a."""
    how = ctx.choice("how", ctx.params["how"])
    if how == "same":
        return how, a, 0, 0
    p = ctx.int("p", 0, maxlen)
    if how == "altered":
        ln = ctx.int("ln", 1, maxlen)
        ctx.assume(p + ln <= n)
        return how, a[:p] + ctx.blob("x", ln) + a[p + ln:], p, ln
    if how == "shorter":
        ctx.assume(p < n)
        return how, a[:p], p, n - p
    assert how == "longer"
    ln = ctx.int("ln", 1, maxlen)
    return how, a + ctx.blob("x", ln), n, ln


def full(ctx, env):
    import backy.utils

    env.chunks()
    P = ctx.params
    n = ctx.int("n", 0, P["size"])
    a = ctx.blob("a", n)
    how, b, p, ln = variant(ctx, a, n, P["size"])
    fa, fb = env.file(a), env.file(b)
    if P.get("chunked"):
        # the second one is an image
        f = open_image(env.tmp / "img", mk_store(env), "wb")
        f.write(b)
        f.close()
        fb = open_image(env.tmp / "img", mk_store(env), "rb")
    if ctx.flag("swap"):
        fa, fb = fb, fa
        la = size_(b)
    else:
        la = n
    reports = []
    r = backy.utils.files_are_equal(
        fa, fb, report=lambda x, y, off: reports.append((x, y, off))
    )
    ctx.check(bool(r) == (how == "same"), "equal exactly if contents are")
    # expected reports: blocks of the first file and the one at its end
    k = 0
    want = []
    while True:
        lo, hi = k * CS, (k + 1) * CS
        if ln and bool(p < hi) and bool(p + ln > lo):
            want.append(lo)
        if lo >= la:
            break
        k += 1
    ctx.check(
        len(reports) == len(want), "each differing block is reported once"
    )
    for (x, y, off), lo in zip(reports, want):
        ctx.check(off == lo, "with its offset")
        ca, cb = (b, a) if la is not n else (a, b)
        ctx.check(blob_eq(ctx, x, ca[lo:lo + CS]), "with the first block")
        ctx.check(blob_eq(ctx, y, cb[lo:lo + CS]), "with the second block")
    ctx.cover(how)


def sampled(ctx, env):
    import random

    import backy.utils

    env.chunks()
    P = ctx.params
    bs = P["bs"]
    blocks = ctx.pick("blocks", P["blocks"]) + 1
    n = blocks * bs
    a = ctx.blob("a", n)
    how, b, p, ln = variant(ctx, a, n, P["blocks"] * bs)
    fa, fb = env.file(a), env.file(b)
    # the clock
    start = dt.datetime(2024, 1, 1, tzinfo=dt.timezone.utc)
    limit = 300 if P.get("default") else P["timeout"]
    late = ctx.td("late", 0, 2 * limit * 1000000)
    switch = ctx.pick("switch", P["switch"])
    calls = [0]
    ran_out = [False]

    def now():
        calls[0] += 1
        if calls[0] > switch + 1:
            ran_out[0] = True
            return start + late
        return start

    env.set_now(now)
    drawn = []
    draw = random.sample

    def sample(population, k, **kw):
        v = draw(population, k, **kw)
        drawn.extend(v)
        return v

    env.p.setattr(random, "sample", sample)
    env.p.replace(draw, sample)
    reports = []
    kw = {} if P.get("default") else dict(
        samplesize=P["samplesize"], blocksize=bs, timeout=limit
    )
    r = backy.utils.files_are_roughly_equal(
        fa, fb, report=lambda x, y, off: reports.append((x, y, off)), **kw
    )
    r = bool(r)
    drawn = list(drawn)
    if how == "same":
        ctx.check(r, "equal files are never called different")
        ctx.check(not reports, "and nothing is reported")
        ctx.cover("same")
        return
    ctx.check(len(drawn) >= 1, "at least one block is sampled")
    looked = [
        conj(ctx, p < (x + 1) * bs, p + ln > x * bs) for x in drawn
    ]
    if r:
        ctx.cover("accepted")
        out = conj(
            ctx, ran_out[0], late > dt.timedelta(seconds=limit)
        )
        ctx.check(
            disj(ctx, out, neg(ctx, disj(ctx, False, *looked))),
            "a differing sampled block is noticed",
        )
        ctx.check(
            disj(ctx, out, how == "altered"), "different sizes are noticed"
        )
        ctx.check(not reports, "nothing is reported")
    else:
        ctx.cover("refused")
        ctx.check(len(reports) == 1, "a difference is reported")
        x, y, off = reports[0]
        ctx.check(
            conj(ctx, p < off + bs, p + ln > off), "at its offset"
        )
        ctx.check(
            neg(ctx, _eq(ctx, x, y)), "with the differing blocks"
        )
        end = off + bs
        ctx.check(blob_eq(ctx, x, a[off:end]), "with the first block")
        ctx.check(blob_eq(ctx, y, b[off:end]), "with the second block")


def _eq(ctx, x, y):
    return blob_eq(ctx, x, y) if not ctx.symbolic else bool(x == y)


def scenarios(tier):
    how = ["same", "altered", "shorter", "longer"]
    h = CS // 2
    r = [
        Scenario(
            "full",
            full,
            "files up to 2.5 blocks, one differing from the other in any "
            "range or in size",
            dict(size=2 * CS + h, how=how),
            how,
            path_s=120,
        ),
        Scenario(
            "full-image",
            full,
            "the same with an image as one of the files, up to 1.5 blocks",
            dict(size=CS + h, how=how, chunked=True),
            how,
            path_s=120,
        ),
        Scenario(
            "sampled",
            sampled,
            "files of up to 2 blocks of 10 bytes, all sampled in any order, "
            "differing in any range or in size; the time limit is reached at "
            "any point",
            dict(bs=10, blocks=2, how=how, samplesize=1.0, timeout=60,
                 switch=3),
            ["same", "accepted", "refused"],
            path_s=120,
        ),
        Scenario(
            "sampled-few",
            sampled,
            "3 blocks of which 1 is sampled",
            dict(bs=10, blocks=3, how=how, samplesize=0.5, timeout=60,
                 switch=2),
            ["same", "accepted", "refused"],
            path_s=120,
        ),
        Scenario(
            "sampled-default",
            sampled,
            "1 or 2 blocks of 4 MiB with the default sample and time limit",
            dict(bs=CS, blocks=2, how=how, default=True, switch=2),
            ["same", "accepted", "refused"],
            path_s=120,
        ),
    ]
    if tier != "quick":
        r.append(
            Scenario(
                "sampled-three",
                sampled,
                "3 blocks, all sampled",
                dict(bs=10, blocks=3, how=how, samplesize=1.0, timeout=60,
                     switch=4),
                ["same", "accepted", "refused"],
                path_s=120,
            )
        )
    return r
