"""C14: the next run time of a schedule."""

import datetime as dt

from sx import proxies
from sx.scenario import Scenario

UTC = dt.timezone.utc
ASSUMPTIONS = [
    "float arithmetic is modelled as exact reals plus a rounding error of at "
    "most half an ulp of a static magnitude bound per operation",
    "intervals come from a fixed list of configured duration strings",
]
EPOCH = dt.datetime(1, 1, 1, tzinfo=UTC)
MS = dt.timedelta(milliseconds=1)


def next_in_interval(ctx, env):
    import backy.schedule
    import backy.utils

    interval = backy.schedule.parse_duration(
        ctx.choice("interval", ctx.params["intervals"])
    )
    now = ctx.dt(
        "now",
        dt.datetime(2000, 1, 1, tzinfo=UTC),
        dt.datetime(2100, 1, 1, tzinfo=UTC),
    )
    spread = ctx.int("spread", 0, 3 * 7 * 86400)
    t = backy.schedule.next_in_interval(now, interval, spread)
    ctx.cover("computed")
    ctx.check(t > now - MS, "next time is not in the past")
    ctx.check(
        t - now <= interval + MS, "next time at most one interval away"
    )
    # looking again at a later instant gives the same slot until that slot is
    # reached, and the one exactly one interval further in the interval after
    later = ctx.td("later_us", 1000, 6 * 7 * 86400 * 1_000_000)
    again = now + later
    t2 = backy.schedule.next_in_interval(again, interval, spread)
    if again < t - MS:
        want = t
        ctx.cover("stable")
    else:
        ctx.assume((again > t + MS) & (again < t + interval - MS))
        want = t + interval
        ctx.cover("following")
    ctx.check(
        (t2 - want < MS) & (want - t2 < MS),
        "slots form a fixed grid, one interval apart",
    )


def whole(ctx, env):
    """Points in time that are whole seconds, in particular the slots."""
    import backy.schedule
    import backy.utils

    ctx.exact_ints = True
    interval = backy.schedule.parse_duration(
        ctx.choice("interval", ctx.params["intervals"])
    )
    start = dt.datetime(2024, 1, 1, tzinfo=UTC)
    now = start + dt.timedelta(seconds=1) * ctx.int("now", 0, 10**9)
    spread = ctx.int("spread", 0, 3 * 7 * 86400)
    t = backy.schedule.next_in_interval(now, interval, spread)
    ctx.check(t > now, "the next time is in the future")
    ctx.check(t - now <= interval, "it is at most one interval away")
    later = ctx.int("later", 0, 10**7)
    again = now + dt.timedelta(seconds=1) * later
    t2 = backy.schedule.next_in_interval(again, interval, spread)
    if again < t:
        ctx.check(t2 == t, "the slot stays until it is reached")
    else:
        ctx.assume(again < t + interval)
        ctx.check(t2 == t + interval, "then it is the one an interval later")
    ctx.cover("computed")


def ideal(ctx, env):
    """Several tags: the earliest slot wins, with exactly its tags."""
    import backy.schedule

    conf = {}
    names = ["a", "b", "c"][: ctx.params["tags"]]
    for t in names:
        conf[t] = {
            "interval": ctx.choice(f"interval.{t}", ctx.params["intervals"]),
            "keep": 1,
        }
    s = backy.schedule.Schedule()
    s.configure(conf)
    now = ctx.dt(
        "now",
        dt.datetime(2000, 1, 1, tzinfo=UTC),
        dt.datetime(2100, 1, 1, tzinfo=UTC),
    )
    spread = ctx.int("spread", 0, 3 * 7 * 86400)
    time, tags = s._next_ideal(now, spread)
    ctx.check(len(tags) > 0, "some tag is due")
    for t in names:
        own = backy.schedule.next_in_interval(
            now, s.schedule[t]["interval"], spread
        )
        ctx.check(time <= own, "earliest slot of all tags")
        if t in tags:
            ctx.check(own == time, "tag in result is due at that time")
        else:
            ctx.check(own > time, "tag due at that time is in the result")
    ctx.cover("multi" if len(tags) > 1 else "single")


def scenarios(tier):
    iv = ["1m", "7m", "1h", "5h", "1d", "1w"]
    if tier == "thorough":
        iv = ["1s", "59", "1m", "7m", "1h", "5h", "13h", "1d", "3d", "1w", "5w"]
    return [
        Scenario(
            "next",
            next_in_interval,
            f"now: any microsecond of 2000..2099, spread 0..3 weeks, interval in {iv}",
            {"intervals": iv},
            ["computed", "stable", "following"],
        ),
        Scenario(
            "whole",
            whole,
            f"now: any full second of about 30 years, in particular the slots themselves, spread 0..3 weeks, interval in {iv}",
            {"intervals": iv},
            ["computed"],
        ),
        Scenario(
            "ideal2",
            ideal,
            "2 tags, intervals from 1h/1d/1w, any now/spread",
            {"tags": 2, "intervals": ["1h", "1d", "1w"]},
            ["single", "multi"],
        ),
    ]
