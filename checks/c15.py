"""C15: missed backups are caught up."""

import datetime as dt

from sx.scenario import Scenario

from .common import *

ASSUMPTIONS = [
    "the regular next run is what Schedule.next names for a repository where "
    "nothing is missed (its grid is decided by C14)",
    "revisions have pairwise different timestamps",
]

SECS = {"1h": 3600, "1d": 86400, "90s": 90, "1w": 604800}


def catchup(ctx, env):
    P = ctx.params
    conf = {t: {"interval": ctx.choice(f"interval.{t}", P["intervals"]),
                "keep": 1} for t in P["tags"]}
    n = P["revs"]
    now = ctx.dt("now", D0, D1)
    env.set_now(now)
    ts = increasing(ctx, n) if n else []
    revs = []
    (env.tmp / "repo").mkdir()
    (env.tmp / "ideal").mkdir()
    for i in range(n):
        tg = ctx.subset(f"tags{i}", P["tags"] + P["extra"])
        complete = ctx.flag(f"complete{i}") if P["incomplete"] else True
        srv = ctx.choice(f"server{i}", P["servers"])
        trust = ctx.choice(f"trust{i}", P.get("trust", ["trusted"]))
        revs.append((ts[i], tg, complete))
        write_rev(env.tmp / "repo", f"r{i}", ts[i], tg, complete=complete,
                  server=srv, trust=trust)
    write_rev(env.tmp / "ideal", "x", now, P["tags"])
    repo = mk_repo(env.tmp / "repo", conf)
    ideal_repo = mk_repo(env.tmp / "ideal", conf)
    spread = ctx.choice("spread", P["spreads"])
    itime, itags = repo.schedule.next(now, spread, ideal_repo)
    itags = set(itags)
    ctx.check(len(itags) > 0, "a regular run has tags")
    missed = {}
    for t in P["tags"]:
        limit = now - dt.timedelta(seconds=SECS[conf[t]["interval"]])
        fresh = [
            r[0] > limit for r in revs if t in r[1] and r[2]
        ]
        missed[t] = neg(ctx, disj(ctx, False, *fresh))
    time, tags = repo.schedule.next(now, spread, repo)
    tags = set(tags)
    any_missed = disj(ctx, *missed.values())
    far = itime > now + dt.timedelta(seconds=300)
    catch = conj(ctx, any_missed, bool(n), far)
    if catch:
        ctx.cover("catch-up")
        ctx.check(time == now, "a missed backup is due now")
        for t in P["tags"]:
            ctx.check(iff(ctx, t in tags, missed[t]),
                      "the run is for exactly the missed tags")
    else:
        ctx.cover("regular")
        ctx.check(time == itime, "otherwise the regular run is next")
        for t in P["tags"]:
            ctx.check(
                iff(ctx, t in tags, disj(ctx, t in itags, missed[t])),
                "the regular run carries its own and all missed tags",
            )
    ctx.check(tags <= set(P["tags"]), "no tag outside the schedule")


def scenarios(tier):
    r = [
        Scenario(
            "one-tag",
            catchup,
            "1 scheduled tag (1h or 1d), 2 revisions, complete or not, local "
            "or remote, with a manual tag; any clock and ages; spread 0/1234",
            dict(tags=["a"], extra=["manual:x"], revs=2, incomplete=True,
                 servers=["", "s1"], intervals=["1h", "1d"], spreads=[0, 1234]),
            ["catch-up", "regular"],
        ),
        Scenario(
            "two-tags",
            catchup,
            "2 scheduled tags, 2 revisions with any tags",
            dict(tags=["a", "b"], extra=[], revs=2, incomplete=True,
                 servers=[""], intervals=["1h", "1d"], spreads=[1800]),
            ["catch-up", "regular"],
        ),
        Scenario(
            "trust",
            catchup,
            "1 scheduled tag, 2 completed local or remote revisions of any "
            "trust",
            dict(tags=["a"], extra=[], revs=2, incomplete=False,
                 servers=["", "s1"], intervals=["1d"], spreads=[0],
                 trust=["trusted", "distrusted", "verified"]),
            ["catch-up", "regular"],
        ),
        Scenario(
            "empty",
            catchup,
            "no history",
            dict(tags=["a", "b"], extra=[], revs=0, incomplete=False,
                 servers=[""], intervals=["1h", "1d", "1w", "90s"],
                 spreads=[0, 1234]),
            ["regular"],
        ),
    ]
    if tier == "thorough":
        r += [
            Scenario(
                "three-tags",
                catchup,
                "3 scheduled tags, 2 revisions",
                dict(tags=["a", "b", "c"], extra=["old"], revs=2,
                     incomplete=True, servers=[""],
                     intervals=["1h", "1d"], spreads=[0, 4000]),
                ["catch-up", "regular"],
            ),
            Scenario(
                "long",
                catchup,
                "2 scheduled tags, 4 revisions",
                dict(tags=["a", "b"], extra=[], revs=4,
                     incomplete=True, servers=[""],
                     intervals=["1h", "1d"], spreads=[77]),
                ["catch-up", "regular"],
            ),
        ]
    return r
