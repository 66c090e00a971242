"""C16: expiry."""

import datetime as dt

from sx.scenario import Scenario

from .common import *

ASSUMPTIONS = [
    "revisions have pairwise different timestamps; incomplete ones "
    "carry no tag of the schedule",
    "retention counts are positive (as documented)",
    "metadata file formats of PyYAML are trusted",
]


def expire(ctx, env):
    """Arbitrary history and clock, one expiry run."""
    P = ctx.params
    conf = {}
    for t in P["tags"]:
        conf[t] = {
            "interval": ctx.choice(f"interval.{t}", P["intervals"]),
            "keep": ctx.choice(f"keep.{t}", P["keep"]),
        }
    secs = {"1h": 3600, "1d": 86400, "90s": 90}
    n = P["revs"]
    ts = increasing(ctx, n)
    now = ctx.dt("now", D0, D1)
    env.set_now(now)
    tags, servers, trusts = [], [], []
    for i in range(n):
        tg = ctx.subset(f"tags{i}", P["tags"] + P["extra"])
        srv = ctx.choice(f"server{i}", P["servers"])
        tags.append(tg)
        servers.append(srv)
        trust = ctx.choice(f"trust{i}", P.get("trust", ["trusted"]))
        trusts.append(trust)
        complete = True
        if P.get("incomplete") and ctx.flag(f"incomplete{i}"):
            complete = False
            ctx.assume(not tg & set(conf))
        write_rev(env.tmp, f"r{i}", ts[i], tg, tg, server=srv, trust=trust,
                  complete=complete)
    repo = mk_repo(env.tmp, conf)
    repo.expire()
    after = read_revs(env.tmp)
    history = {r.uuid for r in repo.history}
    for i in range(n):
        expect = {}
        for t in tags[i]:
            if t in conf:
                newer = sum(1 for j in range(i + 1, n) if t in tags[j])
                age_ok = (
                    ts[i]
                    < now
                    - dt.timedelta(seconds=secs[conf[t]["interval"]])
                    * conf[t]["keep"]
                )
                gone = both(newer >= conf[t]["keep"], age_ok)
                expect[t] = neg(ctx, gone)
            else:
                expect[t] = t.startswith("manual:")
        u = f"r{i}"
        any_left = disj(ctx, False, *expect.values())
        if u in after:
            ctx.cover("kept")
            got = set(after[u]["tags"])
            ctx.check(got <= tags[i], "expiry never adds a tag")
            for t in tags[i]:
                ctx.check(
                    iff(ctx, t in got, expect[t]),
                    "a tag goes exactly when retention is exceeded",
                )
            if not got:
                ctx.check(
                    servers[i] != "",
                    "a local revision without tags is removed",
                )
                ctx.cover("remote-kept-empty")
            ctx.check(
                set(after[u]["orig_tags"]) == tags[i],
                "original tags untouched",
            )
            ctx.check(after[u]["server"] == servers[i], "server untouched")
            ctx.check(after[u]["trust"] == trusts[i], "trust untouched")
            ctx.check(u in history, "kept revision stays listed")
        else:
            ctx.cover("removed")
            ctx.check(servers[i] == "", "remote revision is not deleted here")
            ctx.check(
                neg(ctx, any_left),
                "only a revision with no tag left is deleted",
            )
            ctx.check(u not in history, "deleted revision is not listed")


def scenarios(tier):
    r = [
        Scenario(
            "one-tag",
            expire,
            "4 local revisions, 1 scheduled tag, keep 1..3, interval 1h/1d, any clock and ages",
            dict(tags=["a"], extra=[], revs=4, keep=[1, 2, 3],
                 intervals=["1h", "1d"], servers=[""]),
            ["kept", "removed"],
        ),
        Scenario(
            "mixed",
            expire,
            "2 revisions, 2 scheduled tags, a manual and an unknown tag, local or remote",
            dict(tags=["a", "b"], extra=["manual:x", "old"], revs=2,
                 keep=[1], intervals=["1h"], servers=["", "s1"]),
            ["kept", "removed", "remote-kept-empty"],
        ),
        Scenario(
            "trust",
            expire,
            "2 local or remote revisions of any trust, 1 scheduled tag",
            dict(tags=["a"], extra=[], revs=2, keep=[1],
                 intervals=["1h"], servers=["", "s1"],
                 trust=["trusted", "distrusted", "verified"]),
            ["kept", "removed"],
        ),
        Scenario(
            "incomplete",
            expire,
            "2 revisions, of which some are incomplete and carry no "
            "scheduled tag, local or remote",
            dict(tags=["a"], extra=["old"], revs=2, keep=[1],
                 intervals=["1h"], servers=["", "s1"], incomplete=True),
            ["kept", "removed"],
        ),
        Scenario(
            "two-tags",
            expire,
            "3 local revisions, 2 scheduled tags with different keep",
            dict(tags=["a", "b"], extra=[], revs=3, keep=[1, 2],
                 intervals=["90s"], servers=[""]),
            ["kept", "removed"],
        ),
        Scenario(
            "tag-names",
            expire,
            "2 revisions, 1 scheduled tag and tags which resemble manual "
            "ones",
            dict(tags=["a"], extra=["manual", "manually", "Manual:x",
                                    "xmanual:x", "manual:"], revs=2,
                 keep=[1], intervals=["1h"], servers=[""], ),
            ["kept", "removed"],
        ),
    ]
    if tier == "thorough":
        r += [
            Scenario(
                "long",
                expire,
                "6 local revisions, 1 tag, keep 1..4",
                dict(tags=["a"], extra=[], revs=6, keep=[1, 2, 3, 4],
                     intervals=["1h", "1d"], servers=[""]),
                ["kept", "removed"],
            ),
            Scenario(
                "mixed3",
                expire,
                "3 revisions, 2 scheduled tags and a manual tag, local or remote",
                dict(tags=["a", "b"], extra=["manual:x"], revs=3,
                     keep=[1, 2], intervals=["1h"], servers=["", "s1"]),
                ["kept", "removed", "remote-kept-empty"],
            ),
        ]
    return r
