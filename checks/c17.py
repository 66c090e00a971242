"""C17: SLA, check and status."""

import datetime as dt

from sx.scenario import Scenario

from .common import *
from .daemonutil import add_job, mk_daemon

ASSUMPTIONS = [
    "revisions have pairwise different timestamps",
    "the SLA threshold is half a microsecond exact for the intervals used",
]

SECS = {"1h": 3600, "1d": 86400, "90s": 90, "1w": 604800}


def sla(ctx, env):
    P = ctx.params
    conf = {t: {"interval": ctx.choice(f"interval.{t}", P["intervals"]),
                "keep": 1} for t in P["tags"]}
    n = P["revs"]
    now = ctx.dt("now", D0, D1)
    env.set_now(now)
    ts = increasing(ctx, n) if n else []
    daemon = mk_daemon(env)
    path = daemon.base_dir / "job"
    path.mkdir()
    revs = []
    for i in range(n):
        complete = ctx.flag(f"complete{i}")
        srv = ctx.choice(f"server{i}", P["servers"])
        tags = ctx.choice(f"tags{i}", P["revtags"])
        orig = tags if not srv or not ctx.flag(f"changed{i}") else []
        trust = ctx.choice(f"trust{i}", P.get("trust", ["trusted"]))
        dur = ctx.real(f"dur{i}", 0, 10**6)
        revs.append((ts[i], complete, srv, set(tags), set(orig), dur))
        write_rev(path, f"r{i}", ts[i], tags, orig, complete=complete,
                  server=srv, duration=dur, trust=trust)
    (path / "quarantine").mkdir()
    nrep = ctx.choice("reports", P["reports"])
    for i in range(nrep):
        (path / "quarantine" / f"p{i}.report").write_text("x")
    job = add_job(env, daemon, "job", conf)
    repo = mk_repo(path, conf)
    clean = [r for r in revs if r[1]]
    shortest = min(SECS[c["interval"]] for c in conf.values())
    if clean:
        age = now - clean[-1][0]
        violated = age > dt.timedelta(seconds=shortest * 1.5)
    else:
        violated = False
    import backy.cli

    cmd = backy.cli.Command(path, env.tmp / "c", False, None, LOG)
    code = cmd.check(repo)
    bad = bool(violated)
    ctx.cover("violated" if bad else "held")
    ctx.check(repo.sla == (not bad), "sla reflects the last completed backup")
    if bad:
        ctx.check(repo.sla_overdue == age.total_seconds(),
                  "overdue time is the age of the last completed backup")
    else:
        ctx.check(repo.sla_overdue == 0, "no overdue time without violation")
    want = 2 if bad else (1 if nrep else 0)
    ctx.check(code == want, "exit code of check")
    job.next_time = nt = ctx.dt("next", D0, D1)
    job.next_tags = set(P["tags"][:1])
    # a later observation: another revision may have been completed
    st = daemon.status()
    ctx.check(len(st) == 1, "one entry per job")
    st = st[0]
    ctx.check(st["job"] == "job", "job name")
    ctx.check(st["sla"] == ("TOO OLD" if bad else "OK"),
              "status agrees with check")
    ctx.check(st["sla_overdue"] == (age.total_seconds() if bad else 0),
              "status: overdue time")
    ctx.check(st["problem_reports"] == nrep, "status: reports")
    if clean:
        last = clean[-1]
        ctx.check(st["last_time"] == last[0], "status: last time")
        ctx.check(set((st["last_tags"] or "").split(",")) - {""} == last[3],
                  "status: last tags")
        ctx.check(st["last_duration"] == last[5], "status: last duration")
    else:
        ctx.check(st["last_time"] is None, "status: no last time")
    ctx.check(st["next_time"] == nt, "status: next time")
    ctx.check(st["next_tags"] == P["tags"][0], "status: next tags")
    ctx.check(
        st["local_revs"] == sum(1 for r in clean if not r[2]),
        "status: local completed revisions",
    )
    ctx.check(
        st["unsynced_revs"]
        == sum(1 for r in clean if r[2] and r[3] != r[4]),
        "status: unsynced revisions",
    )
    manual = {t for r in clean for t in r[3] if t.startswith("manual:")}
    ctx.check(
        set(st["manual_tags"].split(", ")) - {""} == manual,
        "status: manual tags",
    )


def scenarios(tier):
    r = [
        Scenario(
            "history2",
            sla,
            "2 revisions, complete or not, local or remote, 2 tags with 1h/1d/90s; any clock, ages and durations",
            dict(revs=2, tags=["a", "b"], intervals=["1h", "90s"],
                 servers=["", "s1"], revtags=[["a"], ["a", "manual:x"]],
                 reports=[0, 2]),
            ["violated", "held"],
        ),
        Scenario(
            "history3",
            sla,
            "3 local revisions, complete or not, 1 tag",
            dict(revs=3, tags=["a"], intervals=["1h", "1d", "90s"],
                 servers=[""], revtags=[["a"]], reports=[0, 1]),
            ["violated", "held"],
        ),
        Scenario(
            "trust",
            sla,
            "2 revisions of any trust, complete or not, local or remote",
            dict(revs=2, tags=["a"], intervals=["1h"],
                 servers=["", "s1"], revtags=[["a"], []], reports=[0],
                 trust=["trusted", "distrusted", "verified"]),
            ["violated", "held"],
        ),
        Scenario(
            "history0",
            sla,
            "no revision",
            dict(revs=0, tags=["a"], intervals=["1h", "1d"],
                 servers=[""], revtags=[["a"]], reports=[0, 1]),
            ["held"],
        ),
    ]
    if tier == "thorough":
        r.append(
            Scenario(
                "history3-mixed",
                sla,
                "3 revisions, local or remote, 2 tags",
                dict(revs=3, tags=["a", "b"], intervals=["1h", "1d"],
                     servers=["", "s1"],
                     revtags=[["a"], ["b", "manual:x"]], reports=[0, 1]),
                ["violated", "held"],
            )
        )
    return r
