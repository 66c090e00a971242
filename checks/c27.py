"""C27: leaving the backup to a peer."""

import re

import aiohttp

from sx.scenario import Scenario

from .daemonutil import *

ASSUMPTIONS = [
    "the HTTP transport between client and API is a stand-in that delivers or "
    "fails requests as a whole; a peer answers with the status records of "
    "all its jobs whose name matches the requested filter",
    "time spans between dates are below ten years",
    "if several peers share the highest count any of them may be followed",
]

FIVE = dt.timedelta(minutes=5)


class Answers:
    """status answers per peer and poll, made up on demand"""

    def __init__(self, ctx, job):
        self.ctx = ctx
        self.job = job
        self.memo = {}

    def get(self, p, k):
        if (p, k) in self.memo:
            return self.memo[p, k]
        ctx, P = self.ctx, self.ctx.params
        last = k + 1 >= P["polls"]
        kinds = P["first"] if k == 0 else P["later"]
        kind = ctx.choice(f"kind-{p}-{k}", kinds)
        a = dict(kind=kind)
        if kind == "status":
            a["revs"] = ctx.int(f"revs-{p}-{k}", 0, 5) if k == 0 else 9
            a["running"] = False if last else ctx.flag(f"running-{p}-{k}")
            a["last"] = (
                ctx.dt(f"last-{p}-{k}", D0, D1)
                if ctx.flag(f"haslast-{p}-{k}") else None
            )
            a["next"] = (
                ctx.dt(f"next-{p}-{k}", D0, D1)
                if ctx.flag(f"hasnext-{p}-{k}") else None
            )
        self.memo[p, k] = a
        return a


def leader(ctx, env):
    P = ctx.params
    json_setup(env)
    name = P.get("job", "b")
    names = [f"p{i}" for i in range(P["peers"])]
    d = mk_daemon(env, peers=peer_conf(names))
    job = add_job(env, d, name, {"daily": {"interval": "1d", "keep": 3}})
    # the own revisions: only complete local ones count
    own = 0
    if P["own"]:
        own = ctx.choice("own", [0, 1, 2])
        for i in range(own):
            write_rev(job.path, f"own{i}", D0 + hours(i))
        write_rev(job.path, "part", D0 + hours(5), complete=False)
        write_rev(job.path, "far1", D0 + hours(6), server="p0")
        write_rev(job.path, "far2", D0 + hours(7), server="p0")
        job.repository.connect()
    now = env.start = ctx.dt("now", D0, D1)
    due = ctx.dt("due", D0, D1)
    ans = Answers(ctx, name)
    polls = {p: 0 for p in names}

    def status(j, a):
        return dict(
            job=j, sla="OK", sla_overdue=0, local_revs=a["revs"],
            status="running" if a["running"] else "",
            last_time=a["last"] and a["last"].isoformat(),
            next_time=a["next"] and a["next"].isoformat(),
            last_tags=None, last_duration=None, next_tags=None,
            manual_tags="", problem_reports=0, unsynced_revs=0,
        )

    def server(p):
        def handle(method, path, params, json, headers):
            assert method == "GET" and path == "/v1/status", path
            a = ans.get(p, polls[p])
            polls[p] += 1
            k = a["kind"]
            if k == "unreachable":
                return aiohttp.ClientConnectionError("no route")
            if k == "timeout":
                return TimeoutError()
            if k == "error":
                return 500, None
            if k == "broken":
                return aiohttp.ClientPayloadError("x")
            jobs = []
            # other jobs whose names may match by accident
            for o in P.get("others", []):
                jobs.append(status(o, dict(
                    revs=7, running=False, last=due, next=None)))
            if k == "status":
                jobs.append(status(name, a))
            f = params.get("filter") or ""
            return 200, [j for j in jobs if re.search(f, j["job"])]
        return handle

    Peers(env, {f"http://{p}": server(p) for p in names})
    pushed = []

    def on_wait(remaining):
        k = len(pushed)
        go = k < P["polls"] and P["run"] and ctx.flag(f"run-{k}")
        pushed.append(go)
        if go:
            job.run_immediately.set()
        return go

    async def go(loop):
        t = asyncio.ensure_future(job._wait_for_leader(due))
        return await t

    res = vrun(go, on_wait)
    ctx.check(
        not (job.run_immediately.is_set()), "a request to run is consumed"
    )

    # the oracle
    def follow(p):
        k = 0
        while True:
            a = ans.get(p, k)
            if a["kind"] != "status":
                return False
            if a["last"] is not None and a["last"] > due - FIVE:
                return True
            if not a["running"]:
                return False
            if a["next"] is not None and a["next"] > due + FIVE:
                return False
            if k < len(pushed) and pushed[k]:
                return False
            k += 1
            if k > P["polls"]:
                return None

    best, most = [], own
    for p in names:
        a = ans.get(p, 0)
        if a["kind"] != "status":
            continue
        if a["revs"] > most:
            most = a["revs"]
            best = [p]
        elif best and a["revs"] == most:
            best.append(p)
    if not best:
        ctx.cover("no leader")
        ctx.check(res is False, "without a leader the job backs up itself")
        return
    want = set(follow(p) for p in best)
    ctx.cover("done" if True in want else "not done")
    if any(pushed):
        ctx.cover("run now")
    if len(pushed) > 1:
        ctx.cover("polled twice")
    ctx.check(
        bool(res) in want,
        "the backup is left to the leader exactly if it was made there",
    )


BAD = ["unknown", "unreachable", "timeout", "error", "broken"]

def scenarios(tier):
    res = QUICK[:]
    if tier == "thorough":
        res += DEEP
    return res


QUICK = [
    Scenario(
        "one", leader,
        "one peer, 0..2 own revisions, up to 2 polls, all times, answers and "
        "failures",
        dict(peers=1, own=True, polls=2, run=True, first=["status"] + BAD,
             later=["status"] + BAD),
        covers=["no leader", "done", "not done", "run now"],
    ),
    Scenario(
        "two", leader,
        "two peers with any counts, one poll",
        dict(peers=2, own=False, polls=1, run=False,
             first=["status", "unknown", "unreachable"], later=["status"]),
        covers=["no leader", "done", "not done"],
    ),
    Scenario(
        "polls", leader, "one peer, up to 3 polls",
        dict(peers=1, own=False, polls=3, run=True, first=["status"],
             later=["status", "unreachable"]),
        covers=["polled twice", "run now", "done", "not done"],
    ),
    Scenario(
        "names", leader, "peer with jobs of similar names",
        dict(peers=1, own=False, polls=2, run=False, job="a.b",
             others=["axb", "a.bc", "za.b"], first=["status", "unknown"],
             later=["status", "unknown"]),
        covers=["no leader", "done", "not done"],
    ),
]

DEEP = [
    Scenario(
        "three", leader, "three peers, two polls",
        dict(peers=3, own=False, polls=2, run=False,
             first=["status", "unreachable"], later=["status", "error"]),
        covers=["no leader", "done", "not done"],
    ),
]
