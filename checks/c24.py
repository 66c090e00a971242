"""C24: changing revisions through the API."""

import fcntl

from sx.scenario import Scenario

from .c23 import is_text
from .daemonutil import *

ASSUMPTIONS = [
    "requests are handed to the application's router and middlewares "
    "directly; HTTP parsing by aiohttp is not encoded",
]


def setup(ctx, env, active):
    import backy.daemon.api

    json_setup(env)
    d = mk_daemon(env)
    if active:
        job = add_job(env, d, "b", {"daily": {"interval": "1d", "keep": 3}})
        repo = job.repository
    else:
        repo = mk_repo(d.base_dir / "b")
        d.dead_repositories["b"] = repo
    api = backy.daemon.api.BackyAPI(d, LOG)
    return d, repo, api


def call(api, *a, **kw):
    async def go():
        await api.start()
        await api.reconfigure({"t": "client"}, [], 0)
        r = await api_request(
            api, *a, headers={"Authorization": "Bearer t"}, **kw
        )
        await api.stop()
        return r

    return run(go())


def tags(ctx, env):
    """PUT .../tags"""
    P = ctx.params
    active = ctx.flag("active")
    d, repo, api = setup(ctx, env, active)
    n = P["tags"]
    t = increasing(ctx, 3)
    cur = {ctx.str(f"cur{i}", 3) for i in range(n)}
    other = {ctx.lit("other")}
    write = lambda u, ts, tg, **kw: write_rev2(repo.path, u, ts, tg, **kw)
    write("u0", t[0], cur, complete=ctx.flag("complete"))
    write("u1", t[1], other)
    write("u2", t[2], other, server="s1")
    old = [ctx.str(f"old{i}", 3) for i in range(ctx.pick("nold", n + 1))]
    new = [ctx.str(f"new{i}", 3) for i in range(ctx.pick("nnew", n + 1))]
    auto = ctx.choice("autoremove", ["0", "1", None])
    spec = ctx.choice("spec", ["u0", "nope"])
    name = ctx.choice("name", ["b", "x"])
    body = {"old_tags": old, "new_tags": new}
    miss = ctx.choice("missing", ["no", "old_tags", "new_tags"])
    if miss != "no":
        del body[miss]
    busy = ctx.flag("busy")
    before = read_revs(repo.path)
    lock = None
    if busy:
        lock = open(repo.path / ".backup", "w")
        fcntl.flock(lock, fcntl.LOCK_EX)
    status, resp = call(
        api, "PUT", f"/v1/backups/{name}/revs/{spec}/tags",
        query={"autoremove": auto} if auto is not None else {}, json=body,
    )
    if lock:
        lock.close()
    after = read_revs(repo.path)
    ctx.check(resp is None or status >= 400 or status == 204, "no document")
    for u in ("u1", "u2"):
        ctx.check(
            u in after and after[u] == before[u], "others are unchanged"
        )
    old_s, new_s = set(old), set(new)
    if miss != "no":
        ctx.check(status == 400, "incomplete requests are refused")
    elif name == "x":
        ctx.check(status == 404, "an unknown backup is reported")
    elif active:
        ctx.check(status == 403, "an active backup is refused")
    elif busy:
        ctx.check(status == 503, "a busy backup is reported")
    elif spec == "nope":
        ctx.check(status == 404, "an unknown revision is reported")
    elif old_s != cur:
        ctx.cover("conflict")
        ctx.check(status == 412, "other tags than expected: refused")
    else:
        ctx.cover("applied")
        ctx.check(status == 204, "accepted")
        if not new_s and auto == "1":
            ctx.cover("removed")
            ctx.check("u0" not in after, "the revision is deleted")
        else:
            ctx.check("u0" in after, "the revision is kept")
            if "u0" in after:
                ctx.check(
                    set(after["u0"]["tags"]) == new_s, "exactly the new tags"
                )
                ctx.check(
                    rest(after["u0"]) == rest(before["u0"]),
                    "nothing else changes",
                )
        return
    ctx.check(after == before, "nothing changes")


def rest(d):
    return {k: v for k, v in d.items() if k not in ("tags", "parent")}


def write_rev2(path, uuid, ts, tags, **kw):
    """tags may be symbolic"""
    write_rev(path, uuid, ts, (), **kw)
    import yaml

    p = path / (uuid + ".rev")
    with open(p) as f:
        d = yaml.safe_load(f)
    d["tags"] = list(tags)
    with open(p, "w") as f:
        yaml.safe_dump(d, f)


def rest_api(ctx, env):
    """The other requests for backups and jobs."""
    active = ctx.flag("active")
    d, repo, api = setup(ctx, env, active)
    n = 3
    t = increasing(ctx, n)
    revs = []
    for i in range(n):
        server = ctx.choice(f"server{i}", ["", "s1"])
        complete = ctx.flag(f"complete{i}")
        revs.append((f"u{i}", server, complete))
    trust = ctx.choice("trust", ["trusted", "distrusted"])
    for i, (u, server, complete) in enumerate(revs):
        write_rev(repo.path, u, t[i], ["a"], server=server,
                  complete=complete, trust=trust)
    before = read_revs(repo.path)
    req = ctx.choice(
        "request", ["purge", "touch", "revs", "run", "backups", "jobs"])
    name = ctx.choice("name", ["b", "x"])
    known = name == "b"
    os.utime(repo.path, (1, 1))
    touched = lambda: os.stat(repo.path).st_mtime > 10
    if req == "purge":
        status, _ = call(api, "POST", f"/v1/backups/{name}/purge")
        ctx.check(
            status == (404 if not known else 403 if active else 202),
            "purge requests are accepted for inactive backups only",
        )
        ctx.check(
            (repo.path / ".purge_pending").exists() == (status == 202),
            "purge request recorded",
        )
        ctx.cover("purge")
    elif req == "touch":
        status, _ = call(api, "POST", f"/v1/backups/{name}/touch")
        ctx.check(status == (204 if known else 404), "touch")
        ctx.check(touched() == known, "touched")
    elif req == "revs":
        only = ctx.choice("only_clean", [None, "0", "1"])
        change = ctx.choice("since", ["no", "edited", "removed"])
        tagged = ["a"] * n
        if change != "no":
            # after it was listed before
            import backy.daemon.api

            call(backy.daemon.api.BackyAPI(d, LOG), "GET",
                 f"/v1/backups/{name}/revs")
            u, server, complete = revs[1]
            if change == "edited":
                tagged[1] = "b"
                write_rev(repo.path, u, t[1], ["b"], server=server,
                          complete=complete, trust=trust)
            else:
                (repo.path / (u + ".rev")).unlink()
            before = read_revs(repo.path)
            ctx.cover("since")
        status, resp = call(
            api, "GET", f"/v1/backups/{name}/revs",
            query={"only_clean": only} if only is not None else {},
        )
        ctx.check(status == (200 if known else 404), "list of revisions")
        if known:
            got = decode(ctx, resp)
            want = [
                i for i, (u, s, c) in enumerate(revs)
                if not s and (c or only != "1")
                and not (i == 1 and change == "removed")
            ]
            ctx.check(
                [g["uuid"] for g in got] == [f"u{i}" for i in want],
                "exactly the local revisions are listed",
            )
            for g, i in zip(got, want):
                ts = g["timestamp"]
                if isinstance(ts, str):
                    if ctx.symbolic:
                        ts = ctx.registry[int(ts.split(":")[1])]
                    else:
                        ts = dt.datetime.fromisoformat(ts)
                ctx.check(ts == t[i], "their timestamp")
                ctx.check(set(g["tags"]) == {tagged[i]}, "their tags")
                ctx.check(
                    ("duration" in g["stats"]) == revs[i][2], "statistics"
                )
            ctx.cover("revs")
    elif req == "run":
        status, _ = call(api, "POST", f"/v1/jobs/{name}/run")
        ctx.check(
            status == (202 if known and active else 404), "run a job"
        )
        if active:
            ctx.check(
                d.jobs["b"].run_immediately.is_set() == known, "job triggered"
            )
    elif req == "backups":
        status, resp = call(api, "GET", "/v1/backups")
        ctx.check(
            decode(ctx, resp) == ([] if active else ["b"]),
            "inactive backups are listed",
        )
    elif req == "jobs":
        status, resp = call(api, "GET", "/v1/jobs")
        ctx.check(
            [j["name"] for j in decode(ctx, resp)] == (
                ["b"] if active else []),
            "jobs are listed",
        )
    ctx.check(read_revs(repo.path) == before, "no revision changes")


def scenarios(tier):
    r = [
        Scenario(
            "tags",
            tags,
            "one current tag, up to one expected and one new tag, of up to 3 "
            "arbitrary characters each; any state of the backup",
            dict(tags=1),
            ["applied", "conflict", "removed"],
        ),
        Scenario(
            "other-requests",
            rest_api,
            "3 revisions of any server, complete or not",
            {},
            ["purge", "revs", "since"],
        ),
    ]
    if tier == "thorough":
        r.append(
            Scenario(
                "tags2",
                tags,
                "two current, up to two expected and new tags",
                dict(tags=2),
                ["applied", "conflict", "removed"],
            )
        )
    return r
