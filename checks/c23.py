"""C23: authentication of API requests."""

from sx.scenario import Scenario

from .daemonutil import *

ASSUMPTIONS = [
    "requests are handed to the application's router and middlewares "
    "directly; HTTP parsing by aiohttp is not encoded",
    "configured tokens name a non-empty client",
]

ROUTES = [
    ("GET", "/v1/status"),
    ("POST", "/v1/reload"),
    ("GET", "/v1/jobs"),
    ("POST", "/v1/jobs/j/run"),
    ("GET", "/v1/backups"),
    ("POST", "/v1/backups/d/purge"),
    ("POST", "/v1/backups/d/touch"),
    ("GET", "/v1/backups/d/revs"),
    ("PUT", "/v1/backups/d/revs/u1/tags"),
    ("GET", "/v1/nothing"),
    ("DELETE", "/v1/backups"),
]


def setup(ctx, env):
    import backy.daemon.api

    d = mk_daemon(env)
    job = add_job(env, d, "j", {"daily": {"interval": "1d", "keep": 3}})
    job.repository.connect()
    dead = mk_repo(d.base_dir / "d")
    write_rev(dead.path, "u1", D0, ["a"])
    d.dead_repositories["d"] = dead
    api = backy.daemon.api.BackyAPI(d, LOG)
    os.utime(dead.path, (1, 1))
    return d, job, dead, api


def state(d, job, dead, reloaded):
    return (
        read_revs(dead.path),
        sorted(os.listdir(dead.path)),
        os.stat(dead.path).st_mtime_ns,
        job.run_immediately.is_set(),
        list(reloaded),
    )


def auth(ctx, env):
    P = ctx.params
    d, job, dead, api = setup(ctx, env)
    reloaded = []
    d.reload = lambda: reloaded.append(1)
    n = P["tokens"]
    tokens = [ctx.str(f"token{i}", 5) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(tokens[i] != tokens[j])
    table = {t: f"client{i}" for i, t in enumerate(tokens)}
    kind = ctx.choice("header", ["none", "any", "bearer"])
    method, path = ctx.choice("route", P["routes"])
    headers = {}
    if kind == "any":
        headers["Authorization"] = ctx.str("auth", 13)
    elif kind == "bearer":
        headers["Authorization"] = ctx.str("auth", 7, pre="Bearer ")
    seen = []
    before = state(d, job, dead, reloaded)

    async def go():
        await api.start()
        if ctx.flag("reconfigured"):
            # of the old table nothing must be left
            await api.reconfigure({ctx.lit("other"): "old"}, [], 0)
        await api.reconfigure(table, [], 0)
        json = {"old_tags": ["a"], "new_tags": ["b"]}
        r = await api_request(
            api, method, path, headers=headers, json=json, seen=seen
        )
        await api.stop()
        return r

    status, resp = run(go())
    given = headers.get("Authorization")
    who = []
    for i in range(n):
        who.append(
            False if given is None else is_text(
                ctx, given, cat(ctx, "Bearer ", tokens[i])
            )
        )
    valid = disj(ctx, False, *who)
    ctx.check(
        iff(ctx, status != 401, valid),
        "401 exactly without a configured bearer token",
    )
    if status == 401:
        ctx.cover("refused")
        ctx.check(
            state(d, job, dead, reloaded) == before, "a refused request has "
            "no effect",
        )
        ctx.check(resp is None, "and returns nothing")
    else:
        ctx.cover("served")
        c = seen[0].get("client")
        for i in range(n):
            ctx.check(
                implies(ctx, who[i], c == f"client{i}"),
                "served on behalf of the token's client",
            )
        if path == "/v1/reload":
            ctx.check(reloaded == [1], "reload is done")
        if path == "/v1/jobs/j/run":
            ctx.check(job.run_immediately.is_set(), "job is started")
        if path.endswith("/tags"):
            ctx.check(
                read_revs(dead.path)["u1"]["tags"] == ["b"], "tags are set"
            )
        if path.endswith("/purge"):
            ctx.check(
                (dead.path / ".purge_pending").exists(), "purge is requested"
            )
        if path.endswith("/touch"):
            ctx.check(
                os.stat(dead.path).st_mtime > 10, "directory is touched"
            )


def cat(ctx, a, b):
    return ctx.lit(a) + b if ctx.symbolic else a + b


def is_text(ctx, a, b):
    if ctx.symbolic:
        from sx.proxies import SymBool, zstr

        return SymBool(ctx, zstr(a) == zstr(b))
    return a == b


def scenarios(tier):
    r = [
        Scenario(
            "routes",
            auth,
            "every route, any header of up to 13 characters, one token of "
            "up to 5",
            dict(tokens=1, routes=ROUTES),
            ["refused", "served"],
        ),
        Scenario(
            "tokens",
            auth,
            "any header, a table of 3 different tokens of up to 5 characters",
            dict(tokens=3, routes=ROUTES[1:2]),
            ["refused", "served"],
        ),
        Scenario(
            "empty-table",
            auth,
            "no token configured",
            dict(tokens=0, routes=ROUTES[:2]),
            ["refused"],
        ),
    ]
    if tier == "thorough":
        r.append(
            Scenario(
                "all",
                auth,
                "every route, 4 tokens",
                dict(tokens=4, routes=ROUTES),
                ["refused", "served"],
            )
        )
    return r
