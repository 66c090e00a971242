"""C47: the configuration means what the manual says."""

import json as json_
import pathlib
import re

import yaml

from sx import proxies
from sx.scenario import Scenario

from .c41 import Sites, _settle
from .daemonutil import *

ASSUMPTIONS = [
    "the configuration file is valid YAML; names and settings are of the "
    "kinds the manual describes",
    "sockets are stand-ins that record their addresses",
]

UNITS = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800}


def seconds(ctx, n):
    if ctx.symbolic:
        return proxies.SymTD(ctx, n.e * 1000000)
    return dt.timedelta(seconds=n)


def same(ctx, got, want):
    if not isinstance(got, dict) or set(got) != set(want):
        return False
    return conj(ctx, *[
        conj(
            ctx,
            got[t]["interval"] == seconds(ctx, want[t][0]),
            got[t]["keep"] == want[t][1],
        )
        for t in want
    ])


def schedules(ctx, env):
    """Intervals and numbers of copies, as the daemon, its jobs and the
    command line see them."""
    import backy.daemon
    import backy.daemon.scheduler
    import backy.source

    P = ctx.params
    base = env.tmp / "base"
    base.mkdir()
    conf, want = {}, {}
    for s in P["schedules"]:
        conf[s], want[s] = {}, {}
        for t in P["tags"]:
            if t != P["tags"][0] and not ctx.flag(f"{t} in {s}"):
                continue
            n, text = ctx.decimal(f"interval {s}-{t}", 1, 99999)
            unit = ctx.choice(f"unit {s}-{t}", sorted(UNITS))
            keep = ctx.int(f"keep {s}-{t}", 1, 9999)
            conf[s][t] = {"interval": text + unit, "keep": keep}
            want[s][t] = (n * UNITS[unit], keep)
    jobs = {
        f"job{i}": {
            "source": {"type": "file", "filename": f"/file{i}"},
            "schedule": ctx.choice(f"schedule{i}", P["schedules"]),
        }
        for i in range(P["jobs"])
    }
    f = env.tmp / "backy.conf"
    f.write_text(yaml.safe_dump({
        "global": {"base-dir": str(base)}, "schedules": conf, "jobs": jobs,
    }))

    async def go(lp):
        d = backy.daemon.BackyDaemon(f, LOG)
        d.loop = lp
        env.p.setattr(
            backy.daemon.scheduler.Job, "start", lambda self: None
        )
        d._read_config()
        ctx.check(set(d.schedules) == set(want), "the schedules defined")
        for s in want:
            ctx.check(
                same(ctx, d.schedules[s].schedule, want[s]),
                "intervals and numbers as configured",
            )
        d._apply_config()
        for n, j in d.jobs.items():
            ctx.check(
                same(ctx, j.schedule.schedule, want[jobs[n]["schedule"]]),
                "a job's intervals and numbers are those of its schedule",
            )
            # what the subprocesses and the command line see
            c = backy.source.CmdLineSource.load(base / n, LOG)
            ctx.check(
                same(
                    ctx, c.repository.schedule.schedule,
                    want[jobs[n]["schedule"]],
                ),
                "the command line sees the same",
            )
            ctx.check(
                c.repository.path == base / n
                and c.source_conf == jobs[n]["source"],
                "with its source and directory",
            )
            # what API clients see
            js = json_.loads(json_.dumps(j.repository.schedule.to_dict()
                                         if not ctx.symbolic else {}))
            r = type(j.schedule).from_dict(
                j.repository.schedule.to_dict() if ctx.symbolic else js
            )
            ctx.check(
                same(ctx, r.schedule, want[jobs[n]["schedule"]]),
                "API clients see the same",
            )
        ctx.cover("end")

    run_daemon(env, go)


def run_daemon(env, go):
    env.set_now(D1)
    lp = VLoop(lambda r: bool(lp._ready), lambda f: f())
    try:
        asyncio.set_event_loop(lp)
        lp.set_exception_handler(lambda *a: None)
        lp.run_until_complete(go(lp))
    finally:
        for t in asyncio.all_tasks(lp):
            t.cancel()
        lp.on_wait = None
        lp.timers = []
        with contextlib.suppress(BaseException):
            lp.run_until_complete(_settle(lp))
        asyncio.set_event_loop(None)
        lp.close()


def settings(ctx, env):
    """Each setting is the given one or the default."""
    import backy.daemon

    P = ctx.params
    sites = Sites(env)
    base = env.tmp / "base"
    base.mkdir()
    g, api, c = {}, {}, {"schedules": {}, "jobs": {}}
    want = {}
    if ctx.flag("base-dir"):
        g["base-dir"] = str(base)
        want["base"] = base
    else:
        want["base"] = pathlib.Path("/srv/backy")
    k = ctx.choice("worker-limit", ["default", "number", "text"])
    if k == "default":
        want["limit"] = 1
    else:
        n, text = ctx.decimal("limit", 1, 99)
        want["limit"] = n
        g["worker-limit"] = n if k == "number" else text
    callback = None
    more = ctx.flag("more")  # settings that stand for themselves
    if more if P["together"] else ctx.flag("callback"):
        callback = g["backup-completed-callback"] = "/bin/callback"
    addrs = ctx.choice("addrs", P["addrs"])
    if addrs is not None:
        api["addrs"] = addrs
        want["addrs"] = [x for x in re.split("[, ]+", addrs) if x]
    else:
        want["addrs"] = ["127.0.0.1", "::1"]
    port = ctx.choice("port", P["ports"])
    if port is not None:
        api["port"] = port
    want["port"] = int(port or 6023)
    tokens = {}
    if more if P["together"] else ctx.flag("tokens"):
        tokens = api["tokens"] = {"t1": "server1", "t2": "cli"}
    cli = ctx.choice("cli", P["cli"])
    if cli is not None:
        api["cli-default"] = cli
    peers = {}
    if more if P["together"] else ctx.flag("peers"):
        peers = c["peers"] = {"server1": {"url": "http://s1", "token": "x"}}
    empty = ctx.flag("empty sections") if not (g and api) else False
    if g or empty:
        c["global"] = g
    if api or empty:
        c["api"] = api
    f = env.tmp / "backy.conf"
    f.write_text(yaml.safe_dump(c))
    d = backy.daemon.BackyDaemon(f, LOG)
    d._read_config()
    ctx.check(d.base_dir == want["base"], "the base directory")
    ctx.check(d.worker_limit == want["limit"], "the worker limit")
    ctx.check(
        d.backup_completed_callback
        == (pathlib.Path(callback) if callback else None),
        "the callback",
    )
    ctx.check(d.peers == peers, "the peers")
    ctx.check(d.api_tokens == tokens, "the tokens")

    async def go(lp):
        d.loop = lp
        d.api_server()
        for i in range(20):
            await asyncio.sleep(0)

    run_daemon(env, go)
    ctx.check(
        sites.open == {(a, want["port"]) for a in want["addrs"]},
        "the API listens on the addresses and the port",
    )
    ctx.cover("end")
    # the command line client
    got = []

    class Session:
        def __init__(self, base_url, *a, headers={}, **kw):
            got.append((str(base_url), dict(headers)))

    import aiohttp

    if cli is None:
        return
    import backy.cli
    import yarl

    env.p.setattr(aiohttp, "ClientSession", Session)

    async def client():
        backy.cli.Command(env.tmp, f, False, None, LOG).api

    run(client())
    ((url, headers),) = got
    ctx.check(
        headers.get("Authorization") == "Bearer " + cli["token"],
        "the client uses the default token",
    )
    if "url" in cli:
        ctx.check(url == cli["url"], "the client uses the given URL")
        return
    try:
        u = yarl.URL(url)
        at = (u.scheme, u.host, u.port)
    except ValueError:
        at = ()
    ctx.check(
        at[:1] == ("http",) and at[1:] in sites.open,
        "the client uses an address on which the API listens",
    )
    ctx.cover("client")


def scenarios(tier):
    big = tier == "thorough"
    return [
        Scenario(
            "schedules", schedules,
            "1 to 2 schedules of 1 to 2 tags with any interval of up to 5 "
            "digits, any unit and number of copies",
            dict(
                schedules=["sa", "sb"] if big else ["sa"],
                tags=["t0", "t1"], jobs=2 if big else 1,
            ),
            ["end"],
        ),
        Scenario(
            "settings", settings,
            "any selection of settings; any worker limit; 6 kinds of listen "
            "addresses",
            dict(
                addrs=[None, "127.0.0.1", "::1, 127.0.0.1",
                       "10.0.0.1,::1", "2001:db8::7", "localhost"],
                ports=[None, 8080, "9000"] if big else [None, "9000"],
                together=not big,
                cli=[None, {"token": "t2"},
                     {"token": "t3", "url": "http://other:1"}],
            ),
            ["end", "client"],
        ),
    ]
