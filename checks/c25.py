"""C25: pulling the metadata of peers."""

import aiohttp

from sx.scenario import Scenario

from .c24 import write_rev2
from .daemonutil import *

ASSUMPTIONS = [
    "peers run the API of this code base on their own repositories; the HTTP "
    "transport between client and API is a stand-in that delivers or fails "
    "requests as a whole",
    "revision IDs are unique across servers",
    "a peer that answers with another error than 403/404 is only required to "
    "be counted and to not disturb others",
]

FAULTS = ["ok", "unreachable", "unknown", "forbidden", "error", "broken",
          "timeout"]


def fault_of(kind):
    return {
        "timeout": lambda: TimeoutError(),
        "unreachable": lambda: aiohttp.ClientConnectionError("no route"),
        "unknown": lambda: (404, None),
        "forbidden": lambda: (403, None),
        "error": lambda: (500, None),
        "broken": lambda: aiohttp.ClientPayloadError("broken"),
    }[kind]


def pull(ctx, env):
    P = ctx.params
    json_setup(env)
    names = [f"p{i}" for i in range(P["peers"])]
    d = mk_daemon(env, peers=peer_conf(names))
    job = add_job(env, d, "b", {"daily": {"interval": "1d", "keep": 3}})
    here = job.repository
    t = ctx.dt("t", D0, D1)
    servers = {}
    faults = {}
    when = {}
    expect = {}  # uuid -> what is recorded afterwards; None: anything
    # own revisions and such of a server that is no longer a peer
    n = 0
    write_rev2(here.path, "own1", t, [ctx.str("owntag", 3)])
    write_rev2(here.path, "own2", t, ["x"], complete=False,
               trust="distrusted")
    if ctx.flag("dead"):
        write_rev2(here.path, "dead1", t, [ctx.lit("x")], server="gone")
    for p in names:
        srv = Server(env, p, f"token-{p}")
        f = faults[p] = ctx.choice(f"fault-{p}", P["faults"])
        when[p] = ctx.choice(f"when-{p}", ["GET", "POST"]) if f != "ok" else ""
        there = srv.repo("b", active=ctx.flag(f"active-{p}")
                         if P.get("active") else False)

        async def handle(method, path, params, json, headers, srv=srv, p=p):
            if faults[p] != "ok" and method == when[p]:
                r = fault_of(faults[p])()
                return r
            return await srv(method, path, params, json, headers)

        servers[f"http://{p}"] = handle
        for k in range(P["revs"]):
            u = f"{p}r{k}"
            there_k = ctx.choice(
                f"there-{u}",
                P.get("there", ["no", "yes", "incomplete", "remote"]),
            )
            rec = ctx.choice(
                f"rec-{u}", P.get("rec", ["no", "same", "tags", "trust"])
            )
            ts = ctx.dt(f"t-{u}", D0, D1)
            tag = ctx.str(f"tag-{u}", 3)
            ptags = ctx.choice(
                f"ptags-{u}", P.get("ptags", [1]))
            ptags = [tag] if ptags == 1 else ptags
            dur = ctx.real(f"dur-{u}", 0, 1000)
            st = {"bytes_written": 7}
            if there_k != "incomplete":
                st["duration"] = dur
            if there_k != "no":
                write_rev2(there.path, u, ts, ptags,
                           server="other" if there_k == "remote" else "",
                           stats=st, trust=P.get("trust", "trusted"))
            old = None
            if rec != "no":
                tg = [tag] if rec != "tags" else [ctx.str(f"htag-{u}", 3)]
                write_rev2(
                    here.path, u, ts, tg, server=p, stats=st,
                    trust="verified" if rec == "trust" else "trusted",
                )
                set_orig(here.path, u, tg)
                old = read_revs(here.path)[u]
            if f == "ok":
                if there_k == "yes":
                    expect[u] = dict(
                        uuid=u, timestamp=ts, tags=ptags, orig_tags=ptags,
                        server=p, trust="trusted", stats=st,
                    )
            elif f in ("unreachable", "timeout"):
                if old:
                    expect[u] = old
            elif f in ("error", "broken"):
                expect[u] = None
    before = read_revs(here.path)
    Peers(env, servers)
    here.scan()

    async def go():
        return await job.pull_metadata()

    errors = run(go())
    after = read_revs(here.path)
    bad = [p for p in names if faults[p] not in ("ok", "unknown", "forbidden")]
    ctx.check(errors == len(bad), "peers with errors are counted")
    for u in set(before) | set(after) | set(expect):
        if u.startswith("own"):
            ctx.check(
                u in after and after[u] == before[u],
                "local revisions are never changed",
            )
        elif u in expect and expect[u] is None:
            continue
        elif u not in expect:
            ctx.check(
                u not in after,
                "revisions the peer does not report are dropped",
            )
        else:
            ctx.check(u in after, "reported or unreachable: recorded")
            if u not in after:
                continue
            a, w = after[u], expect[u]
            for k in ("uuid", "timestamp", "server", "trust", "stats"):
                ctx.check(a[k] == w[k], f"metadata of the peer: {k}")
            for k in ("tags", "orig_tags"):
                ctx.check(
                    set(a[k]) == set(w[k]), f"metadata of the peer: {k}"
                )
            ctx.cover("recorded")
    for p in names:
        if faults[p] == "ok":
            ctx.cover("pulled")


def set_orig(path, u, tags):
    import yaml

    p = path / (u + ".rev")
    with open(p) as f:
        d = yaml.safe_load(f)
    d["orig_tags"] = list(tags)
    with open(p, "w") as f:
        yaml.safe_dump(d, f)


def scenarios(tier):
    r = [
        Scenario(
            "one-peer",
            pull,
            "one peer with up to 2 revisions, each recorded here or not with "
            "the same or other metadata, own revisions and such of a former "
            "peer; peer reachable",
            dict(peers=1, revs=2, faults=["ok"], active=True),
            ["pulled", "recorded"],
        ),
        Scenario(
            "attributes",
            pull,
            "one peer with a revision without or with manual tags",
            dict(peers=1, revs=1, faults=["ok"], there=["yes"],
                 ptags=[[], ["manual:x"], ["zz", "daily", "manual:y"]],
                 rec=["no", "same", "tags"]),
            ["pulled", "recorded"],
        ),
        Scenario(
            "failing",
            pull,
            "two peers with up to 1 revision each, failing in any way",
            dict(peers=2, revs=1, faults=["ok", "timeout", "unknown"],
                 there=["no", "yes"], rec=["no", "tags"]),
            ["pulled", "recorded"],
        ),
        Scenario(
            "one-failing",
            pull,
            "one peer with up to 1 revision, failing in any way",
            dict(peers=1, revs=1, faults=FAULTS),
            ["pulled", "recorded"],
        ),
    ]
    if tier == "thorough":
        r.append(
            Scenario(
                "two-peers",
                pull,
                "two peers with 2 revisions each, failing in any way",
                dict(peers=2, revs=2, faults=FAULTS),
                ["pulled", "recorded"],
            )
        )
    return r
