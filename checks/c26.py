"""C26: pushing pending changes to peers."""

import aiohttp

from sx.scenario import Scenario

from .c24 import write_rev2
from .c25 import set_orig
from .daemonutil import *

ASSUMPTIONS = [
    "peers run the API of this code base on their own repositories; the HTTP "
    "transport between client and API is a stand-in that delivers or fails "
    "requests as a whole",
    "revision IDs are unique across servers",
]


def push(ctx, env):
    P = ctx.params
    json_setup(env)
    names = [f"p{i}" for i in range(P["peers"])]
    d = mk_daemon(env, peers=peer_conf(names))
    job = add_job(env, d, "b", {"daily": {"interval": "1d", "keep": 3}})
    here = job.repository
    servers, srvs, faults, purgefault, active = {}, {}, {}, {}, {}
    revs = []
    write_rev2(here.path, "own1", D0, [ctx.str("owntag", 3)])
    set_orig(here.path, "own1", [ctx.str("ownorig", 3)])
    for p in names:
        srv = srvs[p] = Server(env, p, f"token-{p}")
        active[p] = P.get("active") and ctx.flag(f"active-{p}")
        there = srv.repo("b", active=active[p])
        purgefault[p] = ctx.choice(f"purge-{p}", P["purge"])

        async def handle(method, path, params, json, headers, srv=srv, p=p):
            if method == "PUT":
                u = path.split("/")[5]
                f = faults.get(u)
                if f == "unreachable":
                    srv.requests.append((method, path, params, json))
                    return aiohttp.ClientConnectionError("no route")
                if f == "lost":
                    await srv(method, path, params, json, headers)
                    return aiohttp.ClientConnectionError("gone")
                if f == "timeout":
                    srv.requests.append((method, path, params, json))
                    return TimeoutError()
                if f == "broken":
                    srv.requests.append((method, path, params, json))
                    return aiohttp.ClientPayloadError("broken")
            elif path.endswith("/purge"):
                f = purgefault[p]
                if f != "ok":
                    srv.requests.append((method, path, params, json))
                    return {
                        "unreachable": aiohttp.ClientConnectionError("x"),
                        "timeout": TimeoutError(),
                        "error": (500, None),
                        "broken": aiohttp.ClientPayloadError("x"),
                    }[f]
            return await srv(method, path, params, json, headers)

        servers[f"http://{p}"] = handle
        for k in range(P["revs"]):
            u = f"{p}r{k}"
            kind = ctx.choice(f"kind-{u}", P["kinds"])
            complete = kind != "incomplete"
            orig = {ctx.str(f"orig-{u}", 2)}
            tags = set() if kind == "empty" else {ctx.str(f"tag-{u}", 2)}
            if P.get("tagsets"):
                orig = set(ctx.choice(f"origs-{u}", P["tagsets"]))
                tags = set(ctx.choice(f"tags-{u}", P["tagsets"]))
            faults[u] = ctx.choice(f"fault-{u}", P["faults"])
            st = ctx.choice(f"there-{u}", P["there"])
            ttags = None
            if st != "gone":
                ttags = {ctx.str(f"ttag-{u}", 2)} if st == "other" else orig
                write_rev2(there.path, u, D0 + hours(k), list(ttags))
            write_rev2(here.path, u, D0 + hours(k + 1), list(tags),
                       server=p, complete=complete)
            set_orig(here.path, u, list(orig))
            revs.append((p, u, complete, orig, tags, ttags))
    Peers(env, servers)
    here.scan()
    before = read_revs(here.path)

    async def go():
        return await job.push_metadata()

    errors = run(go())
    after = read_revs(here.path)
    ctx.check(after["own1"] == before["own1"], "local revisions stay")
    bad = set()
    removed = set()
    for p, u, complete, orig, tags, ttags in revs:
        pend = complete and tags != orig
        puts = [
            r for r in srvs[p].requests
            if r[0] == "PUT" and f"/{u}/" in r[1]
        ]
        if not pend:
            ctx.cover("nothing")
            ctx.check(not puts, "nothing is sent without a pending change")
            ctx.check(after.get(u) == before[u], "record unchanged")
            continue
        ctx.check(len(puts) == 1, "each pending change is sent exactly once")
        if len(puts) != 1:
            continue
        _, path, params, json = puts[0]
        ctx.check(
            path == f"/v1/backups/b/revs/{u}/tags", "for this revision"
        )
        ctx.check(set(json["old_tags"]) == orig, "expecting the original tags")
        ctx.check(set(json["new_tags"]) == tags, "setting the new tags")
        ctx.check(str(params.get("autoremove")) == "1", "with autoremove")
        f = faults[u]
        accepted = (
            f == "ok" and not active[p] and ttags is not None
            and ttags == orig
        )
        if not accepted:
            ctx.cover("refused")
            ctx.check(
                after.get(u) == before[u], "a failed change stays pending"
            )
            bad.add(p)
        elif tags:
            ctx.cover("settled")
            ctx.check(u in after, "the record is kept")
            if u in after:
                a = after[u]
                ctx.check(
                    set(a["orig_tags"]) == tags and set(a["tags"]) == tags,
                    "an accepted change is settled",
                )
                ctx.check(
                    strip(a) == strip(before[u]), "nothing else changes"
                )
        else:
            ctx.cover("deleted")
            ctx.check(u not in after, "an accepted removal drops the record")
            removed.add(p)
    for p in names:
        purges = [r for r in srvs[p].requests if r[1].endswith("/purge")]
        ctx.check(
            len(purges) == (1 if p in removed else 0),
            "one purge request after removals",
        )
        if p in removed and purgefault[p] != "ok":
            bad.add(p)
        if p in removed and purgefault[p] == "ok":
            ctx.check(
                (srvs[p].daemon.base_dir / "b/.purge_pending").exists(),
                "the peer's purge is pending",
            )
    ctx.check(errors == len(bad), "peers with errors are counted")
    # the peers' repositories
    for p, u, complete, orig, tags, ttags in revs:
        now = read_revs(srvs[p].daemon.base_dir / "b")
        pend = complete and tags != orig
        applied = (
            pend and faults[u] in ("ok", "lost") and not active[p]
            and ttags is not None and ttags == orig
        )
        want = tags if applied else ttags
        if want is None or (applied and not tags):
            ctx.check(u not in now, "peer: no such revision")
        else:
            ctx.check(u in now and set(now[u]["tags"]) == want, "peer: tags")
    # a second push settles nothing twice
    if P.get("again") and not bad:
        for s in srvs.values():
            s.requests.clear()
        here.scan()
        ctx.check(run(go()) == 0, "second push without errors")
        ctx.check(
            not any(s.requests for s in srvs.values()),
            "settled changes are not sent again",
        )


def strip(d):
    return {
        k: v for k, v in d.items()
        if k not in ("tags", "orig_tags", "parent")
    }


def scenarios(tier):
    kinds = ["changed", "empty", "incomplete"]
    r = [
        Scenario(
            "one",
            push,
            "one remote revision with any tags and original tags, any tags at "
            "the peer, any failure of the update or purge request",
            dict(peers=1, revs=1, kinds=kinds, active=True, again=True,
                 there=["same", "other", "gone"],
                 faults=["ok", "unreachable", "lost", "broken", "timeout"],
                 purge=["ok", "unreachable", "error", "broken", "timeout"]),
            ["nothing", "refused", "settled", "deleted"],
        ),
        Scenario(
            "two",
            push,
            "two remote revisions of one peer, changed or emptied; accepted "
            "or refused",
            dict(peers=1, revs=2, kinds=kinds, there=["same", "gone"],
                 faults=["ok", "unreachable"], purge=["ok", "error"],
                 again=True),
            ["nothing", "refused", "settled", "deleted"],
        ),
        Scenario(
            "tagsets",
            push,
            "a remote revision with scheduled, unknown or manual tags, of "
            "which some were added or removed",
            dict(peers=1, revs=1, kinds=["changed"], there=["same"],
                 faults=["ok", "unreachable"], purge=["ok"], again=True,
                 tagsets=[[], ["daily"], ["manual:x"], ["daily", "manual:x"],
                          ["daily", "zz"], ["manual:y", "manual:x"]]),
            ["nothing", "refused", "settled", "deleted"],
        ),
        Scenario(
            "two-peers",
            push,
            "one remote revision of each of two peers",
            dict(peers=2, revs=1, kinds=["changed", "empty"],
                 there=["same"], faults=["ok", "timeout", "broken"],
                 purge=["ok"]),
            ["nothing", "refused", "settled", "deleted"],
        ),
    ]
    if tier == "thorough":
        r += [
            Scenario(
                "two-any",
                push,
                "two remote revisions of one peer, any failure",
                dict(peers=1, revs=2, kinds=kinds, active=True, again=True,
                     there=["same", "other", "gone"],
                     faults=["ok", "unreachable", "lost", "broken", "timeout"],
                     purge=["ok", "unreachable", "error", "broken", "timeout"]),
                ["nothing", "refused", "settled", "deleted"],
            ),
            Scenario(
                "two-peers-two",
                push,
                "two remote revisions of each of two peers",
                dict(peers=2, revs=2, kinds=["changed", "empty"],
                     there=["same", "gone"], faults=["ok", "unreachable"],
                     purge=["ok"]),
                ["nothing", "refused", "settled", "deleted"],
            ),
        ]
    return r
