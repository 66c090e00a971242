"""C52: a job on two servers."""

import aiohttp
import yaml

from sx.scenario import Scenario

from .c24 import write_rev2
from .c28 import done
from .c40 import Procs
from .c41 import Sites
from .daemonutil import *

ASSUMPTIONS = [
    "the backy-file commands are stand-ins which take ten minutes and "
    "complete their revision; the HTTP transport is a stand-in that delivers "
    "requests, or loses them or their answer",
    "both daemons run in one process and share the clock; both servers have "
    "the same schedule",
    "revision IDs are unique across servers, timestamps differ",
]

START = D0 + hours(24 * 30 + 1)
DAY = 86400
OTHER = {"A": "B", "B": "A"}


class Pair:
    def __init__(self, ctx, env):
        import backy.daemon
        import backy.daemon.api

        self.ctx, self.env = ctx, env
        P = self.P = dict(ctx.params)
        P["keep"] = ctx.choice("keep", P["keep"])
        json_setup(env)
        self.now = 0
        self.active = {"A"}
        self.net = "ok"
        self.requests = 0
        self.clean = {"A": False, "B": False}  # round without disturbance
        self.before, self.known = {}, {}
        self.finished = []  # (server, time)
        self.tried = []
        self.gcs = {"A": [], "B": []}
        self.marks = {}  # revisions with manual tags by users: (server, uuid)
        self.purge = {}
        env.p.setattr(os, "chdir", lambda p: None)
        Sites(env)
        env.set_now(lambda: START + dt.timedelta(seconds=self.now))
        sleep = asyncio.sleep
        env.p.setattr(
            asyncio, "sleep",
            lambda t, *a: sleep(10**8 if 0 < t < 5 else t, *a),
        )
        self.d, self.api = {}, {}
        for s in "AB":
            (env.tmp / s / "b").mkdir(parents=True)
            (env.tmp / s / "b" / "config").write_text(yaml.safe_dump({
                "path": str(env.tmp / s / "b"),
                "source": {"type": "file", "filename": "x"},
                "schedule": self.schedule(),
            }))
        for s in "AB":
            self.config(s)
            d = self.d[s] = backy.daemon.BackyDaemon(
                env.tmp / f"{s}.conf", LOG
            )
            self.api[s] = backy.daemon.api.BackyAPI(d, LOG)
        Peers(env, {
            f"http://{s}": (
                lambda *a, s=s: self.request(s, *a)
            ) for s in "AB"
        })
        Procs(env, self.begin, self.end, lambda p: None)

    def schedule(self):
        return {"daily": {"interval": "1d", "keep": self.P["keep"]}}

    def config(self, s):
        (self.env.tmp / f"{s}.conf").write_text(yaml.safe_dump({
            "global": {"base-dir": str(self.env.tmp / s), "worker-limit": 2},
            "schedules": {"s": self.schedule()},
            "api": {"port": 1000 + ord(s),
                    "tokens": {f"token-{s}": OTHER[s]}},
            "peers": peer_conf([OTHER[s]]),
            "jobs": {
                "b": {"source": {"type": "file", "filename": "x"},
                      "schedule": "s"}
            } if s in self.active else {},
        }))

    # -- what is there ------------------------------------------------------
    def path(self, s):
        return self.env.tmp / s / "b"

    def local(self, s):
        return {
            u: r for u, r in read_revs(self.path(s)).items()
            if not r["server"] and "duration" in r["stats"]
        }

    def snapshot(self):
        return {s: self.local(s) for s in "AB"}

    # -- the network ----------------------------------------------------------
    async def request(self, s, method, path, params, json, headers):
        n = self.requests
        self.requests += 1
        if self.pending == "push" and method == "PUT":
            self.fire()
        lost = self.net == "down" or self.net == ("request", n)
        if lost or self.net == ("answer", n):
            self.lost.append(path)
        if lost:
            self.dirty()
            raise aiohttp.ClientConnectionError("no route")
        d, api = self.d[s], self.api[s]
        if not api.sites and not getattr(api, "up", False):
            api.up = True
            await api.start()
        await api.reconfigure(d.api_tokens, [], 0)
        status, resp = await api_request(
            api, method, path, headers=headers, query=params, json=json
        )
        if self.net == ("answer", n):
            self.dirty()
            raise aiohttp.ClientPayloadError("broken")
        return status, decode(self.ctx, resp)

    def dirty(self):
        self.clean = {s: False for s in "AB"}

    # -- the commands ------------------------------------------------------------
    def begin(self, p):
        ctx = self.ctx
        path = p.args[p.args.index("-C") + 1]
        p.site = os.path.basename(os.path.dirname(path))
        ctx.check(
            os.path.samefile(path, self.path(p.site)), "the path of the job"
        )
        p.cmd = p.args[p.args.index("-C") + 2]
        p.code = 0
        if p.cmd == "backup":
            ctx.check(p.site in self.active, "only configured jobs run")
            self.tried.append((p.site, self.now))
            self.clean[p.site] = True
            self.requests = 0
            self.lost = []
            self.net0 = self.net
            if self.pending == "running":
                self.fire()
        else:
            self.round_done(p.site)
        return 600

    def end(self, p):
        if p.returncode != 0:
            return
        if p.cmd == "backup":
            done(self.path(p.site), p.args[-1])
            self.finished.append((p.site, self.now))
            self.before[p.site] = self.snapshot()
            self.known[p.site] = read_revs(self.path(p.site))
        else:
            self.gcs[p.site].append(self.now)
            f = self.path(p.site) / ".purge_pending"
            if f.exists():
                f.unlink()

    def expected(self, site, before):
        """Tags after expiry on the given server: server -> uuid -> tags"""
        ctx = self.ctx
        now = START + dt.timedelta(seconds=self.now)
        keep = self.P["keep"]
        revs = [(s, u, r) for s in "AB" for u, r in before[s].items()]
        res = {"A": {}, "B": {}}
        for s, u, r in revs:
            tags = set(r["tags"])
            newer = sum(
                1 for _, _, q in revs
                if "daily" in q["tags"] and q["timestamp"] > r["timestamp"]
            )
            if "daily" in tags and newer >= keep and r["timestamp"] < (
                now - hours(24 * keep)
            ):
                tags.discard("daily")
                ctx.cover("expired" if s == site else "expired remote")
            res[s][u] = tags
        return res

    def may_expire(self, site, s, u):
        """May the tag go, by all that could be known of the other one?"""
        keep = self.P["keep"]
        revs = dict(self.known[site])
        for x in "AB":
            revs |= self.before[site][x]
        r = self.before[site][s][u]
        newer = sum(
            1 for q in revs.values()
            if "daily" in q["tags"] and q["timestamp"] > r["timestamp"]
        )
        now = START + dt.timedelta(seconds=self.now)
        return newer >= keep and r["timestamp"] < now - hours(24 * keep)

    def round_done(self, site):
        """The backup is done, also everything before the collection."""
        ctx = self.ctx
        if site not in self.active:
            # collection after a purge request
            ctx.cover("purged")
            return
        before = self.before[site]
        after = self.snapshot()
        want = self.expected(site, before)
        other = OTHER[site]
        for u, r in before[site].items():
            if self.clean[site]:
                ctx.check(
                    (u in after[site]) == bool(want[site][u]),
                    "exactly expired revisions are removed"
                )
            if u in after[site] and self.clean[site]:
                ctx.check(
                    set(after[site][u]["tags"]) == want[site][u],
                    "expired tags are removed",
                )
        for s in "AB":
            for u, r in before[s].items():
                tags = set(r["tags"])
                left = set(after[s][u]["tags"]) if u in after[s] else set()
                ctx.check(left <= tags, "no tag is added")
                for t in tags - left:
                    ctx.check(
                        t == "daily" and self.may_expire(site, s, u),
                        "no tag goes early",
                    )
        for u, r in before[other].items():
            if other in self.active:
                ctx.check(
                    after[other].get(u) == r,
                    "revisions of another active server are not changed",
                )
                continue
            same = after[other].get(u) == r
            w = want[other][u]
            applied = (
                set(after[other][u]["tags"]) == w
                and rest(after[other][u]) == rest(r)
                if u in after[other] else not w
            )
            ctx.check(
                applied or not self.clean[site] and same,
                "expiry is applied on the other server",
            )
        ctx.check(
            set(after[other]) <= set(before[other])
            and set(after[site]) <= set(before[site]),
            "no other revisions",
        )
        if set(before[other]) - set(after[other]):
            f = self.path(other) / ".purge_pending"
            mine = read_revs(self.path(site))
            told = other not in self.active and not any(
                "purge" in x for x in self.lost
            ) and any(
                u not in mine and u in self.known[site]
                for u in set(before[other]) - set(after[other])
            )
            if told:
                ctx.cover("told")
            if self.clean[site] or told:
                ctx.check(f.exists(), "the other server is told to collect")
            if f.exists():
                self.purge[other] = self.now
        mirror = {
            u: r for u, r in read_revs(self.path(site)).items()
            if r["server"]
        }
        if self.net == self.net0 == "down":
            ctx.check(
                set(mirror) == {
                    u for u, r in self.known[site].items() if r["server"]
                },
                "revisions of an unreachable server stay known",
            )
            ctx.cover("unreachable")
        if self.clean[site]:
            theirs = after[other] if other not in self.active else (
                before[other]
            )
            ctx.check(
                set(mirror) == set(theirs), "all their revisions are known"
            )
            for u in set(mirror) & set(theirs):
                m = mirror[u]
                ctx.check(m["server"] == other, "and where they are")
                if other not in self.active:
                    ctx.check(
                        set(m["tags"]) == set(theirs[u]["tags"])
                        == set(m["orig_tags"]),
                        "with the same tags",
                    )
                ctx.check(
                    m["timestamp"] == theirs[u]["timestamp"], "and time"
                )
                ctx.cover("mirrored")

    # -- events ------------------------------------------------------------------
    def reload(self):
        for s in "AB":
            self.config(s)
            self.d[s].reload()

    def fire(self):
        ctx, e = self.ctx, self.event
        self.pending = None
        kind, _, arg = e.partition(":")
        if kind == "move":
            (a,) = self.active if len(self.active) == 1 else ("A",)
            self.active = {OTHER[a]}
            self.reload()
            self.dirty()
        elif kind == "both":
            self.active = {"A", "B"}
            self.reload()
            self.dirty()
        elif kind == "single":
            self.active = {arg}
            self.reload()
            self.dirty()
        elif kind == "net":
            self.net = "down" if arg == "down" else (
                arg.split("-")[0], int(arg.split("-")[1])
            )
        elif kind == "restart":
            pass
        elif kind in ("mark", "unmark", "rm"):
            s = arg
            revs = self.local(s)
            ctx.assume(bool(revs))
            u = min(revs, key=lambda u: revs[u]["timestamp"])
            if kind == "rm":
                self.user(s, "rm", u)
                self.marks.pop((s, u), None)
            elif kind == "mark":
                self.user(s, "mark", u)
                self.marks[s, u] = 1
            else:
                ctx.assume((s, u) in self.marks)
                self.user(s, "unmark", u)
                self.marks.pop((s, u))
            self.dirty()
            now = self.local(s).get(u)
            for b in self.before.values():
                b[s].pop(u, None)
                if now:
                    b[s][u] = now
        ctx.cover(kind)

    def user(self, s, what, u):
        """Another process."""
        repo = mk_repo(self.path(s), self.schedule())
        if what == "rm":
            repo.rm([repo.find_by_uuid(u)])
        else:
            ok = repo.tags("add" if what == "mark" else "remove", u,
                           {"manual:m"})
            self.ctx.check(ok, "tags are changed")

    # -- the course ------------------------------------------------------------
    def run(self):
        ctx, P = self.ctx, self.P
        lp = VLoop(self.on_wait, lambda f: f())
        self.lp = lp
        lp.max_waits = 5000
        self.days = 0
        self.pending = None
        real_close = lp.close
        try:
            asyncio.set_event_loop(lp)
            lp.add_signal_handler = lambda *a: None
            for s in "AB":
                self.d[s].start(lp)
                self.d[s].api_server()
            lp.run_forever()
        finally:
            for t in asyncio.all_tasks(lp):
                t.cancel()
            lp.on_wait = None
            lp.timers = []
            with contextlib.suppress(BaseException):
                lp.run_until_complete(settle(lp))
            asyncio.set_event_loop(None)
            real_close()
            for d in self.d.values():
                if d._lock:
                    d._lock.close()

    def on_wait(self, remaining):
        """Events happen at noon, or as soon as a backup runs."""
        ctx, P = self.ctx, self.P
        nxt = self.days * DAY + DAY // 2
        then = self.lp.elapsed + remaining
        if then >= nxt:
            self.lp.elapsed = nxt
            self.now = nxt
            self.noon()
            self.days += 1
            if self.days > P["days"] + P["quiet"]:
                self.lp.stop()
            self.lp.call_soon(lambda: None)
            return True
        self.now = then
        return False

    def noon(self):
        ctx, P = self.ctx, self.P
        i = self.days
        self.check_all()
        self.net = "ok"
        self.pending = None
        if i < P["days"]:
            self.event = ctx.choice(f"event{i}", P["events"])
            if self.event == "none":
                return
            kind = self.event.split(":")[0]
            w = ctx.choice(f"when{i}", P["when"].get(kind, ["noon"]))
            if w == "noon":
                self.fire()
            else:
                self.pending = w
                ctx.cover(w)

    def check_all(self):
        ctx = self.ctx
        if self.days >= 1:
            ctx.check(
                any(t > self.now - DAY for _, t in self.tried),
                "there is a backup every day",
            )
        for s, u in self.marks:
            r = self.local(s)
            ctx.check(
                u in r and "manual:m" in r[u]["tags"],
                "what a user marked is kept",
            )
        for s, t in list(self.purge.items()):
            if len(self.active) == 2:
                # one that follows the other one does not collect
                self.purge[s] = self.now
            elif self.now > t + 2 * DAY:
                ctx.check(
                    any(g > t for g in self.gcs[s]),
                    "the removed revisions are collected",
                )
                self.purge.pop(s)


def rest(d):
    return {k: v for k, v in d.items() if k not in ("tags", "parent")}


async def settle(lp):
    for i in range(5):
        await asyncio.sleep(0)


def servers(ctx, env):
    P = ctx.params
    w = Pair(ctx, env)
    seen = []
    for s in "AB":
        for k, age in enumerate(P["ages"][s]):
            ts = START - hours(age) if age else ctx.dt(
                f"{s}{k}", START - hours(100), START
            )
            for t in seen:
                ctx.assume(neg(ctx, t == ts))
            seen.append(ts)
            write_rev2(w.path(s), f"{s}{k}", ts, ["daily"])
    w.run()
    ctx.check(
        w.days > P["days"] + P["quiet"], "both daemons keep running"
    )
    ctx.cover("end")


def scenarios(tier):
    big = tier == "thorough"
    more = ["unmark:B", "rm:A", "single:B", "net:request-0",
            "net:request-1", "net:answer-1", "net:request-3",
            "net:answer-3"] if big else []
    return [
        Scenario(
            "events", servers,
            "two servers; 2 days with one of 9 events each, 3 without",
            dict(
                keep=[2], days=3 if big else 2, quiet=3,
                ages={"A": [33], "B": [30, 20, 10]},
                events=["none", "move", "both", "net:down",
                        "net:request-2", "net:answer-2", "mark:A", "mark:B",
                        "rm:B"] + more,
                when={
                    "move": ["noon", "running", "push"],
                    "mark": ["noon", "push"], "rm": ["noon", "push"],
                },
            ),
            ["unreachable", "told", "push", "running", "move", "both", "net", "mark", "rm", "expired",
             "expired remote", "mirrored", "purged", "end"],
        ),
        Scenario(
            "ages", servers,
            "two servers with revisions of any age",
            dict(
                keep=[1, 2, 3] if big else [1, 2], days=1, quiet=2,
                ages={"A": [None, None] if big else [None],
                      "B": [None, None] if big else [None]},
                events=["none", "move", "net:down"],
                when={},
            ),
            ["move", "net", "expired", "expired remote", "mirrored",
             "purged", "end"],
        ),
    ]
