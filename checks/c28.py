"""C28: the rounds of the scheduler loop."""

import asyncio
import fcntl

import yaml

from sx.scenario import Scenario

from .c25 import set_orig
from .daemonutil import *

ASSUMPTIONS = [
    "the backy-file command is a stand-in that completes its revision and "
    "returns a code; the HTTP transport is a stand-in",
    "the clock passes only while the loop waits",
]


class Commands:
    """Replaces asyncio.create_subprocess_exec."""

    def __init__(self, env, handler):
        self.ctx = env.ctx

        class Proc:
            pid = 4711
            stdin = stdout = stderr = None

            def __init__(self, args):
                self.args = args
                self.returncode = None

            async def wait(self):
                if self.returncode is None:
                    r = handler(self.args, None)
                    if asyncio.iscoroutine(r):
                        r = await r
                    self.returncode = r
                return self.returncode

            async def communicate(self, data=None):
                r = handler(self.args, data)
                self.returncode, out, err = (
                    r if isinstance(r, tuple) else (r, b"", b"")
                )
                return out, err

            def terminate(self):
                self.returncode = -15

            kill = terminate

        async def create(*args, **kw):
            await asyncio.sleep(0)
            handler(args, "spawn")
            return Proc(args)

        env.p.setattr(asyncio, "create_subprocess_exec", create)


class Boom(Exception):
    pass


def done(path, uuid, duration=1.0):
    f = path / (uuid + ".rev")
    d = yaml.safe_load(f.read_text())
    d["stats"]["duration"] = duration
    f.write_text(yaml.safe_dump(d))


KEEP = 2


def loop(ctx, env):
    P = ctx.params
    json_setup(env)
    d = mk_daemon(env, peers=peer_conf(["p0"]))
    d.backup_completed_callback = env.tmp / "callback"
    job = add_job(
        env, d, "b",
        P.get("schedule", {"daily": {"interval": "1d", "keep": KEEP}}),
    )
    d.backup_semaphores = {
        k: asyncio.BoundedSemaphore(1) for k in ("slow", "fast")
    }
    here = job.path
    st = dict(
        now=ctx.dt("now", D0, D1) if P.get("symbolic") else D0, round=0,
        errors=0, good=0, steps=None, task=None, over=False,
    )
    env.set_now(lambda: st["now"])
    old = st["now"] - dt.timedelta(days=900)
    if P["history"]:
        # expired by the first successful backup; changed remote one
        write_rev(here, "oldest", old, ["daily"])
        write_rev(here, "older", old + hours(24), ["daily"])
        write_rev(here, "part0", old + hours(30), ["daily"], complete=False)
        write_rev(here, "remote", old + hours(25), ["x"], server="p0")
        set_orig(here, "remote", ["y"])
    fails = P["fails"]

    def step(kind, **kw):
        st["steps"].append(kind)
        f = st["fail"]
        if f == kind:
            raise Boom(kind)

    def names():
        return set(read_revs(here))

    def incomplete():
        return [
            u for u, r in read_revs(here).items()
            if "duration" not in r["stats"]
        ]

    def command(args, data):
        args = [str(a) for a in args]
        n = st["round"]
        if args[0].endswith("callback"):
            if data == "spawn":
                step("callback")
                return
            ctx.check(
                set(r["uuid"] for r in yaml.safe_load(data)) == names(),
                "the callback is told all revisions",
            )
            outs = P.get("outputs", [b""])
            code = ctx.int("code", -64, 255) if len(outs) > 1 else 0
            return code, ctx.choice("out", outs), ctx.choice("err", outs)
        cmd = args[args.index("-C") + 2]
        if cmd == "backup":
            rev = args[-1]
            if data == "spawn":
                step("backup")
                ctx.check(
                    incomplete() == [rev],
                    "earlier incomplete revisions are removed before",
                )
                ctx.check(
                    set(read_revs(here)[rev]["tags"]) == st["tags"],
                    "the backup has the tags that are due",
                )
                return
            if st["fail"] == "backup-code":
                return 1
            done(here, rev, P.get("duration", 1.0))
            st["backups"].append(rev)
            # a leftover of another run
            write_rev(here, f"part{n}x", st["now"], ["daily"],
                      complete=False)
            return 0
        assert cmd == "gc", args
        if data == "spawn":
            step("gc")
        return 0

    def peer(method, path, params, json, headers):
        if path.endswith("/status"):
            st["steps"].append("status")
            if st["plan"] != "leader":
                return 200, []
            return 200, [dict(
                job="b", sla="OK", sla_overdue=0, local_revs=99,
                status="running", last_time=st["due"].isoformat(),
                next_time=None, last_tags=None, last_duration=None,
                next_tags=None, manual_tags="", problem_reports=0,
                unsynced_revs=0,
            )]
        if path.endswith("/touch"):
            step("pull")
            if st["plan"] != "leader":
                ctx.check(
                    incomplete() == [],
                    "incomplete revisions are removed after the backup",
                )
            return 200, None
        if path.endswith("/revs"):
            st["pulled"] = True
            # the peer reports the record that has a pending change here
            def rev(uuid, t, tag):
                return {
                    "uuid": uuid, "timestamp": t.isoformat(), "parent": "",
                    "stats": {"duration": 1.0}, "tags": [tag],
                    "orig_tags": [tag], "server": "", "trust": "trusted",
                }

            res = [rev("fresh", old + hours(26), "manual:x")]
            if st["remote"]:
                res.append(rev("remote", old + hours(10), "daily"))
            return 200, res
        if method == "PUT":
            step("push")
            ctx.check("oldest" not in names(), "expired before the push")
            return 200, None
        if path.endswith("/purge"):
            return 202, None
        raise AssertionError(path)

    Peers(env, {"http://p0": peer})
    Commands(env, command)

    def finish_round():
        """At the next wait: judge the round that just ended."""
        steps, plan, fail = st["steps"], st["plan"], st["fail"]
        steps = [s for s in steps if s != "status"]
        if plan == "leader":
            want = ["pull", "callback"]
            ctx.check(
                not st["backups"], "no backup if the leader made it"
            )
        else:
            want = ["backup", "pull"]
            want += ["push"] if st["remote"] else []
            want += ["gc", "callback"]
        ok = True
        if fail in ("backup-code", "backup-lock"):
            want = ["backup"] if fail == "backup-code" else []
            ok = False
        elif fail == "expire":
            want = want[: want.index("pull") + 1]
            ok = False
        elif fail != "none":
            if fail in want:
                want = want[: want.index(fail) + 1]
                ok = False
        ctx.cover("round ok" if ok else "round failed")
        ctx.check(steps == want, "the steps of a round in order")
        if plan != "leader" and ok:
            ctx.check("oldest" not in names(), "expired")
        st["errors"] = 0 if ok else st["errors"] + 1

    def begin():
        """The loop waits for its next run."""
        if st["round"] and not st["over"]:
            if st["lock"]:
                st["lock"].close()
            finish_round()
        if st["errors"]:
            pause = dt.timedelta(minutes=min(2 ** st["errors"], 360))
            ctx.check(
                job.next_time == st["now"] + pause,
                "a retry is due after the backoff",
            )
            ctx.cover(f"backoff {min(2 ** st['errors'], 360)}")
        else:
            t, tags = job.schedule.next(
                st["now"], job.spread, job.repository
            )
            ctx.check(job.next_time == t, "otherwise the schedule applies")
            ctx.check(set(job.next_tags) == set(tags), "with its tags")
        if st["round"] >= P["rounds"]:
            st["over"] = True
            st["task"].cancel()
            return
        st["round"] += 1
        n = st["round"]
        st["tags"] = set(job.next_tags)
        st["steps"] = []
        st["backups"] = []
        st["due"] = job.next_time
        st["lock"] = None
        st["pulled"] = False
        st["remote"] = P["history"] and n == 1
        st["plan"] = ctx.choice(f"plan{n}", P["plans"])
        if st["good"] < P.get("good", 99):
            st["fail"] = ctx.choice(f"fail{n}", P["fails"])
            st["good"] += st["fail"] == "none"
        else:
            st["fail"] = P["fails"][0]
        if st["plan"] == "leader" and st["fail"] not in ("pull", "callback"):
            st["fail"] = "none"
        if st["fail"] == "backup-lock":
            (here / ".backup").touch()
            st["lock"] = (here / ".backup").open()
            flock(st["lock"], fcntl.LOCK_EX)
        if st["plan"] == "now":
            job.run_immediately.set()
            ctx.cover("run now")

    flock = fcntl.flock

    def locking(fd, op):
        if st.get("fail") == "expire" and op & fcntl.LOCK_EX and st["pulled"]:
            raise BlockingIOError(11, "locked by someone else")
        return flock(fd, op)

    env.p.setattr(fcntl, "flock", locking)

    class Event(asyncio.Event):
        async def wait(self):
            if job.next_time is not None:
                begin()
            return await super().wait()

    job.run_immediately = Event()

    def on_wait(remaining):
        want = (job.next_time - st["now"]).total_seconds()
        ctx.check(
            conj(ctx, remaining - want < 1, want - remaining < 1),
            "it waits until the next run",
        )
        ctx.cover("waits")
        st["now"] = job.next_time
        return False

    async def go(lp):
        t = st["task"] = asyncio.ensure_future(job.run_forever())
        try:
            await t
        except asyncio.CancelledError:
            return "cancelled"
        except BaseException as e:
            LOG.exception("ended")
            return f"ended: {type(e).__name__}"
        return "ended"

    res = vrun(go, on_wait)
    ctx.check(res == "cancelled", "the loop ends only when it is stopped")
    ctx.check(st["round"] == P["rounds"], "all rounds happen")


def slots(ctx, env):
    """At most worker-limit backups of a speed class at one time."""
    P = ctx.params
    limit = P["limit"]
    d = mk_daemon(env)
    d.backup_semaphores = {
        k: asyncio.BoundedSemaphore(limit) for k in ("slow", "fast")
    }
    jobs = []
    speed = {}
    for i in range(P["jobs"]):
        j = add_job(env, d, f"j{i}", {"daily": {"interval": "1d", "keep": 1}},
                    sname="s")
        k = ctx.choice(f"history{i}", P["histories"])
        speed[f"j{i}"] = k
        if k != "none":
            s = {"duration": 599.5 if k == "fast" else 600.0}
            write_rev(j.path, f"r{i}", D0 - hours(1), ["daily"], stats=s)
            # only the last one matters
            for k, dur in ((2, 1), (3, 5000)):
                write_rev(j.path, f"o{i}{k}", D0 - hours(k), ["daily"],
                          duration=dur)
        jobs.append(j)
    env.set_now(lambda: D0)
    running, ended = {}, []

    def command(args, data):
        args = [str(a) for a in args]
        i = args.index("-C")
        name = args[i + 1].rsplit("/", 1)[1]
        cmd = args[i + 2]
        if data == "spawn" or cmd != "backup":
            return 0

        async def work():
            ev = running[name] = asyncio.Event()
            for kind in ("fast", "slow"):
                n = [x for x in running
                     if (speed[x] == "fast") == (kind == "fast")]
                ctx.check(len(n) <= limit, "not more backups than slots")
            await ev.wait()
            ended.append(name)
            del running[name]
            done(d.base_dir / name, args[-1])
            return 1 if ctx.flag(f"fails-{name}") else 0

        return work()

    Commands(env, command)
    Peers(env, {})

    async def go(lp):
        ts = []
        for j in jobs:
            ts.append(asyncio.ensure_future(j.run_forever()))
            j.run_immediately.set()
        for n in range(len(jobs)):
            for i in range(60):
                await asyncio.sleep(0)
            waiting = len(jobs) - len(ended)
            for kind in ("fast", "slow"):
                todo = [x for x in speed if x not in ended
                        and (speed[x] == "fast") == (kind == "fast")]
                got = [x for x in running
                       if (speed[x] == "fast") == (kind == "fast")]
                ctx.check(
                    len(got) == min(limit, len(todo)), "all slots are used"
                )
            if not running:
                break
            ctx.cover("ran")
            k = ctx.choice(f"end{n}", list(range(len(running))))
            running[sorted(running)[k]].set()
        for i in range(60):
            await asyncio.sleep(0)
        ctx.check(len(ended) == len(jobs), "every job gets its turn")
        for t in ts:
            t.cancel()

    vrun(go)


STEPS = ["none", "backup", "backup-code", "backup-lock", "pull", "expire",
         "push", "gc", "callback"]


def scenarios(tier):
    r = [
        Scenario(
            "steps", loop,
            "one round at any time of the clock, with an own backup, "
            "requested at once or left to a leader; any step may fail; then "
            "the next run",
            dict(rounds=1, history=True, plans=["own", "now", "leader"],
                 fails=STEPS, symbolic=True),
            covers=["round ok", "round failed", "run now", "backoff 2"],
        ),
        Scenario(
            "three-rounds", loop, "three rounds, any step may fail",
            dict(rounds=3, history=True, plans=["own", "leader"],
                 fails=["none", "expire", "callback"]),
            covers=["round ok", "round failed", "backoff 2", "backoff 4"],
        ),
        Scenario(
            "backoff", loop, "ten rounds, up to two of them succeed",
            dict(rounds=10, good=10 if tier == "thorough" else 2, history=False, plans=["own"],
                 fails=["backup-code", "none"]),
            covers=["backoff 2", "backoff 4", "backoff 256", "backoff 360"],
        ),
        Scenario(
            "callback", loop,
            "one round; the callback ends with any code and output, which "
            "need not be text",
            dict(rounds=1, history=False, plans=["own"], fails=["none"],
                 outputs=[b"", b"done\n", b"\xff{x}", "\u00e4\n".encode(),
                          "\u00e4".encode()[:1]]),
            covers=["round ok"],
        ),
        Scenario(
            "slots", slots,
            "three jobs of any speed, one slot per speed, backups end in any "
            "order and fail or not",
            dict(jobs=3, limit=1, histories=["fast", "slow", "none"]),
            covers=["ran"],
        ),
    ]
    if tier == "thorough":
        r += [
            Scenario(
                "two-rounds-any", loop,
                "two rounds, any step may fail",
                dict(rounds=2, history=True, plans=["own", "now", "leader"],
                     fails=STEPS),
                covers=["round ok", "round failed", "run now", "backoff 4"],
            ),
            Scenario(
                "two-slots", slots, "four jobs, two slots per speed",
                dict(jobs=4, limit=2, histories=["fast", "slow"]),
                covers=["ran"],
            ),
        ]
    return r
