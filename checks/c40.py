"""C40: the worker limit of the daemon."""

import yaml

from sx.scenario import Scenario

from .c28 import done
from .daemonutil import *

ASSUMPTIONS = [
    "the backy-file commands are stand-ins which take any time, complete "
    "their revision and return a code",
    "while the limit itself is changed by a reload more backups may run (as "
    "documented in the code); the limit is changed only between runs here",
]


class Procs:
    """asyncio.create_subprocess_exec with processes that take time."""

    def __init__(self, env, begin, end, stopped):
        class Proc:
            pid = 4711

            def __init__(self, args):
                self.args = args
                self.returncode = None
                self.running = True
                self.delay = begin(self)

            def finish(self, rc):
                if self.running:
                    self.running = False
                    self.returncode = rc
                    end(self)

            async def wait(self):
                await asyncio.sleep(self.delay)
                self.finish(self.code)
                return self.returncode

            def terminate(self):
                stopped(self)
                self.finish(-15)

            kill = terminate

        async def create(*args, **kw):
            await asyncio.sleep(0)
            return Proc([str(a) for a in args])

        env.p.setattr(asyncio, "create_subprocess_exec", create)


def config(env, limit, names):
    (env.tmp / "backy.conf").write_text(yaml.safe_dump({
        "global": {"base-dir": str(env.tmp / "base"), "worker-limit": limit},
        "schedules": {"s": {"daily": {"interval": "1d", "keep": 5}}},
        "jobs": {
            n: {"source": {"type": "file", "filename": "x"}, "schedule": "s"}
            for n in names
        },
    }))


def limit(ctx, env):
    P = ctx.params
    d = mk_daemon(env)
    names = [f"j{i}" for i in range(P["jobs"])]
    lim = ctx.choice("limit", P["limits"])
    config(env, lim, names)
    env.set_now(D0 + hours(100))
    fast = {}
    for n in names:
        (d.base_dir / n).mkdir()
        h = ctx.choice(f"history-{n}", P["history"])
        fast[n] = False
        if h != "none":
            last = ctx.int(f"last-{n}", 0, 10**6)
            # only the last one matters
            for k, dur in (("1", 1), ("2", 5000)):
                write_rev(d.base_dir / n, "older" + k,
                          D0 - hours(3 - int(k)), ["daily"], duration=dur)
            write_rev(d.base_dir / n, "old", D0, ["daily"], duration=5
                      if h == "incomplete" else last)
            fast[n] = last < 600 if h == "complete" else True
            if h == "incomplete":
                # this one does not count
                write_rev(d.base_dir / n, "new", D0 + hours(1), ["daily"],
                          complete=False)
    procs = []
    seen = {n: [] for n in names}
    killed = []
    where = {}

    def begin(p):
        n = os.path.basename(p.args[p.args.index("-C") + 1])
        p.job = n
        p.cmd = p.args[p.args.index("-C") + 2]
        procs.append(p)
        p.fast = where.get(n)
        if p.fast is None:
            p.fast = where[n] = bool(fast[n])
        now = [q for q in procs if q.running and q.fast == p.fast]
        ctx.check(
            len(now) <= lim, "no more backups than allowed run at once"
        )
        if len(now) == lim:
            ctx.cover("full")
        if any(q.running and q.fast != p.fast for q in procs):
            ctx.cover("both kinds")
        ctx.check(
            sum(1 for q in procs if q.running and q.job == n) == 1,
            "one command per job at once",
        )
        prev = [q for q in procs if q.job == n and q is not p]
        if prev and prev[-1].cmd == "backup" and prev[-1].code == 0:
            ctx.check(p.cmd == "gc", "a backup is followed by its clean up")
        else:
            ctx.check(
                p.cmd == "backup", "a failed backup is followed by another"
            )
        seen[n].append(p.cmd)
        p.code = 0
        if p.cmd == "backup":
            if P["fail"] and not prev and ctx.flag(f"fail-{n}"):
                p.code = ctx.int(f"code-{n}", -64, 255)
                ctx.assume(p.code != 0)
            return ctx.int(f"time-{n}{len(prev)}", 1, 1000)
        return 1

    def end(p):
        if p.cmd == "backup" and p.returncode == 0:
            done(d.base_dir / p.job, p.args[-1])

    Procs(env, begin, end, killed.append)
    for n in names:  # requests to run at once
        pass
    stop = {}
    waits = [0]
    state = {}

    def idle():
        return all(
            d.jobs[n].status in ("", "waiting for deadline") for n in names
        )

    def on_wait(remaining):
        waits[0] += 1
        if waits[0] <= P["events"]:
            k = ctx.choice(f"event-{waits[0]}", P["kinds"])
            if k == "stop" and not stop:
                n = ctx.choice("which", names)
                stop[n] = [
                    q for q in procs if q.running and q.job == n
                ]
                d.jobs[n].stop()
                ctx.cover("stopped")
                if stop[n]:
                    ctx.cover("stopped while running")
                return True
            if k == "reload":
                d.reload()
                ctx.cover("reload")
        # slots are used: a job waits only for a reason
        for n in names:
            if d.jobs[n].status.startswith("waiting for worker slot"):
                ctx.cover("waited")
                kind = bool(fast[n])
                ctx.check(
                    sum(1 for q in procs if q.running and q.fast == kind)
                    >= lim,
                    "a free slot is used",
                )
        if idle():
            state["task"].cancel()
            return True
        return False

    async def go(lp):
        d.loop = lp
        d._read_config()
        d._apply_config()
        for n in names:
            d.jobs[n].run_immediately.set()
        state["task"] = t = asyncio.ensure_future(asyncio.sleep(10**9))
        try:
            await t
        except asyncio.CancelledError:
            pass

    vrun(go, on_wait)
    for n in names:
        if n in stop:
            for q in stop[n]:
                ctx.check(
                    q in killed, "the command of a stopped job is terminated"
                )
            continue
        ctx.check("backup" in seen[n], "every job gets its turn")
        if [q.code == 0 for q in procs if q.job == n and q.cmd == "backup"][0]:
            ctx.check(
                seen[n] == ["backup", "gc"], "a backup and its clean up"
            )
        else:
            ctx.cover("failed")
    ctx.check(
        all(q.job in stop for q in killed), "no other command is terminated"
    )


def scenarios(tier):
    r = [
        Scenario(
            "three", limit,
            "3 jobs which are due at once, with a first, a complete or an "
            "incomplete backup of any duration; limit 1 or 2; backups take "
            "1..1000 s",
            dict(jobs=3, limits=[1, 2], history=["none", "complete", "incomplete"],
                 fail=False, events=0, kinds=["no"]),
            ["full", "waited", "both kinds"],
        ),
        Scenario(
            "faults", limit,
            "2 jobs, limit 1; any exit code; a stop of a job or a reload at "
            "any pause",
            dict(jobs=2, limits=[1], history=["none"],
                 fail=True, events=4, kinds=["no", "stop", "reload"]),
            ["full", "waited", "stopped", "stopped while running", "reload",
             "failed"],
        ),
    ]
    if tier == "thorough":
        r += [
            Scenario(
                "four", limit, "4 jobs, limit 1 to 3",
                dict(jobs=4, limits=[1, 2, 3], history=["none", "complete"],
                     fail=False, events=0, kinds=["no"]),
                ["full", "waited", "both kinds"],
            ),
            Scenario(
                "faults3", limit, "3 jobs with faults, limit 1 and 2",
                dict(jobs=3, limits=[1, 2], history=["none"],
                     fail=True, events=5, kinds=["no", "stop", "reload"]),
                ["full", "waited", "stopped", "reload", "failed"],
            ),
        ]
    return r
