"""C30: loading and reloading the configuration."""

import yaml

from sx.scenario import Scenario

from .daemonutil import *

ASSUMPTIONS = [
    "the base directory is not changed by a reload; configurations are "
    "complete (every schedule a job names is defined)",
    "jobs are judged before their loops run on",
]


def reload(ctx, env):
    import backy.daemon

    P = ctx.params
    names = [f"job{i}" for i in range(P["jobs"])]
    base = env.tmp / "base"
    base.mkdir()
    (base / "gone").mkdir()
    (base / "afile").write_text("x")
    (base / "alink").symlink_to(env.tmp)
    conf = env.tmp / "backy.conf"

    def make(k):
        jobs = {}
        for n in names:
            if not ctx.flag(f"{n}-{k}"):
                continue
            jobs[n] = {
                "source": {
                    "type": "file",
                    "filename": ctx.str(f"file-{n}-{k}", 3),
                },
                "schedule": ctx.choice(f"sched-{n}-{k}", P["schedules"]),
            }
        g = {"base-dir": str(base)}
        if P["globals"]:
            limit = ctx.choice(f"limit-{k}", [None, 1, 3])
            if limit:
                g["worker-limit"] = limit
            if ctx.flag(f"callback-{k}"):
                g["backup-completed-callback"] = "/bin/callback"
        c = {
            "global": g,
            "schedules": {
                s: {
                    "daily": {
                        "interval": ctx.choice(
                            f"interval-{s}-{k}", P["intervals"]
                        ),
                        "keep": ctx.int(f"keep-{s}-{k}", 1, 99),
                    }
                }
                for s in P["schedules"]
            },
            "jobs": jobs,
        }
        if P["globals"]:
            c["api"] = {"tokens": {ctx.str(f"token-{k}", 3): "cli"}}
            if ctx.flag(f"peers-{k}"):
                c["peers"] = {
                    "p0": {"url": ctx.str(f"url-{k}", 3), "token": "x"}
                }
        return c

    def write(c):
        conf.write_text(yaml.safe_dump(c))

    def same(a, b):
        """equality of nested values without forks of the solver's paths"""
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return conj(ctx, *[same(a[k], b[k]) for k in a])
        return a == b

    interval = {"1d": dt.timedelta(days=1), "2h": dt.timedelta(hours=2)}
    tasks = []

    def loops(name):
        """running loops of a job"""
        return [
            t for n, t in tasks
            if n == name and not t.cancelling() and not t.done()
        ]

    async def go(lp):
        create = lp.create_task

        def create_task(coro, **kw):
            t = create(coro, **kw)
            self = coro.cr_frame.f_locals.get("self")
            if hasattr(self, "run_immediately"):
                tasks.append((self.name, t))
            return t

        lp.create_task = create_task
        d = backy.daemon.BackyDaemon(conf, LOG)
        d.loop = lp
        prev, old = None, {}
        for k in range(P["loads"]):
            c = make(k)
            write(c)
            sem = dict(d.backup_semaphores)
            before = {n: loops(n) for n in names}
            if k == 0:
                d._read_config()
                d._apply_config()
            else:
                d.reload()
            ctx.check(set(d.jobs) == set(c["jobs"]), "the configured jobs")
            for n in names:
                want = c["jobs"].get(n)
                running = loops(n)
                if want is None:
                    ctx.check(running == [], "removed jobs are stopped")
                    continue
                ctx.check(len(running) == 1, "each job runs once")
                j = d.jobs[n]
                ctx.check(
                    same(j.source.source_conf, want["source"]),
                    "with its source",
                )
                s = c["schedules"][want["schedule"]]["daily"]
                got = j.schedule.schedule
                ctx.check(
                    set(got) == {"daily"}
                    and got["daily"]["interval"] == interval[s["interval"]],
                    "with its schedule",
                )
                ctx.check(
                    got["daily"]["keep"] == s["keep"], "keeping so many"
                )
                f = yaml.safe_load((base / n / "config").read_text())
                ctx.check(
                    same(f["source"], want["source"])
                    and f["path"] == str(base / n),
                    "the command line uses this source",
                )
                ctx.check(
                    same(f["schedule"],
                         c["schedules"][want["schedule"]]),
                    "the command line uses this schedule",
                )
                if prev is None or n not in prev["jobs"]:
                    ctx.cover("added")
                    continue
                was = prev["jobs"][n]
                if same(was, want):
                    ctx.cover("unchanged")
                    ctx.check(
                        running == before[n], "unchanged jobs keep running"
                    )
                else:
                    ctx.cover("changed")
                    ctx.check(
                        running != before[n], "changed jobs are restarted"
                    )
            dirs = {
                p.name for p in base.iterdir()
                if p.is_dir() and not p.is_symlink()
            }
            ctx.check(
                set(d.dead_repositories) == dirs - set(c["jobs"]),
                "all other directories are inactive backups",
            )
            for n, r in d.dead_repositories.items():
                ctx.check(r.path == base / n, "at their place")
            limit = c["global"].get("worker-limit", 1)
            for q in ("fast", "slow"):
                got = d.backup_semaphores[q]
                ctx.check(got._value == limit, "so many workers")
                if prev and prev["global"].get("worker-limit", 1) == limit:
                    ctx.check(got is sem[q], "the slots stay in use")
            if P["globals"]:
                ctx.check(
                    same(d.peers, c.get("peers", {})), "configured peers"
                )
                ctx.check(
                    same(d.api_tokens, c["api"]["tokens"]),
                    "configured tokens",
                )
                cb = c["global"].get("backup-completed-callback")
                ctx.check(
                    (cb is None and d.backup_completed_callback is None)
                    or str(d.backup_completed_callback) == cb,
                    "configured callback",
                )
            prev = c

    vrun(go)


def scenarios(tier):
    r = [
        Scenario(
            "two-jobs", reload,
            "two loads of two jobs with any sources, two schedules with any "
            "number of copies",
            dict(jobs=2, loads=2, schedules=["s1", "s2"], intervals=["1d"],
                 globals=False),
            covers=["added", "unchanged", "changed"],
        ),
        Scenario(
            "history", reload, "three loads of one job",
            dict(jobs=1, loads=3, schedules=["s1"], intervals=["1d", "2h"],
                 globals=False),
            covers=["added", "unchanged", "changed"],
        ),
        Scenario(
            "globals", reload, "global settings, tokens and peers",
            dict(jobs=0, loads=2, schedules=["s1"], intervals=["1d"],
                 globals=True),
        ),
    ]
    if tier == "thorough":
        r += [
            Scenario(
                "three-jobs", reload, "two loads of three jobs",
                dict(jobs=3, loads=2, schedules=["s1", "s2"],
                     intervals=["1d"], globals=False),
                covers=["added", "unchanged", "changed"],
            ),
            Scenario(
                "long", reload, "three loads of two jobs",
                dict(jobs=2, loads=3, schedules=["s1"], intervals=["1d"],
                     globals=False),
                covers=["added", "unchanged", "changed"],
            ),
        ]
    return r
