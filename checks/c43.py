"""C43: the command line client and the daemon's API together."""

import contextlib
import io
import re

import rich
import yaml

from sx.scenario import Scenario

from .c39 import call, mk_config, snap
from .daemonutil import *

ASSUMPTIONS = [
    "the HTTP transport between client and API is a stand-in that delivers "
    "requests and answers unchanged",
    "names of jobs consist of letters, digits, dot, dash and underscore",
]

NAMES = ["a1", "b", "a.2", "axb"]
DEAD = ["dead1", "a-dead"]
FILTERS = [".*", "^a", "a.2", r"^a\.2$", "b$", "1|b", "zz", "dead"]


def setup(ctx, env):
    P = ctx.params
    json_setup(env)
    now = D1
    env.set_now(now)
    srv = Server(env, "srv", "secret")
    d = srv.daemon
    names = NAMES[: P["jobs"]]
    st = {}
    for n in names:
        st[n] = dict(
            status=ctx.choice(f"status-{n}", P["status"]),
            age=ctx.choice(f"age-{n}", P["ages"]),
            every=ctx.choice(f"interval-{n}", P["intervals"]),
        )
        j = add_job(
            env, d, n, {"daily": {"interval": st[n]["every"], "keep": 3}}
        )
        j.update_status(st[n]["status"])
        (d.base_dir / n / "quarantine").mkdir(exist_ok=True)
        if st[n]["age"] is not None:
            write_rev(d.base_dir / n, "r0", now - hours(st[n]["age"]),
                      ["daily"])
        j.repository.connect()
    dead = [n for n in DEAD if ctx.flag(f"has-{n}")] if P["dead"] else []
    for n in dead:
        srv.repo(n)
    reloads = []
    env.p.setattr(d, "reload", lambda: reloads.append(1))
    Peers(env, {"http://srv": srv})
    token = "secret" if not P["auth"] or ctx.flag("token") else "other"
    conf = env.tmp / "cli.conf"
    conf.write_text(yaml.safe_dump({
        "global": {"base-dir": str(d.base_dir)},
        "schedules": {}, "jobs": {},
        "api": {"cli-default": {"url": "http://srv", "token": token}},
    }))
    return srv, d, names, dead, st, token == "secret", conf, reloads


def cli(env, conf, *args):
    import backy.cli

    out = io.StringIO()
    rich.reconfigure(width=400)
    with contextlib.redirect_stdout(out):
        code = call(env, backy.cli.main, "-c", conf, *args)
    return code, out.getvalue()


def started(d):
    return [n for n, j in d.jobs.items() if j.run_immediately.is_set()]


def trigger(ctx, env):
    srv, d, names, dead, st, auth, conf, reloads = setup(ctx, env)
    before = {n: snap(d.base_dir / n) for n in names}
    how = ctx.choice("how", ["-a", "--jobs", "workdir"])
    cmd = ctx.choice("cmd", ["backup", "reload", "check"])
    if how == "workdir":
        n = ctx.choice("job", names)
        sel = [n]
        flt = ["-C", d.base_dir / n]
    elif how == "-a":
        sel, flt = names, ["-a"]
    else:
        f = ctx.choice("filter", FILTERS)
        sel = [n for n in names if re.search(f, n)]
        flt = ["--jobs", f]
    if cmd == "backup":
        if how == "workdir" and ctx.flag("job removed"):
            del d.jobs[sel[0]]
            ctx.cover("removed")
            sel = []
        code, out = cli(env, conf, *flt, "backup", "--bg", "x")
        good = auth and bool(sel)
        ctx.check(
            (code == 0) == good, "success is reported exactly on success"
        )
        ctx.check(
            started(d) == (sel if good else []),
            "exactly the selected jobs are run",
        )
        ctx.cover("backup" if good else "nothing")
        if not auth:
            ctx.cover("refused")
        if how != "workdir":
            ctx.check(not reloads, "nothing else is done")
    elif cmd == "reload":
        code, out = cli(env, conf, "reload-daemon")
        ctx.check((code == 0) == auth, "success is reported on success")
        ctx.check(
            len(reloads) == int(auth), "the configuration is reloaded once"
        )
        ctx.check(started(d) == [], "nothing else is done")
        ctx.cover("reload")
    else:
        code, out = cli(env, conf, *flt, "check")
        if how == "workdir":
            auth = True
        if not auth or not sel:
            ctx.check(code not in (0,), "success is reported on success")
        else:
            late = [
                n for n in sel
                if st[n]["age"] is not None
                and st[n]["age"] > (36 if st[n]["every"] == "1d" else 3)
            ]
            # an own record of the interval is stored with the job
            ctx.check(
                code == (2 if late else 0),
                "checks use the schedules of the daemon",
            )
            ctx.cover("late" if late else "in time")
        ctx.check(started(d) == [] and not reloads, "a check changes nothing")
    ctx.check(
        before == {n: snap(d.base_dir / n) for n in names},
        "no revision is touched",
    )


def show(ctx, env):
    srv, d, names, dead, st, auth, conf, reloads = setup(ctx, env)
    cmd = ctx.choice("cmd", ["show-jobs", "show-daemon"])
    if cmd == "show-daemon":
        code, out = cli(env, conf, cmd)
        ctx.check(code == 0, "the command succeeds")
        want = {}
        for n in names:
            want[st[n]["status"]] = want.get(st[n]["status"], 0) + 1
        if dead:
            want["Dead"] = len(dead)
        got = {}
        for line in out.splitlines():
            cells = [c.strip() for c in re.split("[│|]", line)]
            if len(cells) == 4 and cells[2].isdigit():
                got[cells[1]] = int(cells[2])
        ctx.check(got == want, "every job is counted once by its status")
        ctx.cover("daemon")
        return
    how = ctx.choice("how", ["-a", "--jobs", "workdir"])
    if how == "workdir":
        sel = [ctx.choice("job", names)]
        flt = ["-C", d.base_dir / sel[0]]
        lost = dead
    elif how == "-a":
        sel, flt, lost = names, ["-a"], dead
    else:
        f = ctx.choice("filter", FILTERS)
        sel = [n for n in names if re.search(f, n)]
        flt = ["--jobs", f]
        lost = [n for n in dead if re.search(f, n)]
    code, out = cli(env, conf, *flt, cmd)
    if not sel:
        ctx.check(code != 0, "no job is a failure")
        return
    ctx.check(code == 0, "the command succeeds")
    rows = {}
    for line in out.splitlines():
        cells = [c.strip() for c in re.split("[│|]", line)]
        if len(cells) == 11:
            rows[cells[1]] = cells[2:-1]
    ctx.check(
        set(rows) == set(sel) | set(lost) if how != "workdir"
        else set(rows) - set(dead) == set(sel),
        "exactly the selected jobs",
    )
    for n in sel:
        r = rows.get(n)
        if r is None:
            continue
        a = st[n]["age"]
        late = a is not None and a > (36 if st[n]["every"] == "1d" else 3)
        ctx.check(r[0] == ("TOO OLD" if late else "OK"), "SLA")
        ctx.check(r[2] == st[n]["status"], "status")
        ctx.check((r[3] == "-") == (a is None), "last backup")
        ctx.check(r[4] == ("daily" if a is not None else ""), "tags")
    for n in lost:
        if n in rows:
            ctx.check(rows[n][2] == "Dead", "backups without a job")
            ctx.cover("dead")
    ctx.check(
        f"{len(rows)} jobs shown" in out, "they are counted"
    )
    ctx.check(started(d) == [], "showing changes nothing")
    ctx.cover("jobs")


def scenarios(tier):
    t = tier == "thorough"
    return [
        Scenario(
            "trigger", trigger,
            "commands that start backups, reload or check, with any "
            "selection of 3 jobs, a right or wrong token",
            dict(jobs=4 if t else 3, status=[""], ages=[1, 30, 40],
                 intervals=["1d", "2h"] if t else ["1d"], dead=False,
                 auth=True),
            ["backup", "nothing", "refused", "reload", "late", "in time",
             "removed"],
        ),
        Scenario(
            "show", show,
            "3 jobs of any state and two former ones, any selection",
            dict(jobs=3 if t else 2, status=["running (slow)", "finished"],
                 ages=[None, 1, 40], intervals=["1d"], dead=True,
                 auth=False),
            ["daemon", "jobs", "dead"],
        ),
    ]
