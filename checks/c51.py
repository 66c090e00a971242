"""C51: a damaged repository only affects its own job."""

import shutil

from sx.scenario import Scenario

from .c28 import done
from .c40 import Procs
from .c41 import Sites, config, drive
from .daemonutil import *

ASSUMPTIONS = [
    "a repository is damaged by a metadata file that can not be read, in one "
    "of 8 ways",
    "the backy-file commands are stand-ins which take any time",
]

START = D0 + hours(100)
NAMES = ["a", "b", "c"]


def damage(path, kind):
    f = path / "bad.rev"
    if kind == "directory":
        f.mkdir()
        return
    if kind == "empty":
        f.write_bytes(b"")
    elif kind == "undecodable":
        f.write_bytes(b"uuid: \xff\xfe\n")
    elif kind == "text":
        f.write_bytes(b"just text\n")
    elif kind == "torn":
        f.write_bytes(b"uuid: bad\nstats: {duration: 1\n")
    else:
        write_rev(path, "bad", D0, ["daily"],
                  trust="unheard" if kind == "trust" else "trusted")
        s = f.read_text()
        if kind == "nofield":
            s = s.replace("uuid: bad\n", "")
        elif kind == "naive":
            s = "".join(
                "timestamp: 2020-01-01 00:00:00\n"
                if x.startswith("timestamp") else x
                for x in s.splitlines(True)
            )
        f.write_text(s)


def repair(path):
    f = path / "bad.rev"
    if f.is_dir():
        f.rmdir()
    elif f.exists():
        f.unlink()


def isolation(ctx, env):
    import backy.daemon

    P = ctx.params
    conf = config(env, NAMES[:2])
    base = env.tmp / "base"
    base.mkdir()
    for n in NAMES:
        (base / n).mkdir()
        write_rev(base / n, "old", START - hours(ctx.choice(
            f"age-{n}", P["ages"])) if n != "c" else D0, ["daily"])
        (base / n / "data").write_text("x")
    victim = ctx.choice("victim", P["victims"])
    kind = ctx.choice("kind", P["kinds"])
    when = ctx.int("when", -1, P["moments"])
    back = ctx.choice("repaired", [False, True])
    what = ctx.choice("request", P["requests"])
    state = {"damaged": False, "waits": 0, "ran": {n: [] for n in NAMES},
             "since": None, "now": 0, "repaired": None}
    Sites(env)
    env.p.setattr(os, "chdir", lambda p: None)
    sleep = asyncio.sleep
    # Polling for the end of the daemon would take all the steps.
    env.p.setattr(
        asyncio, "sleep",
        lambda t, *a: sleep(10**8 if 0 < t < 5 else t, *a),
    )

    def break_():
        damage(base / victim, kind)
        state["damaged"] = True
        state["since"] = state["now"]
        ctx.cover(victim)

    def clock():
        return START + dt.timedelta(seconds=state["now"])

    env.set_now(clock)
    running = set()

    def begin(p):
        n = os.path.basename(p.args[p.args.index("-C") + 1])
        p.job, p.cmd = n, p.args[p.args.index("-C") + 2]
        p.code = 0
        running.add(n)
        if state["damaged"] and n == victim:
            p.dirty = True
        ctx.check(
            not (state["damaged"] and n == victim and p.cmd == "gc"
                 and state["since"] < state["now"] - 100),
            "nothing is collected in a damaged repository",
        )
        state["ran"][n].append((p.cmd, state["now"]))
        return 30

    def end(p):
        running.discard(p.job)
        if p.cmd == "backup" and p.returncode == 0:
            done(base / p.job, p.args[-1])

    Procs(env, begin, end, lambda p: None)
    d = backy.daemon.BackyDaemon(conf, LOG)

    def check_status():
        try:
            got = {s["job"]: s for s in d.status()}
        except Exception:
            got = {}
        others = [n for n in NAMES[:2] if n != victim]
        ctx.check(
            all(n in got for n in others), "the status of others is known"
        )
        for n in others:
            if n not in got:
                continue
            revs = [
                r for r in read_revs(base / n).values()
                if "duration" in r["stats"]
            ]
            ctx.check(
                got[n]["local_revs"] == len(revs)
                and got[n]["last_time"] == max(
                    r["timestamp"] for r in revs
                ),
                "the status of others is right",
            )

    def on_wait(remaining, handlers):
        i = state["waits"]
        state["waits"] += 1
        lp = asyncio.get_event_loop_policy().get_event_loop()
        state["now"] = lp.elapsed
        if not state["damaged"] and state["repaired"] is None and when == i:
            break_()
            if what == "reload":
                d.reload()
                ctx.cover("reload")
                return True
        if state["damaged"] and what == "status":
            check_status()
            ctx.cover("status")
        if state["damaged"] and back and (
            state["now"] > state["since"] + 36 * 3600
        ):
            repair(base / victim)
            state["damaged"] = False
            state["repaired"] = state["now"]
        if state["now"] > P["days"] * 86400:
            handlers[15]()
            return True
        return False

    if when == -1:
        break_()
        ctx.cover("start")
    stopped = False
    try:
        stopped = drive(env, d, on_wait)
    except Deadlock:
        pass
    ctx.check(
        stopped and state["now"] > P["days"] * 86400, "the daemon keeps on"
    )
    if state["since"] is None:
        return
    ctx.check((base / victim / "data").exists(), "nothing is removed")
    ctx.check(
        (base / victim / "old.rev").exists(), "no metadata is removed"
    )
    for n in NAMES[:2]:
        if n == victim:
            if state["repaired"] is not None:
                late = [t for c, t in state["ran"][n]
                        if c == "backup" and t >= state["repaired"]]
                ctx.check(bool(late), "a repaired job goes on")
                ctx.cover("repaired")
            continue
        ts = [0] + [t for c, t in state["ran"][n] if c == "backup"] + [
            state["now"]
        ]
        ctx.check(
            all(b - a <= 2 * 86400 for a, b in zip(ts, ts[1:])),
            "other jobs are not disturbed",
        )
    ctx.cover("end")


def scenarios(tier):
    big = tier == "thorough"
    kinds = ["empty", "undecodable", "text", "torn", "nofield", "naive",
             "trust", "directory"]
    return [
        Scenario(
            "isolation", isolation,
            "2 jobs and a dead backup, one of which is damaged at any moment",
            dict(
                ages=[1, 30] if big else [1],
                victims=NAMES, kinds=kinds if big else ["empty", "torn", "trust", "directory"],
                moments=12 if big else 6, days=5,
                requests=["none", "reload", "status"],
            ),
            ["a", "c", "start", "reload", "status", "repaired", "end"],
        ),
    ]
