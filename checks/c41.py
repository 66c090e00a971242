"""C41: the life of the daemon."""

import os
import signal

import yaml

from sx.scenario import Scenario

from .c28 import done
from .c40 import Procs
from .daemonutil import *

ASSUMPTIONS = [
    "the backy-file commands are stand-ins which take any time; signals "
    "arrive between two steps of the event loop; sockets are stand-ins",
    "daemons run in one process here: the lock is a real flock, held by the "
    "open lock file of the first one",
]

DUE = D0 + hours(100)


def config(env, jobs, name="backy.conf", base="base", **kw):
    c = {
        "global": {"base-dir": str(env.tmp / base), "worker-limit": 2},
        "schedules": {"s": {"daily": {"interval": "1d", "keep": 5}}},
        "jobs": {
            n: {"source": {"type": "file", "filename": "x"}, "schedule": "s"}
            for n in jobs
        },
    } | kw
    (env.tmp / name).write_text(yaml.safe_dump(c))
    return env.tmp / name


def tree(base):
    r = {}
    for d, ds, fs in os.walk(base):
        for x in ds + fs:
            p = os.path.join(d, x)
            s = os.lstat(p)
            r[p] = (
                s.st_ino, s.st_mtime_ns,
                open(p, "rb").read() if os.path.isfile(p) else None,
            )
    return r


class Sites:
    """Listening sockets."""

    def __init__(self, env, fail=(), delay=0):
        import backy.daemon.api as api

        self.open = set()
        self.log = []
        self.busy = 0
        sites = self

        class Site:
            def __init__(self, runner, host=None, port=None, **kw):
                self.at = (host, port)
                self.name = f"http://{host}:{port}"

            async def start(self):
                sites.busy += 1
                await asyncio.sleep(delay)
                sites.busy -= 1
                if self.at[0] in fail:
                    raise OSError("cannot bind")
                assert self.at not in sites.open, "address in use"
                sites.open.add(self.at)
                sites.log.append(("open", self.at))

            async def stop(self):
                sites.busy += 1
                await asyncio.sleep(delay)
                sites.busy -= 1
                sites.open.discard(self.at)
                sites.log.append(("close", self.at))

        env.p.replace(api.TCPSite, Site)


def start(env, d, lp):
    """Start a daemon; returns its signal handlers."""
    handlers = {}
    lp.add_signal_handler = lambda s, f, *a: handlers.__setitem__(
        int(s), lambda: f(*a)
    )
    d.start(lp)
    d.api_server()
    return handlers


def drive(env, d, on_wait, before=None):
    """Run a daemon as main() does, in virtual time, until it stops its
    loop."""
    handlers = {}
    lp = VLoop(
        lambda r: on_wait(r, handlers) and bool(lp._ready), lambda f: f()
    )
    stopped = []
    real_stop, real_close = lp.stop, lp.close
    lp.stop = lambda: (stopped.append(1), real_stop())
    lp.close = lambda: None
    try:
        asyncio.set_event_loop(lp)
        lp.set_exception_handler(lambda *a: None)
        lp.add_signal_handler = lambda s, f, *a: handlers.__setitem__(
            int(s), lambda: f(*a)
        )
        d.start(lp)
        d.api_server()
        if before:
            before()
        d.run_forever()
        return bool(stopped)
    finally:
        for t in asyncio.all_tasks(lp):
            t.cancel()
        lp.on_wait = None
        lp.timers = []
        with contextlib.suppress(BaseException):
            lp.run_until_complete(_settle(lp))
        asyncio.set_event_loop(None)
        real_close()


async def _settle(lp):
    for i in range(5):
        await asyncio.sleep(0)


def new_daemon(env, conf):
    import backy.daemon

    return backy.daemon.BackyDaemon(conf, LOG)


SIGS = [signal.SIGTERM, signal.SIGINT, signal.SIGQUIT]


def stop(ctx, env):
    P = ctx.params
    names = [f"j{i}" for i in range(P["jobs"])]
    (env.tmp / "base").mkdir()
    conf = config(env, names)
    env.set_now(DUE)
    env.p.setattr(os, "chdir", lambda p: None)
    sites = Sites(env, ["127.0.0.1"] if ctx.flag("port in use") else [])
    procs, killed, late = [], [], []
    st = {"over": False, "n": 0, "waits": 0}
    idle = {n: ctx.flag(f"up to date-{n}") for n in names}
    base = env.tmp / "base"
    for n in names:
        if idle[n]:
            (base / n).mkdir()
            write_rev(base / n, "old", DUE - hours(1), ["daily"])

    def begin(p):
        n = os.path.basename(p.args[p.args.index("-C") + 1])
        p.job = n
        p.cmd = p.args[p.args.index("-C") + 2]
        p.code = 0
        procs.append(p)
        if st["over"]:
            late.append(p)
        st["n"] += 1
        return ctx.int(f"time-{st['n']}", 1, 1000) if st["n"] < 5 else 5

    def end(p):
        if p.cmd == "backup" and p.returncode == 0:
            done(base / p.job, p.args[-1])

    Procs(env, begin, end, killed.append)
    d = new_daemon(env, conf)
    want = ctx.int("moment", 1, P["moments"])

    def on_wait(remaining, handlers):
        st["waits"] += 1
        if st["over"]:
            return False
        if want == st["waits"] or st["waits"] >= P["moments"]:
            st["over"] = True
            st["running"] = [p for p in procs if p.running]
            sig = ctx.choice("signal", SIGS)
            ctx.check(sig in handlers, "the signal is handled")
            handlers[int(sig)]()
            return True
        return False

    stopped = drive(env, d, on_wait, lambda: [
        d.jobs[n].run_immediately.set() for n in names if not idle[n]
    ])
    ctx.check(st["over"] and stopped, "a signal stops the daemon")
    if st["running"]:
        ctx.cover("running")
    else:
        ctx.cover("idle")
    ctx.check(
        all(p in killed for p in st["running"]),
        "running commands are terminated",
    )
    ctx.check(not late, "no command is started after the signal")
    ctx.check(
        all(p in st["running"] for p in killed), "no other is terminated"
    )
    ctx.check(all(not p.running for p in procs), "nothing is left running")


def again(ctx, env):
    """A second daemon on the same base directory."""
    P = ctx.params
    (env.tmp / "base").mkdir()
    (env.tmp / "base2").mkdir()
    conf = config(env, ["j0"])
    other = ctx.choice("other", ["same", "same, other jobs", "spelled",
                                 "other base"])
    env.set_now(DUE)
    env.p.setattr(os, "chdir", lambda p: None)
    Sites(env)
    if other == "same":
        conf2 = conf
    elif other == "same, other jobs":
        conf2 = config(env, ["j0", "j1"], "second.conf")
    elif other == "spelled":
        conf2 = config(env, ["j1"], "second.conf", base="./base/")
    else:
        conf2 = config(env, ["j1"], "second.conf", base="base2")
    ended = ctx.flag("first has ended")
    a, b = new_daemon(env, conf), new_daemon(env, conf2)
    loops = []

    def up(d):
        lp = VLoop(None, lambda f: f())
        loops.append(lp)
        asyncio.set_event_loop(lp)
        try:
            start(env, d, lp)
            return None
        except SystemExit as e:
            return e.code
        finally:
            asyncio.set_event_loop(None)

    try:
        ctx.check(up(a) is None, "the first daemon starts")
        # anything may happen in between
        if ctx.flag("reloaded"):
            asyncio.set_event_loop(loops[0])
            a.reload()
            asyncio.set_event_loop(None)
        if ended:
            a._lock.close()
        before = tree(env.tmp / "base")
        code = up(b)
        n2 = len(asyncio.all_tasks(loops[1]))
        if ended or other == "other base":
            ctx.check(code is None, "a daemon starts if no other is running")
            ctx.cover("starts")
            ctx.check(n2 > 0, "it works")
        else:
            ctx.cover("refused")
            ctx.check(code == 69, "a second daemon exits with status 69")
            ctx.check(n2 == 0, "a second daemon starts no work")
            ctx.check(
                tree(env.tmp / "base") == before,
                "a second daemon changes nothing",
            )
            if ctx.flag("third"):
                c = new_daemon(env, conf2)
                ctx.check(up(c) == 69, "the lock is kept")
    finally:
        for lp in loops:
            for t in asyncio.all_tasks(lp):
                t.cancel()
            lp.timers = []
            with contextlib.suppress(BaseException):
                lp.run_until_complete(_settle(lp))
            lp.close()
        for d in (a, b):
            if d._lock is not None:
                d._lock.close()


def reload(ctx, env):
    """SIGHUP while the API runs."""
    P = ctx.params
    (env.tmp / "base").mkdir()
    env.set_now(DUE)
    env.p.setattr(os, "chdir", lambda p: None)
    sites = Sites(env, delay=P["delay"])
    addrs = P["addrs"]
    confs = []
    for k in range(P["loads"]):
        al = [a for a in addrs if ctx.flag(f"addr-{k}-{a}")]
        port = ctx.choice(f"port-{k}", P["ports"])
        tok = ctx.str(f"token-{k}", 2)
        confs.append((al, port, tok))

    def write(k):
        al, port, tok = confs[k]
        config(env, ["j0"], api={
            "addrs": ", ".join(al), "port": port, "tokens": {tok: "cli"},
        })

    write(0)
    killed, procs = [], []

    def begin(p):
        p.code = 0
        p.job = "j0"
        p.cmd = p.args[p.args.index("-C") + 2]
        procs.append(p)
        return 10**7

    Procs(env, begin, lambda p: None, killed.append)
    d = new_daemon(env, env.tmp / "backy.conf")
    api = []
    import backy.daemon.api

    init = backy.daemon.api.BackyAPI.__init__

    def spy(self, *a, **kw):
        api.append(self)
        init(self, *a, **kw)

    env.p.setattr(backy.daemon.api.BackyAPI, "__init__", spy)
    st = {"k": 0, "over": False, "broken": False, "w": 0}
    broken = ctx.choice("broken", P["kinds"])

    def on_wait(remaining, handlers):
        if st["over"]:
            return False
        st["w"] += 1
        if sites.busy:
            if broken == "during" and st["k"] + 1 < len(confs) and ctx.flag(
                f"during-{st['w']}"
            ):
                st["k"] += 1
                write(st["k"])
                handlers[int(signal.SIGHUP)]()
                ctx.cover("during")
            return False
        al, port, tok = confs[st["k"]]
        ctx.check(
            sites.open == {(a, port) for a in al},
            "the API listens on the configured addresses",
        )
        ctx.check(len(api) == 1, "one API server")
        ctx.check(
            conj(ctx, len(api[0].tokens) == 1, *[
                disj(ctx, *[t == tok for t in api[0].tokens]),
            ]),
            "exactly the configured tokens are accepted",
        )
        ctx.check(
            [p.job for p in procs] == ["j0"] and not killed,
            "a reload does not disturb unchanged jobs",
        )
        st["k"] += 1
        if st["k"] < len(confs) and not (
            broken in ("no yaml", "bad schedule", "missing")
            and st["k"] == len(confs) - 1
        ):
            if broken == "two at once" and st["k"] + 1 < len(confs):
                write(st["k"])
                handlers[int(signal.SIGHUP)]()
                st["k"] += 1
                ctx.cover("two at once")
            write(st["k"])
            handlers[int(signal.SIGHUP)]()
            ctx.cover("reloaded")
            return True
        st["over"] = True
        if st["k"] < len(confs):
            f = env.tmp / "backy.conf"
            if broken == "no yaml":
                f.write_text("{")
            elif broken == "missing":
                f.unlink()
            else:
                config(env, ["j0"], schedules={
                    "s": {"daily": {"interval": "1x", "keep": 5}}})
            st["broken"] = True
            ctx.cover("broken")
            try:
                handlers[int(signal.SIGHUP)]()
            except Exception:
                pass  # logged by the event loop
        else:
            handlers[int(signal.SIGTERM)]()
        return True

    stopped = drive(
        env, d, on_wait, lambda: d.jobs["j0"].run_immediately.set()
    )
    ctx.check(
        stopped, "a broken configuration stops the daemon"
        if st["broken"] else "the daemon stops",
    )
    ctx.check(len(killed) == 1, "running commands are terminated")


def scenarios(tier):
    t = tier == "thorough"
    return [
        Scenario(
            "stop", stop,
            "two jobs which are due or not, commands of any duration; "
            "SIGTERM, SIGINT or SIGQUIT at any pause; an address of the API "
            "may be in use",
            dict(jobs=3 if t else 2, moments=24 if t else 10),
            ["running", "idle"],
        ),
        Scenario(
            "again", again,
            "a second daemon with the same or another configuration while "
            "the first one runs, was reloaded or has ended",
            {}, ["starts", "refused"],
        ),
        Scenario(
            "reload", reload,
            "SIGHUP with any addresses, ports and tokens, with a broken or "
            "missing file, several at once",
            dict(loads=3, ports=[6023, 7000] if t else [6023], delay=0,
                 addrs=["::1", "127.0.0.1"] + (["10.0.0.1"] if t else []),
                 kinds=["no", "no yaml", "bad schedule", "missing",
                        "two at once"]),
            ["reloaded", "broken", "two at once"],
        ),
        Scenario(
            "ports", reload,
            "SIGHUP with other ports",
            dict(loads=3, ports=[6023, 7000], delay=0,
                 addrs=["::1"], kinds=["no"]),
            ["reloaded"],
        ),
        Scenario(
            "during", reload,
            "SIGHUP while the API is still being reconfigured",
            dict(loads=3, ports=[6023, 7000] if t else [6023], delay=1,
                 addrs=["::1", "127.0.0.1"], kinds=["during"]),
            ["reloaded", "during"],
        ),
    ]
