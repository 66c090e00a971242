"""C46: reading a repository while others change it."""

import contextlib
import io
import json as json_

import yaml

from .concutil import *

READS = ["connect", "find", "log", "status", "check"]
CHANGES = ["tags", "rm", "expire", "distrust", "clean", "push", "pull",
           "backup", "gc", "verify"]


def reader(ctx, w, kind, repo=None):
    """-> callable returning {uuid: (tags, trust)} or None if the reader
    does not tell revisions apart"""
    import backy.cli
    import backy.repository

    def states(history):
        r = [(x.uuid, (frozenset(x.tags), x.trust.value)) for x in history]
        ctx.check(
            len(dict(r)) == len(r), "every revision is seen once at most"
        )
        return dict(r)

    if kind == "connect":
        def f():
            r = backy.repository.Repository(w.path, mk_schedule(CONF), LOG)
            r.connect()
            t = [x.timestamp for x in r.history]
            ctx.check(t == sorted(t), "the oldest one is the first")
            return states(r.history)
    elif kind == "find":
        # another read of a long running process
        repo = w.repo()

        def f():
            repo.scan()
            return states(repo.find_revisions("all"))
    elif kind == "log":
        def f():
            out = io.StringIO()
            cmd = backy.cli.Command(w.path, None, False, None, LOG)
            with contextlib.redirect_stdout(out):
                code = run(cmd("log_", {"json_": True, "revision": "all"}))
            ctx.check(code == 0, "the command works")
            revs = json_.loads(out.getvalue() or "[]")
            return {
                x["uuid"]: (frozenset(x["tags"]), x["trust"]) for x in revs
            }
    elif kind == "status":
        job = w.job()
        d = job.daemon

        def f():
            (s,) = d.status()
            ctx.check(s["job"] == "b", "the job is reported")
            n = w.reported = s["local_revs"]
            ctx.check(
                w.local[0] <= n <= w.local[1],
                "the number of revisions is that of a state in between",
            )
    else:
        assert kind == "check"

        def f():
            cmd = backy.cli.Command(w.path, None, False, None, LOG)
            code = run(cmd("check", {}))
            ctx.check(code == 2, "the state is critical: no recent backup")
    return f


def snapshot(path):
    return {
        u: (frozenset(r["tags"]), r["trust"])
        for u, r in read_revs(path).items()
    }


def n_local(path):
    return len([
        r for r in read_revs(path).values()
        if not r["server"] and "duration" in r["stats"]
    ])


def judge(ctx, res, states):
    """What was read is right if every revision is in one of the states that
    it had meanwhile."""
    ctx.check(res[0] == "ok", f"reading works ({res[1]!r})"
              if res[0] != "ok" else "reading works")
    got = res[1]
    if got is None:
        return
    for u in set().union(*states) | set(got):
        had = [s.get(u) for s in states]
        ctx.check(
            got.get(u) in had, "each revision is as it was at some moment"
        )


def setup(ctx, env):
    w = World(ctx, env)
    (w.path / "config").write_text(yaml.safe_dump({
        "path": str(w.path), "source": {"type": "rbd", "pool": "p",
                                        "image": "i"},
        "schedule": CONF,
    }))
    return w


def slow_reader(ctx, env):
    """A change happens while the reader is somewhere in between."""
    P = ctx.params
    kind = ctx.choice("reader", P["readers"])
    op = ctx.choice("change", P["changes"])
    w = setup(ctx, env)
    change, _ = w.prepare(op, "a")
    start = snapshot(w.path)
    f = reader(ctx, w, kind)
    n0 = n_local(w.path)
    w.local = (n0 - 3, n0 + 3)
    moment = ctx.int("moment", 0, 1000)
    st = {"r": None}

    def step(i):
        if st["r"] is None and moment == i:
            st["r"] = aside(change)

    p = Points(env, w.path, reads=lambda rel: rel.endswith(".rev"), hook=step)
    with p:
        res = call(f)
    if st["r"] is None:
        return
    ctx.cover("changed meanwhile")
    ctx.cover(kind)
    ctx.cover(op)
    after = snapshot(w.path)
    judge(ctx, res, [start, after])


def slow_change(ctx, env):
    """The reader runs while a change is somewhere in between."""
    P = ctx.params
    kind = ctx.choice("reader", P["readers"])
    op = ctx.choice("change", P["changes"])
    w = setup(ctx, env)
    change, _ = w.prepare(op, "a")
    start = snapshot(w.path)
    complete = {
        u for u, r in read_revs(w.path).items()
        if not r["server"] and "duration" in r["stats"]
    }
    f = reader(ctx, w, kind)
    moment = ctx.int("moment", 0, 1000)
    st = {"r": None}
    w.local = (0, len(start) + 5)

    def step(i):
        if st["r"] is None and moment == i:
            try:
                st["now"] = snapshot(w.path)
            except Exception:
                st["now"] = start  # a file is being written
            st["r"] = aside(f)

    p = Points(env, w.path, reads=reads, hook=step)
    w.points = p

    # moments while a file is being written
    def dump(f):
        def g(*a, **kw):
            p.tell("dump")
            r = f(*a, **kw)
            p.tell("dump")
            return r

        return g

    for n in ("safe_dump", "dump"):
        env.p.setattr(yaml, n, dump(getattr(yaml, n)))
    with p:
        call(change)
    w.points = None
    if st["r"] is None:
        return
    ctx.cover("read meanwhile")
    ctx.cover(kind)
    ctx.cover(op)
    judge(ctx, st["r"], [st["now"]])
    kept = set(start) & set(snapshot(w.path))
    ctx.check(
        st["r"][1] is None or kept <= set(st["r"][1]),
        "revisions nobody removes are listed at any moment",
    )
    if kind == "status":
        ctx.check(
            w.reported >= len(kept & complete),
            "revisions nobody removes are counted at any moment",
        )


def scenarios(tier):
    big = tier == "thorough"
    return [
        Scenario(
            "slow-reader", slow_reader,
            "a process reads the repository; another one completes an "
            "operation at any moment meanwhile",
            dict(readers=READS,
                 changes=CHANGES if big else
                 ["tags", "rm", "expire", "clean", "pull"]),
            ["changed meanwhile", "log", "status", "rm"],
        ),
        Scenario(
            "slow-change", slow_change,
            "an operation runs; another process reads the repository at any "
            "moment meanwhile, also while metadata is being written",
            dict(readers=READS if big else ["connect", "status"],
                 changes=CHANGES),
            ["read meanwhile", "connect", "backup"],
        ),
    ]
