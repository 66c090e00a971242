"""C21: operations on one repository exclude each other."""

import asyncio

import z3

from sx.proxies import SymBool

from .concutil import *


def traced(w, f, op, fault=None):
    """-> (outcome, points)"""
    p = Points(w.env, w.path, reads=reads)
    w.points = p
    if fault:
        p.hook = fault
    with p:
        r = call(f)
    w.points = None
    return r, p


def held(p, i, target):
    """State of a lock before event i (or after the operation)."""
    return p.held[i][target] if i < p.n else p.probe()[target]


def pairs(ctx, env):
    """B starts at any moment of A."""
    P = ctx.params
    a = ctx.choice("A", P["A"])
    b = ctx.choice("B", P["B"])
    ctx.cover(a)
    w = World(ctx, env)
    fa, ra = w.prepare(a, "a")
    fb, rb = w.prepare(b, "b", first=False)
    if ctx.symbolic:
        symbolic_pair(ctx, env, w, a, b, fa)
        return
    t = ctx.int("moment", 0, 1000)
    got = []

    def hook(i):
        if i == t:
            w.before()
            before = tree(w.path)
            got.append(aside(fb))
            got.append(tree(w.path) == before)

    p = Points(env, w.path, reads=reads, hook=hook)
    w.points = p
    with p:
        ra = call(fa)
    w.points = None
    if not got:
        return
    ea = effects(a, p.events)
    inside = ea and ea[0] < t <= ea[-1]
    if conflicting(a, b) and inside:
        ctx.check(
            got[0][0] in ("refused", "waits"),
            f"{b} does not run while {a} runs",
        )
    if got[0][0] == "refused":
        ctx.check(got[1], f"{b} changes nothing when it is refused")
    ctx.check(
        got[0][0] != "waits" or b in READERS + ["backup"],
        f"{b} does not wait",
    )
    if a in ("gc", "verify") and b in READERS + ["backup"]:
        ctx.check(got[0][0] != "refused", f"{b} waits for {a}")
    if not conflicting(a, b) and (b in READERS or a in READERS):
        ctx.check(
            got[0][0] not in ("refused", "waits"),
            f"{b} runs in parallel with {a}",
        )
    ctx.check(ra[0] == "ok", "the first operation is not disturbed")
    ctx.check(
        not any(lock_states(w.path).values()), "locks are released"
    )


def lock_states(path):
    from sx.points import lock_state

    return {x: lock_state(str(path / x)) for x in (".backup", ".purge")}


def symbolic_pair(ctx, env, w, a, b, fa):
    """The same over the recorded steps of both: the moment is a variable."""
    ra, A = traced(w, fa, a)
    ctx.check(ra[0] == "ok", f"{a} succeeds")
    ctx.check(not any(lock_states(w.path).values()), "locks are released")
    w2 = World(ctx, env, "w2")
    fb, _ = w2.prepare(b, "b")
    rb, B = traced(w2, fb, b)
    ctx.check(rb[0] == "ok", f"{b} succeeds")
    t = ctx.int("moment", 0, A.n).e
    # how far B gets if it starts when A is at t
    alive = z3.BoolVal(True)  # all locks so far were free
    waits = z3.BoolVal(False)
    refused = z3.BoolVal(False)
    touched = z3.BoolVal(False)  # an effect of B
    dirty = z3.BoolVal(False)  # B has changed something and is refused
    eb = set(effects(b, B.events))
    for j, e in enumerate(B.events):
        if e[0] == "trylock":
            _, target, mode, wait = e
            free = z3.Or(
                [
                    t == i
                    for i in range(A.n + 1)
                    if held(A, i, target) == ""
                    or mode == "sh" and held(A, i, target) == "sh"
                ]
            )
            no = z3.And(alive, z3.Not(free))
            if wait:
                waits = z3.Or(waits, no)
            else:
                refused = z3.Or(refused, no)
                dirty = z3.Or(dirty, z3.And(no, touched))
            alive = z3.And(alive, free)
        elif j in eb:
            touched = z3.Or(touched, alive)
    ea = effects(a, A.events)
    ctx.check(bool(ea) and bool(eb), "both do something")
    inside = z3.And(t > ea[0], t <= ea[-1]) if ea else z3.BoolVal(False)
    if conflicting(a, b):
        ctx.check(
            SymBool(ctx, z3.Implies(inside, z3.Not(touched))),
            f"{b} does not run while {a} runs",
        )
    if b not in READERS + ["backup"]:
        ctx.check(SymBool(ctx, z3.Not(waits)), f"{b} does not wait")
    if a in ("gc", "verify") and b in READERS + ["backup"]:
        ctx.check(SymBool(ctx, z3.Not(refused)), f"{b} waits for {a}")
    ctx.check(
        SymBool(ctx, z3.Not(dirty)),
        f"{b} changes nothing when it is refused",
    )
    if not conflicting(a, b) and (b in READERS or a in READERS):
        ctx.check(
            SymBool(ctx, alive), f"{b} runs in parallel with {a}"
        )


def same(ctx, env):
    """The daemon: an asynchronous operation and others on its object."""
    P = ctx.params
    a = ctx.choice("A", ["push", "pull"])
    b = ctx.choice("B", P["B"])
    w = World(ctx, env)
    fa, repo = w.prepare(a, "a")
    fb, _ = w.prepare(b, "b", repo=repo, first=False)
    moment = ctx.int("moment", 0, 1000)
    got = []

    def hook(i):
        nonlocal t
        if not got and moment == i:
            t = i
            w.before()
            before = tree(w.path)
            got.append(aside(fb))
            got.append(tree(w.path) == before)
        elif got:
            states.append(lock_states(w.path)[".backup"])

    t = None
    states = []
    p = Points(env, w.path, reads=reads, hook=hook)
    w.points = p
    with p:
        ra = call(fa)
    w.points = None
    if not got:
        ctx.cover("past the end")
        return
    ea = effects(a, p.events)
    if ea[0] < t <= ea[-1]:
        ctx.cover(a)
        ctx.check(
            got[0][0] == "refused", f"{b} is refused on the same object"
        )
        ctx.check(got[1], f"{b} changes nothing when it is refused")
        left = [i for i in range(t + 1, p.n) if i <= ea[-1]]
        ctx.check(
            all(s == "ex" for s in states[: len(left)]),
            "the lock is still held afterwards",
        )
    ctx.check(ra[0] == "ok", "the first operation is not disturbed")
    ctx.check(not any(lock_states(w.path).values()), "locks are released")


class Stop(BaseException):
    pass


def failing(ctx, env):
    """Locks are released whatever happens."""
    P = ctx.params
    a = ctx.choice("A", ALL)
    kind = ctx.choice("fault", P["faults"])
    w = World(ctx, env)
    fa, repo = w.prepare(a, "a")
    n = ctx.int("step", 0, 1000)
    hit = []

    def hook(i):
        if hit or not n == i:
            return
        e = p.events[i]
        hit.append(e)
        if e[0] in ("unlock", "locked"):
            return
        if kind == "interrupt":
            raise KeyboardInterrupt()
        if e[0] == "api":
            if kind == "cancel":
                raise asyncio.CancelledError()
            raise aiohttp.ClientConnectionError("gone")
        if e[0] == "ceph":
            raise subprocess.CalledProcessError(1, "rbd")
        if e[0] == "trylock":
            raise BlockingIOError()
        raise OSError(28, "No space left on device")

    p = Points(env, w.path, reads=reads, hook=hook)
    w.points = p
    with p:
        try:
            r = call(fa)
        except (KeyboardInterrupt, asyncio.CancelledError) as e:
            r = ("died", e)
    w.points = None
    if hit:
        ctx.cover(r[0])
    ctx.check(
        not any(lock_states(w.path).values()),
        "locks are released when the operation has ended",
    )
    # The same object can be used again.
    r = call(lambda: repo.tags("add", "all", {"manual:again"}))
    ctx.check(r[0] == "ok", "another operation is possible")
    r = call(mk_source(repo).gc)
    ctx.check(
        r[0] not in ("refused", "waits"), "garbage collection is possible"
    )


def scenarios(tier):
    return [
        Scenario(
            "pairs", pairs,
            "any two of backup, tags, rm, expire, distrust, clean, push, pull, "
            "gc, verify, restore; the second starts at any step (change, "
            "relevant read, Ceph command, request, lock) of the first",
            dict(A=ALL, B=ALL), ALL,
        ),
        Scenario(
            "same", same,
            "push or pull and any other operation through the same repository "
            "object at any step",
            dict(B=CHANGERS), ["push", "pull", "past the end"],
        ),
        Scenario(
            "failing", failing,
            "any operation; any of its steps fails, is cancelled or "
            "interrupted",
            dict(faults=["error", "interrupt", "cancel"]),
            ["ok", "failed", "refused", "died"],
        ),
    ]
