"""C38: completed changes of metadata are not undone by other operations."""

from .c21 import lock_states
from .concutil import *

BACKUPS = ["u0", "u1", "u2"]


def edit(w, kind):
    """A complete change by another process."""
    repo = w.repo()
    if kind == "tags":
        return lambda: repo.tags("add", "local&clean", {"manual:edit"})
    if kind == "untag":
        return lambda: repo.tags("remove", "u1", {"manual:keep"})
    if kind == "distrust":
        return lambda: repo.distrust(repo.find_revisions("local&clean"))
    if kind == "rm":
        return lambda: repo.rm(repo.find_revisions("u1,u2"))
    if kind == "expire":
        return repo.expire
    if kind == "remote":
        return lambda: repo.tags("add", "r0,r1", {"manual:edit"}, force=True)
    assert kind == "verify"
    src = mk_source(repo)
    r = repo.find_by_uuid("u2")
    return lambda: src.verify(r)


def lost(ctx, env):
    P = ctx.params
    a = ctx.choice("operation", P["ops"])
    kind = ctx.choice(
        "change", P["changes"] + ["remote"] * (a != "pull")
    )
    w = World(ctx, env)
    fa, repo = w.prepare(a, "a")
    moment = ctx.int("moment", -1, 1000)
    state = {"r": None}

    def step(i):
        if state["r"] is None and moment == i:
            state["at"] = i
            fe = edit(w, kind)
            before = read_revs(w.path)
            state["r"] = aside(fe)
            state["revs"] = read_revs(w.path)
            state["before"] = before

    step(-1)
    p = Points(env, w.path, reads=reads, hook=step)
    w.points = p
    with p:
        r = call(fa)
    w.points = None
    if state["r"] is None:
        return
    if state["r"][0] != "ok":
        ctx.cover("refused")
        return
    ctx.cover("changed first" if state["at"] < 0 else "changed meanwhile")
    mid, end = state["revs"], read_revs(w.path)
    old = state["before"]
    revs = BACKUPS + (["r0", "r1"] if kind == "remote" else [])
    for u in revs:
        late = ""
        if "verify" in (a, kind) and any(
            e == ("read", u + ".rev")
            for e in p.events[: max(0, state["at"])]
        ):
            # Verification does not hold the lock of the other operations:
            # it may change the file between their (or its own) reading and
            # writing.
            late = " (between reading and writing)"
            ctx.cover("late")
        if u == "r1" and a == "rm":
            continue
        if u in mid and u in end:
            gained = set(mid[u]["tags"]) - set(old[u]["tags"])
            ctx.check(
                gained <= set(end[u]["tags"]), "added tags are kept" + late
            )
            dropped = set(old[u]["tags"]) - set(mid[u]["tags"])
            ctx.check(
                not dropped & set(end[u]["tags"]),
                "removed tags stay removed" + late,
            )
            # A backup ends with the verification of a distrusted revision.
            own = (
                a == "distrust"
                or a == "verify" and u == "u1"
                or a == "backup" and end[u]["trust"] == "verified"
            )
            if mid[u]["trust"] != old[u]["trust"] and not own:
                ctx.check(
                    end[u]["trust"] == mid[u]["trust"],
                    "trust is kept" + late,
                )
        if u in old and u not in mid:
            ctx.check(
                u not in end, "a removed revision stays removed" + late
            )
        if u in mid and u not in end:
            ctx.check(
                a == "rm" and u in ("u0", "r1") or a == "expire"
                and "manual:edit" not in mid[u]["tags"],
                "no other revision disappears" + late,
            )


def scenarios(tier):
    return [
        Scenario(
            "lost", lost,
            "an operation reads the repository; another process completes a "
            "change (tags, trust, removal, expiry, verification) at any "
            "moment before or during the operation at which it is not locked "
            "out",
            dict(ops=ALL,
                 changes=["tags", "untag", "distrust", "rm", "expire",
                          "verify"]),
            ["refused", "changed first", "changed meanwhile"],
        ),
    ]
