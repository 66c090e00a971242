"""C22: concurrent maintenance never loses a completed backup."""

from .c21 import lock_states
from .concutil import *

DONE = ["u0", "u1", "u2"]


def race(ctx, env):
    P = ctx.params
    x = ctx.choice("maintenance", P["ops"])
    w = World(ctx, env)
    if ctx.flag("distrusted"):
        write_rev(w.path, "u0", D0, ["daily"], trust="distrusted")
    run_at = ctx.int("run", -1, 1000)
    state = {"r": None}
    views = []  # the repository as it was read at different moments

    def step(i):
        if state["r"] is not None:
            return
        revs = {k: v for k, v in tree(w.path).items() if k.endswith(".rev")}
        if not views or views[-1][0] != revs:
            views.append((revs, w.prepare(x, "x")[0]))
        if not run_at == i:
            return
        busy = lock_states(w.path)
        state["busy"] = any(busy.values())
        if not any(busy.values()):
            k = ctx.choice("read", list(range(len(views))))
            if k < len(views) - 1:
                ctx.cover("stale")
        else:
            k = ctx.choice("read", [0, len(views) - 1])
        state["r"] = aside(views[k][1])
        if state["r"][0] in ("refused", "waits"):
            ctx.cover("refused")

    repo = w.repo()
    src = mk_source(repo)

    def backup():
        # as the daemon does
        r = new_rev(repo, "new", D0 + dt.timedelta(9), ["daily", "manual:n"])
        return src.backup(r)

    step(-1)
    p = Points(env, w.path, reads=lambda rel: False, hook=step)
    w.points = p
    with p:
        r = call(backup)
    w.points = None
    step(p.n)
    if state["r"] is None:
        return  # later
    if state["r"][0] == "ok":
        ctx.cover("ran")
    if r != ("ok", True):
        # Its revision was removed before it took the lock.
        ctx.check(
            not state["busy"], "a running backup is not broken by others"
        )
        ctx.cover("failed")
        return
    revs = read_revs(w.path)
    ctx.check(
        "new" in revs and "duration" in revs["new"]["stats"],
        "the completed backup is recorded",
    )
    if x != "expire":
        done = [u for u in DONE if x != "rm" or u != "u0"]
        ctx.check(
            all(u in revs and "duration" in revs[u]["stats"] for u in done),
            "older backups stay",
        )
    repo = w.repo()
    for u in sorted(set(revs) & {"new", *DONE}):
        try:
            got = read_image(w.native, repo, u)
        except Exception:
            got = None
        ctx.check(
            got == SMALL.get(u, SMALL["head"]),
            "the content of completed backups stays readable",
        )


def scenarios(tier):
    ops = ["clean", "gc", "verify", "expire"]
    if tier == "thorough":
        ops += ["distrust", "tags", "push", "pull", "rm"]
    return [
        Scenario(
            "race", race,
            "a backup of the daemon (from the new revision to its end) and "
            "one of cleanup, collection, verification, expiry (thorough: all "
            "operations) of another process, which reads the repository at "
            "any step of the backup and starts at any later one",
            dict(ops=ops), ["stale", "refused", "ran"],
        ),
    ]
