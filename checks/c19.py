"""C19: tag edits."""

from sx.scenario import Scenario

from .common import *

ASSUMPTIONS = [
    "tag names have up to 12 characters; which of them coincide is decided "
    "by the solver",
    "the metadata format of PyYAML is trusted",
]


def tagset(ctx, name, n):
    """A set of up to n arbitrary tags."""
    s = set()
    for i in range(ctx.choice(f"{name}.n", range(n + 1)) if n else 0):
        s.add(ctx.str(f"{name}.{i}", 12, minlen=1))
    return s


def fixset(ctx, name, n):
    return {ctx.str(f"{name}.{i}", 12, minlen=1) for i in range(n)}


def edit(ctx, env):
    P = ctx.params
    daily = ctx.lit("daily")
    conf = {daily: {"interval": "1d", "keep": 2}}
    n = P["revs"]
    ts = increasing(ctx, n)
    before = []
    servers = []
    completes = []
    trusts = []
    for i in range(n):
        tg = tagset(ctx, f"tags{i}", P["rtags"])
        srv = ctx.choice(f"server{i}", P["servers"])
        before.append(tg)
        servers.append(srv)
        orig = set(tg)
        kind = ctx.choice(f"kind{i}", P.get("kinds", ["complete"]))
        completes.append(kind != "incomplete")
        trusts.append("trusted" if kind in ("complete", "incomplete")
                      else kind)
        write_rev(env.tmp, f"r{i}", ts[i], tg, orig, server=srv,
                  complete=completes[i], trust=trusts[i])
    repo = mk_repo(env.tmp, conf)
    action = ctx.choice("action", P["actions"])
    spec = ctx.choice("spec", P["specs"])
    sel = {"all": range(n), "last": [n - 1], "first": [0],
           "r0,r1": [0, 1], "0..0": [n - 1]}[spec]
    arg = tagset(ctx, "arg", P["atags"])
    expect = None
    if P["expect"] and ctx.flag("expecting"):
        expect = tagset(ctx, "expect", P["etags"])
    autoremove = ctx.flag("autoremove")
    force = ctx.flag("force")
    arg0 = set(arg)
    result = exc = None
    try:
        result = repo.tags(action, spec, set(arg), expect,
                           autoremove=autoremove, force=force)
    except RuntimeError as e:
        exc = e
    after = read_revs(env.tmp)
    mem = {r.uuid: set(r.tags) for r in repo.history}
    bad_expect = expect is not None and any(before[i] != expect for i in sel)
    unknown = (
        not force
        and action != "remove"
        and any(
            not t.startswith("manual:") and t != daily for t in arg0
        )
    )
    if bad_expect or unknown:
        ctx.cover("refused")
        ctx.check(not result, "the edit is refused")
        want = before
        removed = set()
        sel = []
    else:
        ctx.check(result is True, "a valid edit is reported as done")
        want = [set(t) for t in before]
        removed = set()
        for i in sel:
            if action == "set":
                want[i] = set(arg0)
            elif action == "add":
                want[i] = before[i] | arg0
            else:
                want[i] = before[i] - arg0
            if not want[i] and autoremove and not servers[i]:
                removed.add(i)
                ctx.cover("autoremoved")
        ctx.cover("done")
    for i in range(n):
        u = f"r{i}"
        if i in removed:
            ctx.check(u not in after, "emptied revision is deleted")
            ctx.check(u not in mem, "emptied revision is not listed")
            continue
        if not (u in after and u in mem):
            ctx.check(False, "a revision that keeps tags is not deleted")
            continue
        ctx.check(
            set(after[u]["tags"]) == want[i], "exactly the tags as edited"
        )
        ctx.check(mem[u] == want[i], "memory agrees with disk")
        ctx.check(
            set(after[u]["orig_tags"]) == before[i], "original tags untouched"
        )
        ctx.check(after[u]["timestamp"] == ts[i], "timestamp untouched")
        ctx.check(after[u]["server"] == servers[i], "server untouched")
        ctx.check(after[u]["trust"] == trusts[i], "trust untouched")
        ctx.check(
            ("duration" in after[u]["stats"]) == completes[i],
            "statistics untouched",
        )


def scenarios(tier):
    allact = ["set", "add", "remove"]
    r = [
        Scenario(
            "one-revision",
            edit,
            "one revision with up to 2 arbitrary tags, edit with up to 2, "
            "expectation of up to 2, all options",
            dict(revs=1, rtags=2, atags=2, etags=2, expect=True,
                 servers=["", "s1"], actions=allact, specs=["all"]),
            ["refused", "done", "autoremoved"],
        ),
        Scenario(
            "two-revisions",
            edit,
            "two revisions with up to 1 arbitrary tag each, edit and "
            "expectation of up to 1, all options and selections",
            dict(revs=2, rtags=1, atags=1, etags=1, expect=True,
                 servers=[""], actions=allact, specs=["all", "last", "r0,r1"]),
            ["refused", "done", "autoremoved"],
        ),
        Scenario(
            "kinds",
            edit,
            "two revisions with up to 1 tag, incomplete or of any trust, "
            "edit of up to 1",
            dict(revs=2, rtags=1, atags=1, etags=0, expect=False,
                 servers=[""], actions=allact, specs=["all", "first"],
                 kinds=["incomplete", "distrusted", "verified"]),
            ["refused", "done", "autoremoved"],
        ),
        Scenario(
            "shared-argument",
            edit,
            "two revisions, no expectation, 2 tags to set or add",
            dict(revs=2, rtags=1, atags=2, etags=0, expect=False,
                 servers=["", "s1"], actions=["set", "add"], specs=["all"]),
            ["refused", "done", "autoremoved"],
        ),
    ]
    if tier == "thorough":
        r += [
            Scenario(
                "three-revisions",
                edit,
                "three revisions with up to 1 tag, edit of 1, expectation of 1",
                dict(revs=3, rtags=1, atags=1, etags=1, expect=True,
                     servers=["", "s1"], actions=allact,
                     specs=["all", "first", "r0,r1"]),
                ["refused", "done", "autoremoved"],
            ),
            Scenario(
                "two-two",
                edit,
                "two revisions with up to 2 tags, edit of up to 2",
                dict(revs=2, rtags=2, atags=2, etags=1, expect=True,
                     servers=[""], actions=allact, specs=["all"]),
                ["refused", "done", "autoremoved"],
            ),
        ]
    return r
