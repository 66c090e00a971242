"""C18: revision specifiers."""

from sx.scenario import Scenario

from .common import *

ASSUMPTIONS = [
    "revisions have pairwise different timestamps, in any order on disk",
    "dates in ranges carry a time zone",
    "the structure of specifiers is generated up to the stated depth, each "
    "form of the manual included",
]


class H:
    """The history the reference evaluation works on (oldest first)."""

    def __init__(self, ctx, revs):
        self.ctx = ctx
        self.revs = revs


class Err(Exception):
    pass


# --- syntax trees: (text, evaluation: H -> list of uuids) --------------------


def atom(text, pred):
    return text, lambda h: [r["uuid"] for r in h.revs if pred(r)]


def multi_atoms():
    return [
        ("all", None, lambda r: True),
        ("clean", "complete", lambda r: r["complete"]),
        ("local", "server", lambda r: r["server"] == ""),
        ("remote", "server", lambda r: r["server"] != ""),
        ("server:", "server", lambda r: r["server"] == ""),
        ("server:s1", "server", lambda r: r["server"] == "s1"),
        ("tag:a", "tags", lambda r: "a" in r["tags"]),
        ("trust:verified", "trust", lambda r: r["trust"] == "verified"),
        ("trust:DISTRUSTED", "trust", lambda r: r["trust"] == "distrusted"),
    ]


def at(h, i):
    if not -len(h.revs) <= i < len(h.revs):
        raise Err
    return [h.revs[i]["uuid"]]


def single(h, u):
    if u not in [r["uuid"] for r in h.revs]:
        raise Err
    return [u]


def few(ctx):
    return ctx.params.get("few")


def gen_single(ctx, name, depth):
    opts = ["id1", "0", "1", "7", "first", "last", "latest", "nope"]
    if few(ctx) and name != "spec":
        opts = ["id1", "1", "last", "nope"]
    if ctx.params.get("ids"):
        opts = ["id1", "last"]
    elif depth > 0:
        opts += ["f-first", "f-last"]
    o = ctx.choice(name, opts)
    if o == "id1":
        return ("u1", None, lambda h: single(h, "u1"))
    if o == "nope":
        return ("nope", None, lambda h: single(h, "nope"))
    if o in ("0", "1", "7"):
        return (o, None, lambda h, n=int(o): at(h, -n - 1))
    if o == "first":
        return (o, None, lambda h: at(h, 0))
    if o in ("last", "latest"):
        return (o, None, lambda h: at(h, -1))
    t, a, ev = gen_multi(ctx, name + ".in", depth - 1)

    def pick(h, i=0 if o == "f-first" else -1):
        x = ev(h)
        if not x:
            raise Err
        return [x[i]]

    return (f"{o[2:]}({t})", a, pick)


def gen_multi(ctx, name, depth, ops=None):
    ops = ops or ctx.params.get("ops")
    kinds = ["atom", "single"]
    if depth > 0:
        kinds += ops or ["not", "reverse", "paren", "and", "or", "range"]
    k = ctx.choice(name, kinds)
    if k == "atom":
        atoms = multi_atoms()
        if few(ctx) and name != "spec":
            atoms = [a for a in atoms if a[0] in few(ctx)]
        t, a, pred = ctx.choice(name + ".a", atoms)
        return (
            t, a, lambda h: [r["uuid"] for r in h.revs if pred(r)],
        )
    if k == "single":
        return gen_single(ctx, name + ".s", depth)
    if k in ("not", "reverse", "paren"):
        t, a, ev = gen_multi(ctx, name + ".u", depth - 1)
        if k == "not":
            def inverse(h):
                x = ev(h)
                return [r["uuid"] for r in h.revs if r["uuid"] not in x]

            return (f"not({t})", a, inverse)
        if k == "reverse":
            return (f"reverse({t})", a, lambda h: ev(h)[::-1])
        return (f"({t})", a, ev)
    if k in ("and", "or"):
        # a comma binds weaker than an ampersand
        t1, a1, e1 = gen_multi(ctx, name + ".l", depth - 1)
        t2, a2, e2 = gen_multi(ctx, name + ".r", depth - 1)
        a = (a1 or "") + " " + (a2 or "")
        if k == "and":
            if "," in t1 and t1[-1] != ")":
                t1 = f"({t1})"
            if "," in t2 and t2[-1] != ")":
                t2 = f"({t2})"

            def intersect(h):
                x, y = e1(h), e2(h)
                return uniq([u for u in x if u in y])

            return (f"{t1} & {t2}", a, intersect)
        return (f"{t1}, {t2}", a, lambda h: uniq(e1(h) + e2(h)))
    return gen_range(ctx, name, depth)


def uniq(l):
    return list(dict.fromkeys(l))


def gen_end(ctx, name, depth):
    k = ctx.choice(name, ["none", "single", "date"])
    if k == "none":
        return "", None, None
    if k == "single":
        t, a, ev = gen_single(ctx, name + ".s", min(depth - 1, 1))

        def date(h):
            u = ev(h)[0]
            return [r["ts"] for r in h.revs if r["uuid"] == u][0]

        return t, a, date
    d = ctx.dt(name + ".d", D0, D1)
    return d.isoformat(), None, lambda h: d


def gen_range(ctx, name, depth):
    t1, a1, e1 = gen_end(ctx, name + ".from", depth)
    t2, a2, e2 = gen_end(ctx, name + ".to", depth)

    def ev(h):
        if not h.revs:
            # no revision: nothing can be named, dates match nothing
            if e1 is None or e2 is None:
                raise Err
        x = e1(h) if e1 else h.revs[0]["ts"]
        y = e2(h) if e2 else h.revs[-1]["ts"]
        lo, hi = (x, y) if x <= y else (y, x)
        return [r["uuid"] for r in h.revs if lo <= r["ts"] and r["ts"] <= hi]

    return f"{t1}..{t2}", (a1 or "") + " " + (a2 or ""), ev


def spec(ctx, env):
    P = ctx.params
    n = P["revs"]
    if P["what"] == "multi":
        text, attrs, ev = gen_multi(ctx, "spec", P["depth"], P.get("ops"))
    elif P["what"] == "range":
        text, attrs, ev = gen_range(ctx, "spec", P["depth"])
    else:
        text, attrs, ev = gen_single(ctx, "spec", P["depth"])
    attrs = attrs or ""
    revs = []
    for i in range(n):
        ts = ctx.dt(f"t{i}", D0, D1)
        for r in revs:
            ctx.assume(ts != r["ts"])
        r = dict(
            uuid=f"u{i}", ts=ts,
            complete=ctx.flag(f"c{i}") if "complete" in attrs else True,
            server=ctx.choice(f"s{i}", ["", "s1", "s2"])
            if "server" in attrs else "",
            tags=ctx.choice(f"g{i}", [["a"], ["b"]])
            if "tags" in attrs else ["b"],
            trust=ctx.choice(f"r{i}", ["trusted", "verified", "distrusted"])
            if "trust" in attrs else "trusted",
        )
        revs.append(r)
        write_rev(env.tmp, r["uuid"], ts, r["tags"], trust=r["trust"],
                  server=r["server"], complete=r["complete"])
    repo = mk_repo(env.tmp)
    order = []
    for r in revs:  # insertion sort by timestamp
        k = 0
        while k < len(order) and order[k]["ts"] < r["ts"]:
            k += 1
        order.insert(k, r)
    h = H(ctx, order)
    try:
        want = ev(h)
    except Err:
        want = None
    got = None
    try:
        if P["what"] == "find":
            got = [repo.find(text).uuid]
        else:
            got = [r.uuid for r in repo.find_revisions(text)]
    except (KeyError, IndexError, AssertionError, ValueError):
        pass
    if want is None:
        ctx.cover("error")
        ctx.check(got is None, f"'{shape(text)}' names no revision: an error")
    else:
        ctx.cover("match")
        ctx.check(got == want, f"'{shape(text)}' selects the right revisions")
    ctx.check([r.uuid for r in repo.history] == [r["uuid"] for r in order],
              "looking up changes nothing")


def shape(text):
    import re

    text = re.sub(r"SYMDT:\d+", "DATE", text)
    return re.sub(r"\d{4}-\d\d-\d\dT[0-9:.]+(\+\d\d:\d\d)?", "DATE", text)


def nofind(ctx, env):
    """Specifiers for several revisions are refused where one is expected."""
    n = ctx.params["revs"]
    ts = increasing(ctx, n)
    for i in range(n):
        write_rev(env.tmp, f"u{i}", ts[i], ["a"])
    repo = mk_repo(env.tmp)
    s = ctx.choice("spec", ["all", "clean", "tag:a", "u0,u1", "", " ", "-1",
                            "u", "not(u0)", "server:", "foo(all)"])
    got = None
    try:
        got = repo.find(s)
    except KeyError:
        pass
    ctx.check(got is None, f"find '{s}' is an error")
    ctx.cover("error")


def scenarios(tier):
    FEW = ["tag:a", "remote"]
    unary = ["not", "reverse", "paren"]
    r = [
        Scenario(
            "atoms",
            spec,
            "2 revisions, every single form, alone, negated, reversed and in "
            "parentheses",
            dict(what="multi", depth=1, revs=2, ops=unary),
            ["match", "error"],
        ),
        Scenario(
            "binary",
            spec,
            "2 revisions, lists and intersections of two forms of "
            f"{FEW}, IDs, counts, last, unknown IDs, functions",
            dict(what="multi", depth=1, revs=2, ops=["and", "or"], few=FEW),
            ["match", "error"],
        ),
        Scenario(
            "range",
            spec,
            "3 revisions, ranges of dates and single specifiers",
            dict(what="range", depth=1, revs=3, few=["remote"]),
            ["match", "error"],
        ),
        Scenario(
            "find",
            spec,
            "2 revisions, single revision specifiers with nested functions",
            dict(what="find", depth=2, revs=2, few=["tag:a"],
                 ops=["not", "or"]),
            ["match", "error"],
        ),
        Scenario(
            "nested",
            spec,
            "2 revisions, two nested levels of not, list and intersection of "
            "IDs and tag filters",
            dict(what="multi", depth=2, revs=2, few=["tag:a"], ids=True,
                 ops=["not", "and", "or"]),
            ["match"],
        ),
        Scenario("no-single", nofind, "2 revisions", dict(revs=2), ["error"]),
        Scenario(
            "empty",
            spec,
            "no revision",
            dict(what="multi", depth=1, revs=0, few=FEW),
            ["match", "error"],
        ),
    ]
    if tier == "thorough":
        r += [
            Scenario(
                "depth1",
                spec,
                "2 revisions, every operator applied to every form",
                dict(what="multi", depth=1, revs=2,
                     ops=["not", "reverse", "paren", "and", "or"]),
                ["match", "error"],
            ),
            Scenario(
                "depth2",
                spec,
                "2 revisions, all operators two levels deep",
                dict(what="multi", depth=2, revs=2, few=FEW),
                ["match", "error"],
            ),
            Scenario(
                "range4",
                spec,
                "4 revisions, ranges",
                dict(what="range", depth=2, revs=4, few=FEW),
                ["match", "error"],
            ),
        ]
    return r
