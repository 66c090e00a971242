"""Shared pieces of the harnesses (independent of backy's own code paths:
repositories are seeded by writing metadata files directly)."""

import datetime as dt
import os

import yaml

from sx.env import LOG

UTC = dt.timezone.utc
D0 = dt.datetime(2020, 1, 1, tzinfo=UTC)
D1 = dt.datetime(2030, 1, 1, tzinfo=UTC)


# What may be recorded of a revision without being relevant.
ATTRIBUTES = {
    "": {},
    "untagged": {"tags": []},
    "manual": {"tags": ["manual:x"]},
    "many": {"tags": ["a", "b", "manual:x", "zz"], "orig_tags": ["q"]},
    "stats": {"stats": {"chunk_stats": {"write_full": 3},
                        "ceph-verification": "partial"}},
    "slow": {"stats": {"duration": 100000.5}},
    "instant": {"stats": {"duration": 0.0}},
    "verified": {"trust": "verified"},
}
_plain = {}


def attributes(ctx, env):
    """From now on revisions are written with other attributes (where they
    are the plain ones), if the scenario asks for it."""
    import sys

    v = ctx.choice("attributes", ctx.params.get("attrs", [""]))
    if v:
        ctx.cover("attributes")
        env.p.setattr(sys.modules[__name__], "_plain", ATTRIBUTES[v])


def write_rev(path, uuid, timestamp, tags=(), orig_tags=(), trust="trusted",
              server="", complete=True, duration=1.5, stats=None):
    s = {"bytes_written": 0}
    if complete:
        s["duration"] = duration
    if stats is not None:
        s = stats
    if _plain and list(tags) == ["a"]:
        tags = _plain.get("tags", tags)
        orig_tags = orig_tags or _plain.get("orig_tags", ())
        for k, v in _plain.get("stats", {}).items():
            if k != "duration" or complete:
                s[k] = v
        if trust == "trusted":
            trust = _plain.get("trust", trust)
    with open(os.path.join(path, uuid + ".rev"), "w", encoding="utf-8") as f:
        yaml.safe_dump(
            {
                "uuid": uuid,
                "timestamp": timestamp,
                "parent": "",
                "stats": s,
                "trust": trust,
                "tags": sorted(tags),
                "orig_tags": sorted(orig_tags),
                "server": server,
            },
            f,
        )


def read_revs(path):
    """What is recorded on disk: uuid -> metadata."""
    res = {}
    for n in sorted(os.listdir(path)):
        p = os.path.join(path, n)
        if n.endswith(".rev") and not os.path.islink(p):
            with open(p, encoding="utf-8") as f:
                d = yaml.safe_load(f)
            d["_file"] = n
            res[d["uuid"]] = d
    return res


def plain(d, **kw):
    """Recorded metadata for comparison: tags are sets, "parent" is only
    written for older versions."""
    return dict(
        d, tags=sorted(d.get("tags", ())),
        orig_tags=sorted(d.get("orig_tags", ())), parent="", **kw
    )


def mk_schedule(conf):
    import backy.schedule

    s = backy.schedule.Schedule()
    s.configure(conf)
    return s


def mk_repo(path, conf=None, connect=True):
    import backy.repository

    r = backy.repository.Repository(
        path, mk_schedule(conf if conf is not None else {}), LOG
    )
    if connect:
        r.connect()
    return r


def increasing(ctx, n, name="t", lo=D0, hi=D1):
    """n strictly increasing timestamps."""
    ts = []
    for i in range(n):
        t = ctx.dt(f"{name}{i}", lo, hi)
        if ts:
            ctx.assume(t > ts[-1])
        ts.append(t)
    return ts


def both(a, b):
    """logical and without forking"""
    return a & b if hasattr(a, "_sym") or hasattr(b, "_sym") else (a and b)


def implies(ctx, a, b):
    if ctx.symbolic:
        import z3

        from sx.proxies import SymBool, zbool

        return SymBool(ctx, z3.Implies(zbool(a), zbool(b)))
    return (not a) or bool(b)


def iff(ctx, a, b):
    if ctx.symbolic:
        from sx.proxies import SymBool, zbool

        return SymBool(ctx, zbool(a) == zbool(b))
    return bool(a) == bool(b)


def conj(ctx, *cs):
    if ctx.symbolic:
        import z3

        from sx.proxies import SymBool, zbool

        return SymBool(ctx, z3.And(*[zbool(c) for c in cs]))
    return all(bool(c) for c in cs)


def disj(ctx, *cs):
    if ctx.symbolic:
        import z3

        from sx.proxies import SymBool, zbool

        return SymBool(ctx, z3.Or(*[zbool(c) for c in cs]))
    return any(bool(c) for c in cs)


def neg(ctx, c):
    if ctx.symbolic:
        import z3

        from sx.proxies import SymBool, zbool

        return SymBool(ctx, z3.Not(zbool(c)))
    return not c


def hours(n):
    return dt.timedelta(hours=n)
