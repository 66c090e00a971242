"""C33: snapshots through Consul."""

import json
import subprocess

from sx.scenario import Scenario

from .common import *
from .rbdutil import *
from .c08 import is_

ASSUMPTIONS = RBD_ASSUMPTIONS + [
    "Consul's key value store is a stand-in: a dictionary whose items may "
    "vanish at any time; snapshot requests are JSON objects with the keys vm "
    "and snapshot or unreadable",
]


class Consul:
    """consulate.Consul"""

    def __init__(self, env, items):
        import consulate

        self.items = dict(items)
        self.log = []
        self.vanish = None
        self.on_set = None
        c = self

        class KV:
            def __setitem__(self, k, v):
                c.log.append(("set", k))
                c.items[k] = v if isinstance(v, str) else J(env, v)
                if c.on_set:
                    c.on_set(k, v)

            set = __setitem__

            def __getitem__(self, k):
                if k == c.vanish:
                    c.items.pop(k, None)
                if k not in c.items:
                    raise KeyError(k)
                return c.items[k]

            def get(self, k, default=None):
                try:
                    return self[k]
                except KeyError:
                    return default

            def __delitem__(self, k):
                c.log.append(("del", k))
                c.items.pop(k, None)

            delete = __delitem__

            def find(self, prefix, separator=None):
                return {
                    k: v for k, v in c.items.items() if k.startswith(prefix)
                }

            def __contains__(self, k):
                return k in c.items

        class API:
            def __init__(self, *a, token=None, **kw):
                c.token = token
                self.kv = KV()

        env.p.setattr(consulate, "Consul", API)
        env.p.replace(consulate.Consul, API)


def J(env, d):
    from sx.symbytes import json_shim

    return (json_shim() if env.ctx.symbolic else json).dumps(d)


def request(ctx, env):
    env.chunks()  # json
    P = ctx.params
    repo = mk_repo(env.tmp / "repo")
    ceph = Ceph(env)
    foreign = Snap("foreign", b"")
    ceph.snaps.append(foreign)
    # requests of others that are around
    others = {}
    meta = {}
    for i in range(P["others"]):
        k = f"snapshot/o{i}"
        kind = ctx.choice(f"kind{i}", P["kinds"])
        if kind == "garbage":
            others[k] = ctx.choice(f"g{i}", ["", "{", "gar bage"])
            meta[k] = ("garbage", None, None)
        elif kind == "vanish":
            others[k] = J(env, {"vm": "vm0", "snapshot": "backy-x"})
            meta[k] = ("vanish", None, None)
        else:
            vm = ctx.str(f"vm{i}", 4)
            sn = ctx.str(f"snap{i}", 8)
            others[k] = J(env, {"vm": vm, "snapshot": sn})
            meta[k] = ("req", vm, sn)
    others["config/x"] = J(env, {"vm": "vm0", "snapshot": "backy-x"})
    consul = Consul(env, others)
    for k, m in meta.items():
        if m[0] == "vanish":
            consul.vanish = k
    vm = ctx.lit("vm0")
    # time passes only by sleeping
    now = [0]

    def sleep(s):
        now[0] = now[0] + s

    import time

    env.p.setattr(time, "sleep", sleep)
    env.set_time(lambda: now[0])
    appears = ctx.int("appears", 0, 150)  # when the VM host made it
    never = ctx.flag("never")
    fail = ctx.choice("fail", P["fail"])
    done = []
    nls = [0]

    def fault(kind, arg):
        if kind == "ls":
            nls[0] += 1
            if fail == "ls" and nls[0] == 1:
                return subprocess.CalledProcessError(1, "rbd")
            if not never and not done and now[0] >= appears:
                done.append(True)
                ceph.snaps.append(Snap("backy-new", b""))
        if kind == "create" and fail == "create":
            return subprocess.CalledProcessError(1, "rbd")
        return None

    ceph.fault = fault
    src = mk_source(repo, vm=vm, consul_acl_token="token")
    import backy.revision

    r = backy.revision.Revision.create(repo, set(), LOG, uuid="new")
    rbd = src.ceph_rbd(r)
    ok = True
    try:
        rbd.__enter__()
    except subprocess.CalledProcessError:
        ok = False
    created = [c for c in ceph.calls if c[0] == "create"]
    asked = [e for e in consul.log if e[0] == "set"]
    ctx.check(
        len(asked) == 1 and asked[0][1].startswith("snapshot/"),
        "one snapshot request is made",
    )
    ctx.check(asked[0][1] not in consul.items, "the own request is removed")
    limit = rbd.snapshot_timeout
    if ok:
        ctx.check(
            sum(n == "backy-new" for n in ceph.names()) == 1,
            "the snapshot exists afterwards",
        )
        if done and not created:
            ctx.cover("by-host")
            ctx.check(
                now[0] <= max3(ctx, appears) + 2,
                "it goes on as soon as the snapshot exists",
            )
        else:
            ctx.cover("direct")
            ctx.check(now[0] >= limit, "not created directly before the limit")
            ctx.check(now[0] <= limit + 10, "created directly after the limit")
    else:
        ctx.cover("failed")
        ctx.check(fail != "no", "only a failing step makes it fail")
    for k, (kind, v, s) in meta.items():
        here = k in consul.items
        if kind == "garbage":
            ctx.check(not here, "unreadable requests are removed")
        elif kind == "vanish":
            pass
        else:
            if ctx.symbolic:
                import z3

                mine = z3.And(
                    v.e == "vm0", z3.PrefixOf(z3.StringVal("backy-"), s.e)
                )
            else:
                mine = v == "vm0" and s.startswith("backy-")
            ctx.check(
                iff(ctx, here, neg(ctx, mine)),
                "backy requests of this VM are removed, others kept",
            )
    ctx.check("config/x" in consul.items, "other keys are left alone")


def max3(ctx, x):
    if ctx.symbolic:
        from sx.env import sym_max

        return sym_max(x, 3)
    return max(x, 3)


def plain(ctx, env):
    """Without VM or token no request is made."""
    repo = mk_repo(env.tmp / "repo")
    ceph = Ceph(env)
    consul = Consul(env, {"snapshot/x": "garbage"})
    conf = {}
    which = ctx.choice("conf", ["none", "vm", "token", "empty"])
    if which == "vm":
        conf = {"vm": "vm0"}
    elif which == "token":
        conf = {"consul_acl_token": "x"}
    elif which == "empty":
        conf = {"vm": "", "consul_acl_token": ""}
    src = mk_source(repo, **conf)
    import backy.revision

    u = ctx.choice("uuid", ["new", "x-1"])
    r = backy.revision.Revision.create(repo, set(), LOG, uuid=u)
    src.ceph_rbd(r).__enter__()
    ctx.check(ceph.names() == [f"backy-{u}"], "created directly")
    ctx.check(not consul.log, "Consul is not used")
    ctx.cover("end")


def scenarios(tier):
    allk = ["req", "garbage", "vanish"]
    r = [
        Scenario(
            "request",
            request,
            "one other request of any VM and snapshot name, unreadable or "
            "vanishing; the snapshot appears after 0..150 s or never; failing "
            "rbd commands",
            dict(others=1, kinds=allk, fail=["no", "ls", "create"]),
            ["by-host", "direct", "failed"],
        ),
        Scenario(
            "two-others",
            request,
            "two other requests of any kind in any order",
            dict(others=2, kinds=allk, fail=["no"]),
            ["by-host", "direct"],
        ),
        Scenario("no-consul", plain, "no VM or no token", {}, ["end"]),
    ]
    if tier == "thorough":
        r.append(
            Scenario(
                "three-others",
                request,
                "three other requests of any kind in any order",
                dict(others=3, kinds=allk, fail=["no"]),
                ["by-host", "direct"],
            ),
        )
    return r
