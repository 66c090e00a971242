"""C45: mapped RBD devices."""

import subprocess

from sx.scenario import Scenario
from sx.symbytes import blob_eq

from .c06 import recorded
from .common import *
from .chunkutil import CS, chunk_assumptions
from .rbdutil import *

ASSUMPTIONS = RBD_ASSUMPTIONS + chunk_assumptions + [
    "rbd showmapped reports a list (Nautilus) or a mapping of numbers to "
    "entries (before)",
]

VERSIONS = {
    "nautilus": "ceph version 14.2.22 (ca74598065096e6fcbd8) nautilus (stable)",
    "luminous": "ceph version 12.2.13 (584a20eb0237c657dc0) luminous (stable)",
    "jewel": "ceph version Development (no_version)",
}


class Host(Ceph):
    """A host where other images are mapped, too."""

    others = ()
    release = "nautilus"
    fail_at = None

    def entries(self):
        r = [
            {"id": str(i), "pool": p, "namespace": "", "name": n,
             "snap": s, "device": d}
            for i, (p, n, s, d) in enumerate(self.others)
        ]
        for d, s in self.mapped.items():
            e = {"id": str(len(r)), "pool": self.pool, "namespace": "",
                 "name": self.img, "snap": s, "device": d}
            # devices get the lowest free number
            r.insert(self.place, e)
        return r

    def command(self, cmd):
        args = [c for c in cmd[1:] if c != "--format=json"]
        if args[:1] == ["--version"]:
            return VERSIONS[self.release]
        if args[:1] == ["showmapped"]:
            self.note("showmapped")
            e = self.entries()
            if self.release == "nautilus":
                return e
            for x in e:
                del x["namespace"]
            return {x.pop("id"): x for x in e}
        if args[:1] == ["map"]:
            self.ctx.check("--read-only" in args, "snapshots are mapped "
                           "read-only")
            self.ctx.check(
                not any(not a for a in args), "no empty arguments"
            )
        if args[:1] == ["unmap"]:
            self.note("unmap", args[1])
            self.ctx.check(args[1] in self.mapped, "only own devices are "
                           "unmapped")
            self.mapped.pop(args[1], None)
            return ""
        return super().command(cmd)


def host(ctx, env, head):
    P = ctx.params
    h = Host(env, head=head)
    h.release = ctx.choice("release", P["releases"])
    cands = [
        ("q", "i", "backy-new"), ("p", "j", "backy-new"),
        ("p", "i", "backy-base"), ("p", "i", "-"),
        ("p", "i", "backy-new2"), ("p", "ii", "backy-new"),
    ]
    others = []
    for k in range(P["others"]):
        c = ctx.choice(f"other{k}", cands)
        d = str(env.dev / f"other{k}")
        env.put(d, ctx.blob(f"other{k}", 50))
        others.append(c + (d,))
    h.others = others
    h.place = ctx.pick("place", P["others"] + 1)
    return h


def backup(ctx, env):
    env.chunks()
    P = ctx.params
    base = ctx.flag("base")
    head = ctx.blob("head", ctx.int("n", 1, P["size"]))
    h = host(ctx, env, head)
    path = env.tmp / "repo"
    path.mkdir()
    repo = mk_repo(path)
    if base:
        b = ctx.blob("base", 80)
        write_rev(path, "base", D0, ["a"])
        write_image(env, repo, "base", b)
        h.snaps.append(Snap("backy-base", b))
    repo.scan()
    rev = new_rev(repo, "new", D0 + hours(2))
    src = mk_source(repo)
    fault = ctx.choice("fault", P["faults"])
    n = [0]
    at = ctx.pick("at", 12) if fault == "command" else None
    failed = []

    def step(kind, arg):
        n[0] += 1
        if fault == "command" and n[0] == at + 1:
            failed.append(kind)
            return subprocess.CalledProcessError(1, "rbd")
        if kind == fault:
            failed.append(kind)
            return subprocess.CalledProcessError(1, "rbd")

    h.fault = step
    if fault == "nodevice":
        # udev did not create the device (yet)
        def on(kind, arg):
            if kind == "showmapped":
                for d in h.mapped:
                    env.drop(d)

        h.on = on
    elif fault == "different":
        h.device = lambda c: ctx.blob("dev", 70)
    try:
        res = bool(src.backup(rev))
    except Exception as e:
        res = e
    state = recorded(path, "new")
    if fault == "none":
        ctx.check(res is True, "the backup works")
        ctx.check(state == "complete", "the backup is complete")
        ctx.check(
            blob_eq(ctx, read_image(env, repo, "new"), head),
            "it has the content of its own snapshot",
        )
        ctx.cover("complete")
    if res is not True:
        ctx.check(state != "complete", "a failed backup is not complete")
        ctx.cover("failed")
    if not {"showmapped", "unmap"} & set(failed):
        ctx.check(not h.mapped, "no device is left behind")
    reads = [c for c in h.calls if c[0] == "map"]
    for c in reads:
        ctx.check(str(c[1]) == "p/i@backy-new", "its own snapshot is mapped")
        ctx.cover("mapped")


def reader(ctx, env):
    """A device is released however the reading ends."""
    import backy.rbd.rbd

    P = ctx.params
    head = ctx.blob("head", ctx.int("n", 0, P["size"]))
    h = host(ctx, env, b"")
    h.snaps.append(Snap("backy-new", head))
    how = ctx.choice("how", ["normal", "error", "interrupt", "nodevice"])
    if how == "nodevice":
        h.on = lambda kind, arg: [
            env.drop(d) for d in h.mapped
        ] if kind == "showmapped" else None
    c = backy.rbd.rbd.RBDClient(LOG)
    got = None
    try:
        with c.image_reader("p/i@backy-new") as f:
            ctx.check(len(h.mapped) == 1, "mapped once")
            got = f.read()
            if how == "error":
                raise ValueError("x")
            if how == "interrupt":
                raise KeyboardInterrupt()
    except (Exception, KeyboardInterrupt) as e:
        ctx.check(
            {"error": ValueError, "interrupt": KeyboardInterrupt,
             "nodevice": FileNotFoundError}.get(how) is type(e),
            "errors are passed on",
        )
        ctx.cover("error")
    else:
        ctx.check(how == "normal", "errors are not hidden")
    if how != "nodevice":
        ctx.check(blob_eq(ctx, got, head), "reads the right device")
        ctx.cover("read")
    ctx.check(not h.mapped, "no device is left behind")


def scenarios(tier):
    big = tier == "thorough"
    return [
        Scenario(
            "backup", backup,
            "a backup with or without a base on a host with two other "
            "mapped images; a command or opening the device fails, or its content differs",
            dict(size=60, others=2 if big else 1,
                 releases=list(VERSIONS),
                 faults=["none", "command", "nodevice", "different"]),
            covers=["complete", "failed", "mapped"],
        ),
        Scenario(
            "reader", reader,
            "reading a mapped snapshot of any content; three other mapped "
            "images; it ends normally or by an error",
            dict(size=60, others=3 if big else 2, releases=list(VERSIONS)),
            covers=["read", "error"],
        ),
    ]
