"""C50: any history of commands keeps the listed backups restorable."""

import subprocess

from sx.scenario import Scenario
from sx.symbytes import blob_eq, rope, zeroes

from .c39 import call, mk_config, ok_
from .chunkutil import *
from .common import *
from .rbdutil import *

ASSUMPTIONS = RBD_ASSUMPTIONS + chunk_assumptions + [
    "the subcommand backy-rbd runs in the same process, with its own "
    "objects, as the command line asks for it",
    "damage hits one stored chunk at a time",
]


class Life:
    """One job, driven by the command line only."""

    def __init__(self, ctx, env):
        import backy.cli
        import backy.rbd

        self.ctx, self.env = ctx, env
        P = self.P = ctx.params
        self.path = env.tmp / "job"
        mk_config(self.path, {"type": "rbd", "pool": "p", "image": "i"})
        f = self.path / "config"
        f.write_text(f.read_text().replace("keep: 3", "keep: 1"))
        self.head = ctx.blob("base", P["size"])
        self.ceph = Ceph(env, self.head)
        self.ceph.diff = self.diff
        self.last = None  # snapshot content, change since
        self.cut = False
        self.day = 0
        self.n = 0
        self.want = {}  # complete revisions -> content
        self.suspect = set()
        self.damaged = False
        inner = subprocess.run

        def run_(args, *a, **kw):
            if not str(args[0]).startswith("backy-"):
                return inner(args, *a, **kw)
            args = [str(x) for x in args]
            ctx.check(args[0] == "backy-rbd", "the command of the source")
            code = call(
                env, lambda: backy.rbd.RBDSource.main(*args)
            )
            return subprocess.CompletedProcess(args, code)

        env.p.setattr(subprocess, "run", run_)
        self.main = backy.cli.main
        self.tick()

    def tick(self):
        self.day += 1
        self.env.set_now(D0 + dt.timedelta(self.day))

    def cmd(self, *args):
        return call(self.env, self.main, "-C", self.path, *args)

    def bad(self):
        """Is there a damaged chunk, used or not?"""
        for h, f in store_files(self.env, self.path / "chunks").items():
            c = stored(self.ctx, f)
            if c is None or hash_of(c) != h:
                return True
        return False

    def revs(self):
        return read_revs(self.path)

    def order(self):
        r = self.revs()
        return sorted(self.want, key=lambda u: r[u]["timestamp"])

    # -- the image -----------------------------------------------------------
    def change(self, kind):
        ctx, P = self.ctx, self.P
        self.n += 1
        h = self.head
        size = size_of(ctx, h)
        if kind == "same":
            self.edit = []
            return
        if kind == "shrink":
            n = min(size, P["shrink"])
            self.head = h[:n]
            self.edit = []
            return
        if kind == "grow":
            d = ctx.blob(f"grow{self.n}", 300)
            gap = max(0, P["grow"] - size)
            self.head = h + zeroes(ctx, gap) + d
            self.edit = [("z", size, gap)] if gap else []
            self.edit.append(("w", size + gap, d))
            return
        if kind == "zero":
            # a whole chunk
            pos, d = 0, zeroes(ctx, min(size, CS))
            self.edit = [("z", pos, size_of(ctx, d))]
        elif kind == "copy":
            pos = min(size, CS)
            d = h[:min(size, CS)]
            self.edit = [("w", pos, d)]
        else:
            pos = min(size, {"start": 10, "middle": CS - 100}[kind])
            d = ctx.blob(f"new{self.n}", 9000)
            self.edit = [("w", pos, d)]
        self.head = h[:pos] + d + h[pos + size_of(ctx, d):]

    def diff(self, ceph, o, n):
        ctx = self.ctx
        if o.content is not self.last:
            s = full_diff(ceph, o, n)
        else:
            s = HEADER + record(ctx, "f", o.name) + record(ctx, "t", n.name)
            s = s + record(ctx, "s", size_of(ctx, n.content))
            for e in self.edit:
                s = s + record(ctx, *e)
            s = s + record(ctx, "e")
            ctx.cover("differential")
        if self.cut:
            s = s[: size_of(ctx, s) - 1]
        return s

    # -- operations ------------------------------------------------------------
    def backup(self, kind):
        ctx = self.ctx
        self.cut = kind == "cut"
        self.ceph.export = (
            (lambda c: c[: size_of(ctx, c) - 1]) if self.cut else None
        )
        self.change("start" if self.cut else kind)
        self.ceph.head = self.head
        before = self.revs()
        # Chunks that exist are taken for intact unless something is
        # distrusted.
        safe = not self.suspect and not self.bad() or (
            any(before[u]["trust"] == "distrusted" for u in self.want)
            and all(before[u]["trust"] == "distrusted" for u in self.suspect)
        )
        code = self.cmd("backup", "daily")
        new = set(self.revs()) - set(before)
        ctx.check(
            ok_(code) == (len(new) == 1), "a backup succeeds or leaves nothing"
        )
        if not self.damaged and not self.cut:
            ctx.check(ok_(code), "the backup works")
        for u in new:
            self.want[u] = self.head
            if not safe:
                self.suspect.add(u)
            ctx.check(
                [s.name for s in self.ceph.snaps] == ["backy-" + u],
                "only the snapshot of the last backup is kept",
            )
            ctx.cover("backup")
        if new:
            self.last = self.head
        else:
            # the next difference is taken from an older snapshot
            self.last = None
            ctx.cover("failed")
        self.after_verify(before)

    def after_verify(self, before):
        """Revisions may have been verified or removed."""
        ctx = self.ctx
        now = self.revs()
        for u in list(self.want):
            if u not in now:
                ctx.check(
                    u in self.suspect, "no intact revision is removed"
                )
                self.want.pop(u)
                self.suspect.discard(u)
                ctx.cover("removed")
        fresh = [
            u for u in self.want
            if now[u]["trust"] == "verified"
            and (u not in before or before[u]["trust"] != "verified")
        ]
        old = [
            u for u in self.want
            if u in before and before[u]["trust"] == "verified"
            and u in self.suspect
        ]
        if not old:
            self.suspect -= set(fresh)
        if fresh:
            ctx.cover("verified")

    def op(self, i):
        ctx = self.ctx
        self.tick()
        what = ctx.choice(f"op{i}", self.P["ops"])
        kind, _, arg = what.partition(":")
        before = self.revs()
        if kind == "backup":
            return self.backup(arg)
        if kind == "rm":
            ctx.assume(bool(self.want))
            u = self.order()[{"first": 0, "last": -1}[arg]]
            ctx.check(ok_(self.cmd("rm", "-r", u)), "removing works")
            self.want.pop(u)
            self.suspect.discard(u)
        elif kind == "gc":
            code = self.cmd("gc", *(["--expire", "--local"] if arg else []))
            ctx.check(ok_(code) or self.damaged, "collecting works")
            if arg:
                now = self.revs()
                gone = set(self.want) - set(now)
                left = self.order() if not gone else [
                    u for u in self.want if u in now
                ]
                ctx.check(
                    len(left) >= min(1, len(self.want)),
                    "the last revision does not expire",
                )
                for u in gone:
                    ctx.check(
                        all(
                            before[u]["timestamp"] < now[v]["timestamp"]
                            for v in left
                        ),
                        "only the oldest ones expire",
                    )
                    self.want.pop(u)
                    self.suspect.discard(u)
                    ctx.cover("expired")
        elif kind == "distrust":
            ctx.check(ok_(self.cmd("distrust")), "distrusting works")
        elif kind == "verify":
            self.cmd("verify")
            self.after_verify(before)
        elif kind == "tags":
            ctx.check(
                ok_(self.cmd("tags", "set", "-r", "all", "manual:x")),
                "tagging works",
            )
        elif kind == "damage":
            files = sorted(store_files(self.env, self.path / "chunks").items())
            ctx.assume(bool(files))
            h, f = files[-1 if len(files) == 1 else
                         ctx.choice(f"chunk{i}", [0, -1])]
            damage(ctx, f, arg, ctx.blob("other", CS))
            self.suspect = set(self.want)
            self.damaged = True
            ctx.cover("damage")
        now = self.revs()
        ctx.check(
            set(now) == set(self.want), "exactly the expected revisions exist"
        )

    def finish(self):
        ctx = self.ctx
        target = self.env.dev / "target"
        for u, d in sorted(self.want.items()):
            self.env.put(target, b"junk")
            code = self.cmd(
                "restore", "-r", u, "rbd", "--backend", "python", target
            )
            if not ok_(code):
                ctx.check(
                    u in self.suspect,
                    "only damaged revisions can not be restored",
                )
                ctx.cover("unrestorable")
                continue
            ctx.check(
                blob_eq(ctx, self.env.get(target), d),
                "a restored backup is exact",
            )
        files = store_files(self.env, self.path / "chunks")
        used = set()
        for u in self.want:
            used |= set(mapping(self.path / u).values())
        if not self.damaged:
            ctx.check(used <= set(files), "all chunks are stored")
        ctx.check(ok_(self.cmd("gc")), "collecting works in the end")
        left = set(store_files(self.env, self.path / "chunks"))
        ctx.check(left <= used, "nothing else is left")
        ctx.cover("end")


def history(ctx, env):
    env.chunks()
    env.p.setattr(os, "sync", lambda: None)
    w = Life(ctx, env)
    for k in ctx.params["start"]:
        w.tick()
        w.backup(k)
    for i in range(ctx.params["steps"]):
        w.op(i)
    w.finish()


def scenarios(tier):
    big = tier == "thorough"
    P = dict(size=CS + 70000, shrink=50000, grow=2 * CS + 100)
    backups = ["same", "start", "middle", "shrink", "grow", "zero", "copy",
               "cut"]
    other = ["rm:first", "rm:last", "gc:", "gc:expire", "distrust",
             "verify", "tags", "damage:missing", "damage:other"]
    few = ["backup:start", "backup:grow", "backup:cut", "rm:first", "rm:last",
           "gc:expire", "distrust", "verify", "damage:other"]
    want = ["backup", "failed", "differential", "end", "expired", "damage",
            "verified"]
    return [
        Scenario(
            "history", history,
            "4 commands after a first backup, of 9 kinds" if big else
            "3 commands after a first backup, of 9 kinds",
            dict(P, start=["same"], steps=4 if big else 3, ops=few),
            want + ["removed", "unrestorable"],
        ),
        Scenario(
            "kinds", history,
            "3 commands after two backups, of 17 kinds" if big else
            "2 commands after a backup, of 17 kinds",
            dict(P, start=["same", "copy"] if big else ["copy"],
                 steps=3 if big else 2,
                 ops=[f"backup:{b}" for b in backups] + other),
            want,
        ),
    ]
