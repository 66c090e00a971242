"""Operations on one repository as different processes perform them."""

import json as json_
import os
import subprocess
import threading

import aiohttp

from sx.points import Points, WouldBlock
from sx.scenario import Scenario

from .c36 import Native, blobs, text
from .daemonutil import *
from .rbdutil import *

CONF = {"daily": {"interval": "1d", "keep": 1}}

ASSUMPTIONS = RBD_ASSUMPTIONS + [
    "processes are represented by separate repository objects in one process, "
    "which exclude each other by flock on separate open files",
    "peers are stand-ins that answer requests",
    "contents are small fixed examples",
]

SMALL = {
    "u0": text("zero", 3000),
    "u1": text("one", 5000),
    "u2": text("two", 4000),
    "head": text("head", 6000),
}

CHANGERS = [
    "backup", "tags", "rm", "expire", "distrust", "clean", "push", "pull",
]
COLLECTORS = ["gc", "verify"]
READERS = ["restore", "stdout"]
ALL = CHANGERS + COLLECTORS + READERS


def conflicting(a, b):
    """Must these operations exclude each other?"""
    if a in CHANGERS and b in CHANGERS:
        return True
    users = ["backup"] + COLLECTORS + READERS
    return (a in COLLECTORS and b in users) or (
        b in COLLECTORS and a in users
    )


class World:
    """A repository with complete, distrusted, incomplete and remote
    revisions."""

    def __init__(self, ctx, env, name="w"):
        self.ctx, self.env = ctx, env
        self.native = Native(env)
        env.set_now(D0 + dt.timedelta(20))
        self.base = env.tmp / name
        self.base.mkdir()
        self.path = self.base / "b"
        self.path.mkdir()
        self.out = env.tmp / (name + "-out")
        self.out.mkdir()
        self.points = None
        self.before = lambda: None  # the daemon prepares the second backup
        self.ceph = Ceph(self.native, head=SMALL["head"])
        self.ceph.on = lambda kind, arg: self.tell("ceph", kind)
        repo = self.repo()
        mk_source(repo)
        for i, u in enumerate(["u0", "u1", "u2"]):
            write_rev(
                self.path, u, D0 + i * dt.timedelta(1),
                ["daily", "manual:keep"] if u == "u1" else ["daily"],
            )
            write_image(self.native, repo, u, SMALL[u])
        write_rev(self.path, "inc", D0 + dt.timedelta(4), ["daily"],
                  complete=False)
        write_image(self.native, repo, "inc", b"")
        for r in ("r0", "r1"):
            write_rev(self.path, r, D0 + dt.timedelta(5), ["daily"],
                      server="s1", orig_tags=["daily"] if r == "r1" else [])
        # a chunk nobody uses
        junk = self.path / "chunks/ab/abcdef.chunk.lzo"
        junk.write_bytes(b"junk")
        self.ceph.snaps.append(Snap("backy-u2", SMALL["u2"]))
        self.peers()

    def tell(self, *what):
        if self.points:
            self.points.tell(*what)

    def repo(self):
        return mk_repo(self.path, CONF)

    def peers(self):
        def record(u, tags):
            return {
                "uuid": u,
                "timestamp": (D0 + dt.timedelta(5)).isoformat(),
                "parent": "", "stats": {"duration": 1.5}, "trust": "trusted",
                "tags": tags, "orig_tags": [], "server": "",
            }

        async def handle(method, path, params, json, headers):
            self.tell("api", method)
            if method == "GET" and path.endswith("/revs"):
                return 200, [record("r1", ["daily", "x"]),
                             record("r2", ["daily"])]
            return 200, {}

        Peers(self.env, {"http://s1": handle})

    # -- the operations: prepare(name) -> callable -----------------------------
    def job(self, repo=None):
        d = mk_daemon(self.env, peers=peer_conf(["s1"]), base=self.base)
        job = add_job(self.env, d, "b", CONF)
        if repo is not None:
            job.source.repository = repo
        job.repository.scan()
        return job

    def prepare(self, op, who, repo=None, first=True):
        """As a process does before it takes locks."""
        if op in ("push", "pull"):
            job = self.job(repo)
            return {"push": job.push_metadata,
                    "pull": job.pull_metadata}[op], job.repository
        repo = repo or self.repo()
        repo.scan()
        src = mk_source(repo)
        if op == "backup":
            uuid = "new-" + who

            def materialize():
                new_rev(repo, uuid, D0 + dt.timedelta(9),
                        ["daily", "manual:n"])

            if first:
                materialize()
            else:
                self.before = materialize
            return lambda: src.backup(repo.find_by_uuid(uuid)), repo
        if op == "verify":
            r = repo.find_by_uuid("u1")
            return lambda: src.verify(r), repo
        if op == "gc":
            return src.gc, repo
        if op in ("restore", "stdout"):
            import backy.rbd

            args = backy.rbd.RBDRestoreArgs(
                str(self.out / f"restored-{who}") if op == "restore" else "-",
                backy.rbd.RestoreBackend.PYTHON,
            )
            r = repo.find_by_uuid("u1")
            if op == "restore":
                return lambda: src.restore(r, args), repo

            def f():
                null = os.open(os.devnull, os.O_WRONLY)
                old = os.dup(1)
                os.dup2(null, 1)
                try:
                    src.restore(r, args)
                finally:
                    os.dup2(old, 1)
                    os.close(old)
                    os.close(null)

            return f, repo
        if op == "tags":
            return lambda: repo.tags("add", "all", {"manual:" + who}), repo
        if op == "rm":
            return lambda: repo.rm(repo.find_revisions("u0,r1")), repo
        if op == "expire":
            return repo.expire, repo
        if op == "distrust":
            return lambda: repo.distrust(repo.find_revisions("local")), repo
        assert op == "clean"
        return repo._clean, repo


def reads(rel):
    """Reads that are part of collecting or restoring."""
    return rel.endswith(".chunk.lzo") or "/" not in rel and (
        rel.endswith(".rev") or "." not in rel and rel != "config"
    )


def effects(op, events):
    """Indices of the steps that belong to the operation."""
    kinds = ["write", "ceph", "api"]
    r = []
    for i, e in enumerate(events):
        if e[0] in kinds:
            r.append(i)
        elif e[0] == "read" and (
            op in COLLECTORS
            or op in READERS and e[1].endswith(".chunk.lzo")
        ):
            r.append(i)
    return r


def call(f):
    """Run it like a process of its own -> ("ok", value) | ("refused", exc) |
    ("waits", None) | ("failed", exc)"""
    import asyncio

    try:
        r = f()
        if asyncio.iscoroutine(r):
            r = run(r)
        return "ok", r
    except BlockingIOError as e:
        return "refused", e
    except WouldBlock:
        return "waits", None
    except RuntimeError as e:
        return ("refused" if "re-entrant" in str(e) else "failed"), e
    except Exception as e:
        return "failed", e


def aside(f):
    """call() in a thread, as event loops do not nest."""
    res = []

    def g():
        try:
            res.append(call(f))
        except BaseException as e:
            res.append(("died", e))

    t = threading.Thread(target=g)
    t.start()
    t.join()
    return res[0]


def tree(path):
    """All files below path but the lock files: name -> content"""
    r = {}
    for d, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, path)
            if rel in (".backup", ".purge"):
                continue
            if os.path.islink(p):
                r[rel] = os.readlink(p)
            else:
                with open(p, "rb") as fh:
                    r[rel] = fh.read()
    return r
