"""A stand-in for Ceph at the level of the `rbd` command."""

import io
import json
import subprocess

from sx.env import LOG
from sx.proxies import SymInt, SymStr, unplace
from sx.symbytes import SymFile, field, json_shim, rope, zeroes

from .common import *

RBD_ASSUMPTIONS = [
    "the rbd command is a stand-in that keeps snapshots of one image and "
    "answers info, snap create/ls/rm, map/showmapped/unmap, export and "
    "export-diff as documented by Ceph",
]


class Snap:
    def __init__(self, name, content):
        self.name = name
        self.content = content


class Ceph:
    def __init__(self, env, head=b"", pool="p", image="i"):
        self.env = env
        self.ctx = env.ctx
        self.image = f"{pool}/{image}"
        self.pool, self.img = pool, image
        self.head = head
        self.snaps = []
        self.calls = []
        self.mapped = {}
        self.fault = None  # fn(kind, arg) -> exception | None
        self.diff = None  # fn(ceph, from, to) -> stream content
        self.export = None  # fn(content) -> stream content
        self.device = None  # fn(content) -> content of the mapped device
        self.on = None  # fn(kind, arg): observer
        self.rc = 0
        self.n = 0
        ceph = self

        class Proc:
            pid = 4711
            returncode = None
            stderr = stdin = None

            def __init__(self, cmd, **kw):
                self.args = cmd
                self.stdout = ceph.stream([str(c) if not isinstance(
                    c, str) else c for c in cmd])

            def wait(self, timeout=None):
                self.returncode = ceph.rc
                return self.returncode

            def poll(self):
                return self.wait()

            def communicate(self, *a, **kw):
                return self.stdout.read(), b""

            def kill(self):
                pass

            terminate = kill

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.stdout.close()
                self.wait()

        def check_output(cmd, *a, **kw):
            r = ceph.command(list(cmd))
            if isinstance(r, (dict, list)):
                d = json_shim() if ceph.ctx.symbolic else json
                r = d.dumps(r)
            if not kw.get("encoding") and not kw.get("text"):
                r = r.encode()
            return r

        def run(cmd, *a, **kw):
            try:
                out, rc = check_output(cmd, *a, **kw), 0
            except subprocess.CalledProcessError as e:
                if kw.get("check"):
                    raise
                out, rc = "" if kw.get("encoding") else b"", e.returncode
            return subprocess.CompletedProcess(cmd, rc, out, None)

        env.p.setattr(subprocess, "Popen", Proc)
        env.p.setattr(subprocess, "check_output", check_output)
        env.p.setattr(
            subprocess, "check_call", lambda *a, **kw: (run(*a, **kw), 0)[1]
        )
        env.p.setattr(subprocess, "run", run)

    # -- the command ---------------------------------------------------------
    def find(self, spec):
        """snapshot of an image@snap specification, or None"""
        spec = unplace(self.ctx, spec) if self.ctx.symbolic else spec
        assert spec.startswith(self.image + "@"), spec
        name = spec[len(self.image) + 1:]
        for s in self.snaps:
            if s.name == name:
                return s
        return None

    def snapname(self, spec):
        spec = unplace(self.ctx, spec) if self.ctx.symbolic else spec
        assert spec.startswith(self.image + "@"), spec
        return spec[len(self.image) + 1:]

    def note(self, kind, *arg):
        self.calls.append((kind,) + arg)
        if self.fault:
            e = self.fault(kind, arg[0] if arg else None)
            if e is not None:
                raise e
        if self.on:
            self.on(kind, arg[0] if arg else None)

    def gone(self, cmd):
        return subprocess.CalledProcessError(2, cmd)

    def command(self, cmd):
        args = [c for c in cmd[1:] if c != "--format=json"]
        if args[:1] == ["--version"]:
            return "ceph version 14.2.22 nautilus (stable)"
        if args[:1] == ["info"]:
            spec = args[1]
            self.note("info", spec)
            if spec == self.image:
                return {"name": self.img}
            if self.find(spec) is None:
                raise self.gone(cmd)
            return {"name": self.img}
        if args[:2] == ["snap", "create"]:
            self.note("create", args[2])
            if self.find(args[2]) is not None:
                raise subprocess.CalledProcessError(17, cmd)
            self.snaps.append(Snap(self.snapname(args[2]), self.head))
            return ""
        if args[:2] == ["snap", "ls"]:
            self.note("ls", args[2])
            assert args[2] == self.image
            return [
                {"id": i, "name": s.name, "size": 1}
                for i, s in enumerate(self.snaps)
            ]
        if args[:2] == ["snap", "rm"]:
            self.note("rm", args[2])
            s = self.find(args[2])
            if s is None:
                raise self.gone(cmd)
            self.snaps.remove(s)
            return ""
        if args[:1] == ["map"]:
            self.note("map", args[1])
            s = self.find(args[1])
            if s is None:
                raise self.gone(cmd)
            self.n += 1
            dev = str(self.env.dev / f"rbd{self.n}")
            c = self.device(s.content) if self.device else s.content
            self.env.put(dev, c)
            self.mapped[dev] = s.name
            return ""
        if args[:1] == ["showmapped"]:
            self.note("showmapped")
            return [
                {"pool": self.pool, "name": self.img, "snap": n, "device": d,
                 "id": "0", "namespace": ""}
                for d, n in self.mapped.items()
            ]
        if args[:1] == ["unmap"]:
            self.note("unmap", args[1])
            self.mapped.pop(args[1], None)
            return ""
        raise AssertionError(f"unexpected command {cmd}")

    def stream(self, cmd):
        args = cmd[1:]
        self.rc = 0
        if args[0] == "export":
            self.note("export", args[1])
            s = self.find(args[1])
            data = b"" if s is None else s.content
            if s is None:
                self.rc = 2
            elif self.export:
                data = self.export(s.content)
        elif args[0] == "export-diff":
            old = args[args.index("--from-snap") + 1]
            self.note("export-diff", args[1], old)
            s = self.find(args[1])
            o = self.find(f"{self.image}@{old}")
            if s is None or o is None:
                self.rc = 2
                data = b""
            else:
                data = (self.diff or full_diff)(
                    self,
                    Snap(old, o.content),
                    Snap(self.snapname(args[1]), s.content),
                )
        else:
            raise AssertionError(f"unexpected command {cmd}")
        return self.file(data)

    def file(self, data):
        if self.ctx.symbolic:
            return SymFile(self.ctx, data)
        return io.BytesIO(data)

    def names(self):
        return [s.name for s in self.snaps]


def size_of(ctx, content):
    return rope(ctx, content)._symlen() if ctx.symbolic else len(content)


def record(ctx, kind, *args):
    """One record of an RBD diff."""
    tag = kind.encode()
    if kind in "ft":
        name = args[0].encode()
        return tag + len(name).to_bytes(4, "little") + name
    if kind == "s":
        return tag + field(ctx, args[0], 8)
    if kind == "w":
        off, data = args
        return (
            tag + field(ctx, off, 8) + field(ctx, size_of(ctx, data), 8) + data
        )
    if kind == "z":
        return tag + field(ctx, args[0], 8) + field(ctx, args[1], 8)
    assert kind == "e"
    return tag


HEADER = b"rbd diff v1\n"


def full_diff(ceph, old, new):
    """Everything of the new snapshot, as one data record."""
    ctx = ceph.ctx
    r = HEADER + record(ctx, "f", old.name) + record(ctx, "t", new.name)
    n = size_of(ctx, new.content)
    r = r + record(ctx, "s", n)
    if n > 0:
        r = r + record(ctx, "w", 0, new.content)
    return r + record(ctx, "e")


def mk_source(repo, **conf):
    import backy.rbd

    return backy.rbd.RBDSource.from_config(
        repo, {"type": "rbd", "pool": "p", "image": "i"} | conf, LOG
    )


def write_image(env, repo, uuid, content):
    """Store an image for a revision with the real chunk store."""
    from .chunkutil import mk_store, open_image

    st = mk_store(env, repo.path / "chunks")
    f = open_image(repo.path / uuid, st, "wb")
    f.write(content)
    f.close()


def read_image(env, repo, uuid):
    from .chunkutil import mk_store, open_image

    f = open_image(repo.path / uuid, mk_store(env, repo.path / "chunks"), "rb")
    r = f.read()
    f.close()
    return r


def new_rev(repo, uuid="new", timestamp=None, tags=("a",)):
    """A fresh revision as the daemon creates it."""
    import backy.revision

    r = backy.revision.Revision.create(repo, set(tags), LOG, uuid=uuid)
    if timestamp is not None:
        r.timestamp = timestamp
    r.materialize()
    repo.scan()
    return repo.find_by_uuid(uuid)
