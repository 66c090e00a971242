"""C11: a restore writes exactly the backed up bytes."""

import io
import os

from sx.scenario import Scenario
from sx.symbytes import SymFile, blob_eq, rope, zeroes

from .common import *
from .chunkutil import *
from .rbdutil import *

ASSUMPTIONS = RBD_ASSUMPTIONS + chunk_assumptions + [
    "backy-extract is a stand-in, which restores images of whole chunks or "
    "fails; it is not installed where nothing else is said",
    "the target supports truncation (regular files)",
]


def image(ctx, env):
    """A repository with one revision of an arbitrary image."""
    P = ctx.params
    path = env.tmp / "repo"
    path.mkdir()
    Ceph(env)
    repo = mk_repo(path)
    trust = ctx.choice("trust", P.get("trust", ["trusted"]))
    write_rev(path, "u", D0, ctx.choice("tags", P.get("tags", [["a"]])),
              trust=trust)
    for k in P.get("others", []):
        u = f"o{k}"
        write_rev(path, u, D0 + hours(k), ["a"],
                  trust=ctx.choice(f"trust-{u}", P["trust"]))
        write_image(env, repo, u, ctx.blob(u, 10))
    # data, a run of zeroes, data
    n = ctx.int("n", 0, P["size"])
    d = ctx.blob("img", n)
    if P.get("zeroes"):
        d = d + zeroes(ctx, ctx.int("nz", 0, P["zeroes"])) + ctx.blob("e", 3)
    write_image(env, repo, "u", d)
    repo.scan()
    return repo, mk_source(repo), d


def args(ctx, target):
    import backy.rbd

    backend = ctx.choice("backend", ["auto", "python"])
    return backy.rbd.RBDRestoreArgs(
        str(target), backy.rbd.RestoreBackend(backend)
    )


def to_file(ctx, env):
    env.chunks()
    P = ctx.params
    repo, src, d = image(ctx, env)
    target = env.dev / "target"
    old = ctx.choice("old", P["old"])
    if old == "other":
        env.put(target, ctx.blob("old", ctx.int("no", 0, P["oldsize"])))
    elif old == "same":
        env.put(target, d + ctx.blob("more", ctx.int("no", 0, 10)))
    elif old == "zero":
        env.put(target, zeroes(ctx, ctx.int("no", 0, P["oldsize"])))
    src.restore(repo.find_by_uuid("u"), args(ctx, target))
    got = env.get(target)
    ctx.check(got is not None, "the target exists")
    ctx.check(
        blob_eq(ctx, got, d), "the target equals the image"
    )
    ctx.check(
        blob_eq(ctx, read_image(env, repo, "u"), d), "the image stays"
    )
    ctx.cover(old)


def stdout(env):
    """Catch what is written to standard output."""
    ctx = env.ctx
    got = []
    real = os.fdopen, os.dup

    class Out:
        def write(self, data):
            got.append(data)
            return size_(data)

        def flush(self):
            pass

        def close(self):
            pass

        def fileno(self):
            raise OSError("pipe")

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    class Sys:
        buffer = Out()

        def flush(self):
            pass

        def fileno(self):
            return 1

    env.p.setattr(os, "dup", lambda fd: -77 if fd == 1 else real[1](fd))
    env.p.setattr(
        os, "fdopen",
        lambda fd, *a, **kw: Out() if fd in (-77, 1) else real[0](
            fd, *a, **kw),
    )
    import sys

    env.p.setattr(sys, "stdout", Sys())

    def content():
        r = rope(ctx, b"") if ctx.symbolic else b""
        for x in got:
            r = r + (x if ctx.symbolic else bytes(x))
        return r

    return content


def to_stdout(ctx, env):
    env.chunks()
    repo, src, d = image(ctx, env)
    content = stdout(env)
    src.restore(repo.find_by_uuid("u"), args(ctx, "-"))
    ctx.check(
        blob_eq(ctx, content(), d), "standard output gets the image's bytes"
    )
    ctx.cover("end")


def broken(ctx, env):
    """A damaged chunk makes the restore fail."""
    env.chunks()
    P = ctx.params
    repo, src, d = image(ctx, env)
    path = repo.path
    mp = mapping(path / "u")
    ctx.assume(len(mp) > 0)
    k = ctx.pick("which", len(mp))
    damage(
        ctx, store_files(env, path / "chunks")[mp[k]],
        ctx.choice("kind", DAMAGES), ctx.blob("other", 20),
    )
    if ctx.flag("stdout"):
        content = stdout(env)
        target = "-"
    else:
        target = env.dev / "target"
    try:
        src.restore(repo.find_by_uuid("u"), args(ctx, target))
        ok = True
    except Exception:
        ok = False
    ctx.check(not ok, "a damaged image is not restored silently")
    # what was written is right nevertheless
    got = content() if target == "-" else env.get(target)
    n = size_(got)
    ctx.check(n <= size_(d), "no bytes are invented")
    ctx.check(blob_eq(ctx, got, d[:n]), "only bytes of the image are written")
    ctx.cover("failed")


def external(ctx, env):
    """backy-extract is installed in some way."""
    import subprocess

    import backy.rbd

    env.chunks()
    P = ctx.params
    repo, src, d = image(ctx, env)
    size = size_of(ctx, d)
    tool = ctx.choice("tool", P["tools"])
    rc = ctx.choice("rc", P["codes"]) if tool == "good" else 0
    backend = ctx.choice("backend", ["auto", "python", "rust"])
    out = ctx.flag("stdout")
    target = "-" if out else str(env.dev / "target")
    content = stdout(env) if out else None
    if not out and ctx.flag("old"):
        env.put(target, ctx.blob("old", 100))
    used = []

    def tool_(cmd):
        """(return code, output)"""
        cmd = [os.fspath(c) for c in cmd]
        if tool == "missing":
            raise FileNotFoundError(2, "No such file", cmd[0])
        if "--version" in cmd:
            return {
                "good": (0, "backy-extract 1.1.0\n"),
                "other": (0, "extract 1\n"),
                "broken": (1, ""),
                "silent": (0, ""),
            }[tool]
        used.append(cmd)
        a = [c for c in cmd[1:] if c == "-" or not c.startswith("-")]
        ctx.check(
            len(a) == 2
            and os.path.realpath(a[0]) == str((repo.path / "u").resolve())
            and a[1] == target,
            "the right revision and target are passed on",
        )
        if tool != "good":
            return 1, ""
        pad = -size % CS
        data = d + zeroes(ctx, pad) if pad else d
        if rc:
            data = data[: size // 2]
        if out:
            import sys

            sys.stdout.buffer.write(data)
        else:
            env.put(target, data)
        return rc, ""

    class Proc:
        pid = 4711
        returncode = None
        stdout = stderr = stdin = None

        def __init__(self, cmd, **kw):
            self.args = cmd
            self.rc, self.out = tool_(cmd)

        def wait(self, timeout=None):
            self.returncode = self.rc
            return self.rc

        def poll(self):
            return self.wait()

        def communicate(self, *a, **kw):
            self.wait()
            return self.out, ""

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.wait()

    def run(cmd, *a, **kw):
        code, o = tool_(cmd)
        if code and kw.get("check"):
            raise subprocess.CalledProcessError(code, cmd)
        if not (kw.get("encoding") or kw.get("text")
                or kw.get("universal_newlines")):
            o = o.encode()
        return subprocess.CompletedProcess(cmd, code, o, None)

    env.p.setattr(subprocess, "Popen", Proc)
    env.p.setattr(subprocess, "run", run)
    env.p.setattr(
        subprocess, "call", lambda *a, **kw: run(*a, **kw).returncode
    )
    env.p.setattr(
        subprocess, "check_call",
        lambda *a, **kw: run(*a, check=True, **kw).returncode,
    )
    env.p.setattr(
        subprocess, "check_output",
        lambda *a, **kw: run(*a, check=True, **kw).stdout,
    )
    try:
        src.restore(
            repo.find_by_uuid("u"),
            backy.rbd.RBDRestoreArgs(
                target, backy.rbd.RestoreBackend(backend)
            ),
        )
        ok = True
    except Exception:
        ok = False
    if backend == "python":
        ctx.check(not used, "the built-in restore is used if asked for")
    if used:
        ctx.cover("used")
        if rc:
            ctx.cover("failed")
    if backend == "python" or backend == "auto" and not rc:
        ctx.check(ok, "the restore works")
    if backend == "rust" and (tool != "good" or rc):
        ctx.check(not ok, "the failure is reported")
    if backend == "rust" and size % CS:
        # The user insists.
        return
    if ok:
        ctx.check(
            blob_eq(ctx, content() if out else env.get(target), d),
            "what was restored equals the image",
        )
        ctx.cover("restored")


def scenarios(tier):
    h = CS // 2
    olds = ["none", "other", "same", "zero"]
    big = tier != "quick"
    r = [
        Scenario(
            "file",
            to_file,
            "image up to 2.5 chunks; target absent, with other, equal or "
            "zero content of any size up to 3 chunks",
            dict(size=2 * CS + h, old=olds, oldsize=3 * CS),
            olds,
            path_s=120,
        ),
        Scenario(
            "among-others",
            to_file,
            "an image up to 20 bytes of any trust and tags between other "
            "revisions of any trust",
            dict(size=20, old=["none"], others=[-1, 1], trust=[
                "trusted", "distrusted", "verified"],
                tags=[["a"], [], ["manual:x"]]),
            ["none"],
        ),
        Scenario(
            "file-zeroes",
            to_file,
            "image of data, zeroes and data up to 2 chunks over another file",
            dict(size=h, zeroes=CS, old=["other"], oldsize=2 * CS),
            ["other"],
            path_s=120,
        ),
        Scenario(
            "stdout",
            to_stdout,
            "image of data, zeroes and data up to 2.5 chunks",
            dict(size=CS + h, zeroes=CS),
            ["end"],
            path_s=120,
        ),
        Scenario(
            "external",
            external,
            "image up to 2 chunks; backy-extract works, fails, is missing, "
            "broken or another program; any backend",
            dict(size=2 * CS, tools=["good", "missing", "other", "broken",
                                     "silent"], codes=[0, 1, -9]),
            ["used", "failed", "restored"],
            path_s=120,
        ),
        Scenario(
            "broken",
            broken,
            "image up to 2.5 chunks with one chunk damaged in any of 7 ways",
            dict(size=2 * CS + h),
            ["failed"],
            path_s=120,
        ),
    ]
    if big:
        r.append(
            Scenario(
                "file-large",
                to_file,
                "image of data, zeroes and data up to 6 chunks over any file "
                "up to 7 chunks",
                dict(size=3 * CS, zeroes=3 * CS, old=olds, oldsize=7 * CS),
                olds,
                path_s=300,
            )
        )
    return r
