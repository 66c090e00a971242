"""C42: problem reports keep the evidence."""

import contextlib
import hashlib
import io
import os

import yaml

from sx.scenario import Scenario
from sx.symbytes import blob_eq, rope

from .c39 import call, mk_config
from .chunkutil import CS, chunk_assumptions
from .common import *

ASSUMPTIONS = chunk_assumptions + [
    "MD5 has no collisions on the contents of one run",
]


def md5(env):
    """hashlib.md5 for symbolic contents"""
    ctx = env.ctx
    if not ctx.symbolic:
        return
    table = []
    real = hashlib.md5

    class Hash:
        name = "md5"
        digest_size = 16
        block_size = 64

        def __init__(self, data=b"", **kw):
            self.data = rope(ctx, data)

        def update(self, data):
            self.data = self.data + rope(ctx, data)

        def digest(self):
            for i, c in enumerate(table):
                if c.eq(self.data):
                    break
            else:
                i = len(table)
                table.append(self.data)
            return real(f"md5:{i}".encode()).digest()

        def hexdigest(self):
            return self.digest().hex()

    new = hashlib.new

    def new_(name, data=b"", **kw):
        if name.lower() == "md5":
            return Hash(data)
        return new(name, data, **kw)

    env.p.setattr(hashlib, "md5", Hash)
    env.p.replace(real, Hash)
    env.p.setattr(hashlib, "new", new_)
    env.p.replace(new, new_)


def load(path):
    with open(path, encoding="utf-8") as f:
        return yaml.safe_load(f)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def judge(ctx, path, want):
    """want: [(uuid, offset, a, b, timestamp)]"""
    q = path / "quarantine"
    names = {n for n in os.listdir(q) if n != "chunks"}
    ctx.check(
        names == {u + ".report" for u, *_ in want}, "one report per mismatch"
    )
    used = set()
    for u, off, a, b, t in want:
        d = load(q / (u + ".report"))
        ctx.check(d["uuid"] == u, "a report names itself")
        ctx.check(d["offset"] == off, "a report tells the offset")
        ctx.check(d["timestamp"] == t, "a report tells the time")
        for k, c in (("source_hash", a), ("target_hash", b)):
            f = q / "chunks" / d[k]
            used.add(d[k])
            ctx.check(f.exists(), "both blocks are kept")
            ctx.check(
                blob_eq(ctx, read(f), c), "both blocks are kept as they were"
            )
    ctx.check(
        set(os.listdir(q / "chunks")) == used if want else True,
        "only they are kept",
    )


def store(ctx, env):
    """Any number of mismatches, in memory and after a restart."""
    import backy.report

    env.chunks()
    md5(env)
    P = ctx.params
    path = env.tmp / "repo"
    r = mk_repo(path)
    want = []
    ids = []
    for i in range(P["reports"]):
        n = ctx.int(f"n{i}", 0, P["size"])
        a = ctx.blob(f"a{i}", n)
        kinds = ["other", "shorter"] + (["source again", "swapped"]
                                        if i else [])
        kind = ctx.choice(f"kind{i}", kinds)
        if kind == "shorter":
            m = ctx.int(f"m{i}", 0, P["size"])
            ctx.assume(m < n)
            b = a[:m]
        elif kind == "other":
            b = ctx.blob(f"b{i}", n + 1)
        elif kind == "source again":
            a = want[-1][2]
            b = ctx.blob(f"b{i}", n)
        else:
            a, b = want[-1][3], want[-1][2]
        off = ctx.int(f"off{i}", 0, 2**50)
        now = D0 + hours(i)
        env.set_now(now)
        rep = backy.report.ChunkMismatchReport(a, b, off)
        u = f"report{i}" if ctx.params.get("ids") else rep.uuid
        env.set_now(now + hours(1))
        r.add_report(rep)
        want.append((rep.uuid, off, a, b, now))
        ids.append(rep.uuid)
        ctx.check(sorted(r.report_ids) == sorted(ids), "it is counted")
        if ctx.flag(f"again{i}"):
            # the same one again
            st = os.stat(path / "quarantine" / (rep.uuid + ".report"))
            rep.store(r.report_path, LOG)
            s2 = os.stat(path / "quarantine" / (rep.uuid + ".report"))
            ctx.check(
                (st.st_ino, st.st_mtime_ns) == (s2.st_ino, s2.st_mtime_ns),
                "a stored report is not changed",
            )
            ctx.cover("again")
        ctx.cover(kind)
    ctx.check(len(set(ids)) == len(ids), "every report has its own name")
    judge(ctx, path, want)
    r2 = mk_repo(path)
    ctx.check(
        sorted(r2.report_ids) == sorted(ids), "later runs see all reports"
    )


def compare(ctx, env):
    """The reports made by a comparison of an image with its source."""
    import backy.rbd

    env.chunks()
    md5(env)
    P = ctx.params
    env.set_now(D0)
    path = env.tmp / "repo"
    r = mk_repo(path)
    blocks = P["blocks"]
    n = blocks * CS
    a = ctx.blob("a", n)
    b = a
    bad = []
    for i in range(blocks):
        if ctx.flag(f"differs{i}"):
            p = ctx.int(f"p{i}", 0, CS - 10)
            lo = i * CS
            b = b[:lo + p] + ctx.blob(f"x{i}", 10) + b[lo + p + 10:]
            bad.append(i)
    import backy.utils

    ok = backy.utils.files_are_equal(
        env.file(a), env.file(b),
        report=lambda s, t, o: r.add_report(
            backy.report.ChunkMismatchReport(s, t, o)
        ),
    )
    ctx.check(bool(ok) == (not bad), "a mismatch is noticed")
    want = {i * CS: (a[i * CS:][:CS], b[i * CS:][:CS]) for i in bad}
    q = path / "quarantine"
    got = {}
    for f in os.listdir(q):
        if f.endswith(".report"):
            d = load(q / f)
            got[int(d["offset"])] = d
    ctx.check(set(got) == set(want), "each differing block is reported")
    judge(ctx, path, [
        (d["uuid"], o, *want[o], D0) for o, d in got.items() if o in want
    ])
    ctx.cover("mismatch" if bad else "none")


def commands(ctx, env):
    """reports-list, -show and -delete, check"""
    import backy.cli
    import backy.report

    P = ctx.params
    jobs = [env.tmp / "job", env.tmp / "other"]
    env.set_now(D0)
    st = {}
    for j in jobs:
        mk_config(j)
        write_rev(j, "r0", D0, ["daily"])
        r = mk_repo(j)
        k = ctx.choice(f"reports-{j.name}", P["counts"])
        st[j] = []
        for i in range(k):
            rep = backy.report.ChunkMismatchReport(
                b"%d" % i * 200, b"x", i * CS
            )
            r.add_report(rep)
            st[j].append(rep.uuid)
        (j / "quarantine" / "note.txt").write_text("by the operator")
    me, other = jobs
    cmd = ctx.choice("cmd", ["list", "show", "delete", "check"])
    args = ["-C", me]
    sel = None
    if cmd in ("show", "delete"):
        sel = [u for i, u in enumerate(st[me]) if ctx.flag(f"select{i}")]
        unknown = ctx.flag("unknown")
        if not sel and not unknown:
            sel = None
    before = {j: files(j) for j in jobs}
    if cmd == "check":
        args += ["check"]
    else:
        args += ["reports-" + cmd]
        if sel is None:
            if cmd == "delete":
                args += ["--all"]
        else:
            names = sel + (["nosuchreport"] if unknown else [])
            args += [",".join(names)]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        code = call(env, backy.cli.main, *args)
    lines = out.getvalue().splitlines()
    after = {j: files(j) for j in jobs}
    ctx.check(after[other] == before[other], "other backups are not touched")
    if cmd == "list":
        ctx.check(
            code == 0 and sorted(lines) == sorted(st[me]), "all are listed"
        )
        ctx.check(after == before, "listing changes nothing")
        return
    if cmd == "check":
        ctx.check(
            code == (1 if st[me] else 0), "a check warns about reports"
        )
        return
    chosen = st[me] if sel is None else sel
    failed = sel is not None and unknown
    ctx.check((code != 0) == failed, "an unknown report is a failure")
    if cmd == "show":
        ctx.check(after == before, "showing changes nothing")
        for u in st[me]:
            text = before[me]["quarantine/" + u + ".report"].decode()
            ctx.check(
                (text in out.getvalue()) == (u in chosen),
                "the selected reports are shown",
            )
        ctx.cover("show")
    else:
        gone = {
            f"quarantine/{u}.report" for u in chosen
        }
        ctx.check(
            set(before[me]) - set(after[me]) == gone
            and all(after[me][k] == before[me][k] for k in after[me]),
            "exactly the selected reports are deleted",
        )
        ctx.cover("delete")


def files(root):
    r = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if f in (".purge", ".backup"):
                continue
            r[os.path.relpath(p, root)] = read(p)
    return r


def scenarios(tier):
    t = tier == "thorough"
    return [
        Scenario(
            "store", store,
            "2 mismatches with any blocks of up to one block size, of equal "
            "or different length, sharing blocks, at any offset",
            dict(reports=3 if t else 2, size=CS),
            ["other", "shorter", "source again", "swapped", "again"],
        ),
        Scenario(
            "compare", compare,
            "comparison of an image with any set of differing blocks",
            dict(blocks=4 if t else 3), ["mismatch", "none"],
        ),
        Scenario(
            "commands", commands,
            "any selection of the reports of one of two backups",
            dict(counts=[0, 1, 2, 3] if t else [0, 1, 2]),
            ["show", "delete"],
        ),
    ]
