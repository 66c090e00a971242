"""C04: garbage collection removes exactly the unreferenced chunks."""

import os

from sx.scenario import Scenario
from sx.symbytes import blob_eq

from .common import *
from .chunkutil import CS, chunk_assumptions, mapping, mk_store, open_image
from .chunkutil import store_files
from .rbdutil import *

ASSUMPTIONS = RBD_ASSUMPTIONS + chunk_assumptions + [
    "every local revision has an image (a revision without one makes the "
    "collection fail before anything is removed)",
]


def garbage(ctx, env, repo, name, content):
    p = env.tmp / name
    f = open_image(p, mk_store(env, repo.path / "chunks"), "wb")
    f.write(content)
    f.close()
    h = set(mapping(p).values())
    os.unlink(p)
    return h


def gc(ctx, env):
    attributes(ctx, env)
    env.chunks()
    P = ctx.params
    path = env.tmp / "repo"
    path.mkdir()
    Ceph(env)
    repo = mk_repo(path)
    pool = [ctx.blob("A", CS), ctx.blob("B", CS)]
    t = [D0 + hours(i) for i in range(P["revs"])]
    kinds, images = [], {}
    for i in range(P["revs"]):
        k = ctx.choice(f"kind{i}", P["kinds"])
        kinds.append(k)
        first = ctx.choice(f"first{i}", P["first"])
        own = ctx.blob(f"own{i}", ctx.int(f"n{i}", 1, CS))
        d = (pool[first] if first is not None else b"") + own
        images[f"u{i}"] = d
        write_image(env, repo, f"u{i}", d)

    def put(i):
        k = kinds[i]
        write_rev(
            path, f"u{i}", t[i], ["a"], complete=k != "incomplete",
            server="s1" if k == "remote" else "",
            trust="distrusted" if k == "distrusted" else "trusted",
        )

    for i, k in enumerate(kinds):
        if k != "late":
            put(i)
    left = garbage(ctx, env, repo, "g", pool[1] + ctx.blob("junk", 10))
    if "no" in P["faults"] or ctx.flag("pending"):
        (path / ".purge_pending").touch()
    repo = mk_repo(path)  # reads the history
    src = mk_source(repo)
    for i, k in enumerate(kinds):
        if k == "late":
            put(i)
        elif k == "gone":
            os.unlink(path / f"u{i}.rev")
            os.unlink(path / f"u{i}")
    local = [f"u{i}" for i, k in enumerate(kinds)
             if k not in ("remote", "gone")]
    used = set()
    for u in local:
        used |= set(mapping(path / u).values())
    everything = set(store_files(env, path / "chunks"))
    fault = ctx.choice("fault", P["faults"])
    n = [0]
    if fault == "unlink":
        at = ctx.pick("at", P["revs"] + 2)
        for name in ("unlink", "remove"):
            real = getattr(os, name)

            def broken(p, *a, real=real, **kw):
                if "/chunks/" in os.fspath(p):
                    n[0] += 1
                    if n[0] == at + 1:
                        raise OSError(5, "Input/output error")
                return real(p, *a, **kw)

            env.p.setattr(os, name, broken)
    elif fault == "image":
        ctx.assume(bool(local))
        with open(path / local[ctx.pick("bad", len(local))], "w") as f:
            f.write(ctx.choice("junk", ["", '{"mapping": {"0": "abc"', "{}"]))
    pending = (path / ".purge_pending").exists()
    before = read_revs(path)
    try:
        src.gc()
        ok = True
    except Exception:
        ok = False
    files = set(store_files(env, path / "chunks"))
    ctx.check(used <= files, "all chunks in use are kept")
    ctx.check(read_revs(path) == before, "revisions stay as they are")
    if ok:
        ctx.cover("done")
        if fault != "image":
            ctx.check(files == used, "all other chunks are removed")
        else:
            ctx.check(False, "an unreadable image makes the collection fail")
        ctx.check(
            not (path / ".purge_pending").exists(), "nothing is pending"
        )
    else:
        ctx.cover("failed")
        ctx.check(fault != "no", "the collection succeeds")
        if fault == "image":
            ctx.check(files == everything, "nothing is removed")
        ctx.check(
            (path / ".purge_pending").exists() == pending,
            "a failed collection keeps the pending request",
        )
    if fault == "image":
        return
    for u in local:
        ctx.check(
            blob_eq(ctx, read_image(env, repo, u), images[u]),
            "every local revision can be read",
        )


def scenarios(tier):
    kinds = ["ok", "incomplete", "remote", "distrusted", "late", "gone"]
    r = [
        Scenario(
            "two",
            gc,
            "2 revisions (complete, incomplete, distrusted, remote, recorded "
            "or removed after the history was read), shared or own chunks, "
            "unreferenced chunks, images of any size up to 2 chunks",
            dict(revs=2, kinds=kinds, first=[None, 1], faults=["no"]),
            ["done"],
        ),
        Scenario(
            "faults",
            gc,
            "2 revisions; removing the k-th chunk fails or an image can not "
            "be read",
            dict(revs=2, kinds=["ok", "incomplete", "late"], first=[0],
                 faults=["unlink", "image"]),
            ["done", "failed"],
        ),
        Scenario(
            "three",
            gc,
            "3 revisions sharing a chunk",
            dict(revs=3, kinds=["ok", "incomplete", "remote", "late"],
                 first=[1], faults=["no"]),
            ["done"],
        ),
    ]
    r.append(
        Scenario(
            "attributes", gc,
            "2 revisions with other tags and statistics",
            dict(revs=2, kinds=["ok", "incomplete", "distrusted"], first=[None],
                 faults=["no"],
                 attrs=["untagged", "manual", "many", "stats", "slow", "instant", "verified"]),
            ["done", "attributes"],
            path_s=120,
        )
    )
    return r
