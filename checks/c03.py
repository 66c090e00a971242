"""C03: making a backup never changes earlier revisions."""

from sx.scenario import Scenario
from sx.symbytes import blob_eq, zeroes

from .common import *
from .chunkutil import CS, Model, chunk_assumptions
from .rbdutil import *

ASSUMPTIONS = RBD_ASSUMPTIONS + chunk_assumptions


class Stop(Exception):
    pass


def content(ctx, env, repo, uuid):
    return read_image(env, repo, uuid)


def derive(ctx, env):
    """A new revision written through the source's open()."""
    env.chunks()
    P = ctx.params
    path = env.tmp / "repo"
    path.mkdir()
    Ceph(env)
    repo = mk_repo(path)
    times = [D0 + hours(i) for i in range(4)]
    models = {}
    n = ctx.int("size", 0, P["size"])
    for i, u in enumerate(["old", "parent"]):
        write_rev(path, f"{u}", times[i], ["a"])
        if u == "old":
            # shares its start with the parent
            d = ctx.blob("parent", CS) + ctx.blob("old", 10)
        else:
            d = ctx.blob("parent", n)
        write_image(env, repo, u, d)
        models[u] = d
    write_rev(path, "dist", times[2], ["a"],
              trust=ctx.choice("trust", ["trusted", "distrusted"]))
    write_image(env, repo, "dist", ctx.blob("parent", 100))
    models["dist"] = ctx.blob("parent", 100)
    repo.scan()
    r = new_rev(repo, "new", times[3])
    src = mk_source(repo)
    parent = repo.find_by_uuid("parent") if ctx.flag("parent") else None
    m = Model(ctx)
    if parent:
        m.write(models["parent"])
        m.seek(0)
    crash = ctx.flag("fails") if P.get("fails") else False
    try:
        with src.open(r, "wb", parent) as f:
            ctx.check(f.size == m.size(), "starts with the parent's size")
            ctx.check(f.tell() == 0, "starts at the beginning")
            for i, op in enumerate(P["ops"]):
                what = ctx.choice(f"what{i}", op)
                pos = ctx.int(f"pos{i}", 0, P["maxpos"])
                if what == "trunc":
                    # sizes announced by a diff: also larger ones
                    f.seek(pos)
                    f.truncate()
                    m.seek(pos)
                    m.truncate()
                    continue
                f.seek(pos)
                m.seek(pos)
                if what == "zero":
                    d = zeroes(ctx, ctx.int(f"n{i}", 0, P["maxlen"]))
                elif what == "data":
                    d = ctx.blob(f"data{i}", ctx.int(f"n{i}", 0, P["maxlen"]))
                else:
                    d = ctx.blob("parent", CS)
                f.write(d)
                m.write(d)
            if crash:
                raise Stop()
    except Stop:
        ctx.cover("failed")
    for u, d in models.items():
        got = content(ctx, env, repo, u)
        ctx.check(blob_eq(ctx, got, d), "earlier revisions are unchanged")
    f = src.open(r)
    ctx.check(
        blob_eq(ctx, f.read(), m.content()),
        "the new revision is the parent with the changes applied",
    )
    f.close()
    if not P.get("again"):
        ctx.cover("end")
        return
    # opening it again for writing continues with what was written
    with src.open(r, "r+b" if ctx.flag("plus") else "wb",
                  repo.find_by_uuid("old")) as f:
        ctx.check(
            f.size == m.size(), "an existing image is not replaced"
        )
        f.seek(0)
        f.write(b"X")
    for u, d in models.items():
        got = content(ctx, env, repo, u)
        ctx.check(blob_eq(ctx, got, d), "earlier revisions are unchanged (2)")
    m.seek(0)
    m.write(b"X")
    ctx.check(
        blob_eq(ctx, content(ctx, env, repo, "new"), m.content()),
        "the second change is applied",
    )
    ctx.cover("end")


def backup(ctx, env):
    """A complete differential backup of a changed image."""
    env.chunks()
    P = ctx.params
    path = env.tmp / "repo"
    path.mkdir()
    old = ctx.blob("a", ctx.int("na", 1, P["size"]))
    new = old
    pos = ctx.int("pos", 0, P["size"])
    ctx.assume(pos <= size_of(ctx, old))
    d = ctx.blob("b", ctx.int("nb", 1, P["size"]))
    new = old[:pos] + d
    ceph = Ceph(env, head=new)
    repo = mk_repo(path)
    write_rev(path, "first", D0, ["a"])
    write_image(env, repo, "first", ctx.blob("z", 77))
    write_rev(path, "u0", D0 + hours(1), ["a"])
    write_image(env, repo, "u0", old)
    ceph.snaps.append(Snap("backy-u0", old))
    repo.scan()
    r = new_rev(repo, "new", D0 + hours(2))

    def diff(ceph, o, n):
        s = HEADER + record(ctx, "f", o.name) + record(ctx, "t", n.name)
        s = s + record(ctx, "s", size_of(ctx, n.content))
        s = s + record(ctx, "w", pos, d)
        return s + record(ctx, "e")

    ceph.diff = diff
    ok = mk_source(repo).backup(r)
    ctx.check(bool(ok), "backup succeeds")
    ctx.check(
        any(c[0] == "export-diff" for c in ceph.calls), "it is differential"
    )
    for u, c in (("first", ctx.blob("z", 77)), ("u0", old), ("new", new)):
        ctx.check(
            blob_eq(ctx, read_image(env, repo, u), c),
            "all revisions have their content",
        )
    ctx.cover("end")


def scenarios(tier):
    h = CS // 2
    r = [
        Scenario(
            "derive",
            derive,
            "parent of any size up to 1.5 chunks and two other revisions "
            "sharing chunks; one arbitrary write, zeroing or resize at any "
            "position up to 1.5 chunks, with the run failing or not",
            dict(size=CS + h, maxpos=CS + h, maxlen=CS,
                 ops=[["data", "zero", "same", "trunc"]], fails=True),
            ["end", "failed"],
            path_s=120,
        ),
        Scenario(
            "again",
            derive,
            "as above with a parent of up to 100 bytes, changed at up to 200; "
            "then the new revision is opened again for writing",
            dict(size=100, maxpos=200, maxlen=100,
                 ops=[["data", "trunc"]], again=True),
            ["end"],
            path_s=120,
        ),
        Scenario(
            "backup",
            backup,
            "differential backup of an image changed from any position on",
            dict(size=CS + h),
            ["end"],
            path_s=120,
        ),
    ]
    if tier != "quick":
        r.append(
            Scenario(
                "derive-two",
                derive,
                "two changes in sequence",
                dict(size=CS + 10, maxpos=CS + 20, maxlen=CS,
                     ops=[["data", "trunc"], ["data", "zero", "trunc"]]),
                ["end"],
                path_s=180,
            )
        )
    return r
