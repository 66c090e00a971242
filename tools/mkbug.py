"""Make a seeded change from a description and confirm it.

usage: mkbug.py SPEC.py   (a file defining BUGS = [dict(id, property, edits,
needs, breaks, demo)]; edits: [(file, old, new)])

For each: copy /repo, apply the edits, write seeded/<id>/, run the stable
tests in the copy, the demo on /repo and on the copy, and the property's check
against the copy."""

import concurrent.futures as cf
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

DEMO = """#!/bin/bash
# cwd: the repository
. /opt/vp/env.sh
export PYTHONPATH="$PWD/src:/opt/vp/meta" PYTHONDONTWRITEBYTECODE=1
unset PYTHONPYCACHEPREFIX
exec "$PY" "$(dirname "$0")/demo.py"
"""


PRELUDE = """import asyncio, datetime, json, os, pathlib, shutil, subprocess, sys
import tempfile
from unittest import mock

import yaml

TMP = pathlib.Path(tempfile.mkdtemp(prefix="demo."))
import atexit
atexit.register(shutil.rmtree, TMP, True)
UTC = datetime.timezone.utc


class Log:
    _context = {"taskid": "X"}

    def bind(self, *a, **kw):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **kw: None


LOG = Log()


def day(n):
    return datetime.datetime(2024, 1, 1, 12, tzinfo=UTC) + (
        datetime.timedelta(days=n)
    )


def repo(name="r", schedule=None):
    import backy.repository, backy.schedule

    s = backy.schedule.Schedule()
    s.configure(schedule or {})
    r = backy.repository.Repository(TMP / name, s, LOG)
    r.connect()
    return r


def rev(r, uuid, at, tags=(), trust=None, server="", orig=(), complete=True):
    import backy.revision

    x = backy.revision.Revision(r, LOG, uuid, day(at))
    x.tags = set(tags)
    x.orig_tags = set(orig)
    x.server = server
    if complete:
        x.stats["duration"] = 1.0
    if trust:
        x.trust = backy.revision.Trust(trust)
    x.materialize()
    r.scan()
    return r.find_by_uuid(uuid)


def source(r):
    import backy.rbd

    return backy.rbd.RBDSource.from_config(
        r, {"type": "rbd", "pool": "p", "image": "i"}, LOG
    )


def run(c):
    async def main():
        return await c()

    return asyncio.run(main())


"""


def sh(cmd, cwd, timeout=1200, **env):
    p = subprocess.Popen(
        ["bash", "-c", cmd],
        cwd=cwd,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        env=dict(os.environ) | env,
        start_new_session=True,
    )
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        raise
    return p.returncode, o


def tests(copy, **env):
    out = tempfile.mkdtemp(prefix="bt.")
    rc, o = sh(
        f"""sed -e 's#cd /repo#cd {copy}#; s#/opt/vp/report#{out}/report#'
            /opt/vp/test.sh >{out}/t.sh;
        sed -i 's#^\\. /opt/vp/env.sh#. /opt/vp/env.sh; export PYTHONPATH={copy}/src:/opt/vp/meta PYTHONPYCACHEPREFIX={out}/pyc#' {out}/t.sh
        sed -i '/metadata.py/d' {out}/t.sh
        bash {out}/t.sh {out}/o.json""".replace("\n            ", " "),
        copy,
        150 if env else 1200,
        **env,
    )
    try:
        d = json.load(open(f"{out}/o.json"))
    except Exception:
        return ["no result: " + o[-2000:]]
    finally:
        shutil.rmtree(out, ignore_errors=True)
    passed = set(d.get("passed", d.get("pass", [])))
    return sorted(STABLE - passed)


def one(b, quick):
    d = VERIF / "seeded" / b["id"]
    d.mkdir(parents=True, exist_ok=True)
    copy = pathlib.Path(tempfile.mkdtemp(prefix=f"bug-{b['id']}.")) / "repo"
    res = [b["id"]]
    try:
        sh(f"cp -a /repo {copy}", "/")
        for f, old, new in b["edits"]:
            p = copy / f
            t = p.read_text()
            if t.count(old) != 1:
                return [b["id"], f"edit matches {t.count(old)} times in {f}"]
            p.write_text(t.replace(old, new))
        rc, diff = sh("git diff", copy)
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(DEMO)
        (d / "demo.py").write_text(PRELUDE + b["demo"].lstrip("\n"))
        (d / "meta.json").write_text(
            json.dumps(
                {
                    "property": b["property"],
                    "needs": b["needs"],
                    "what_it_breaks": b["breaks"],
                },
                indent=1,
            )
            + "\n"
        )
        rc, o = sh(f"bash {d}/demo.sh", "/repo", 300)
        res.append(f"demo clean {rc}" + (" BAD " + o[-800:] if rc else ""))
        rc, o = sh(f"bash {d}/demo.sh", copy, 300)
        res.append(
            f"demo bug {rc}" + ("" if rc else " BAD: passes")
            + " | " + o.strip().split("\n")[-1][:200]
        )
        if not quick:
            bad = tests(copy)
            res.append("tests ok" if not bad else f"tests BAD {bad[:5]}")
        rc, o = sh(
            f"{VERIF}/bin/check {b['property']}",
            VERIF,
            SX_REPO_SRC=f"{copy}/src",
            SX_NPROC="4",
        )
        v = [l for l in o.split("\n") if "counterexample" in l][:2]
        res.append(f"check {rc} {v or o[-300:]}")
    finally:
        shutil.rmtree(copy.parent, ignore_errors=True)
    return res


if __name__ == "__main__":
    spec = runpy.run_path(sys.argv[1])
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    bugs = [b for b in spec["BUGS"] if not only or b["id"] in only]
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda b: one(b, "-q" in sys.argv), bugs):
            print("\n  ".join(r), flush=True)
            if any("BAD" in x[:16] for x in r) or len(r) < 4:
                d = VERIF / "seeded" / r[0]
                for n in ("patch.diff", "demo.sh", "demo.py", "meta.json"):
                    (d / n).unlink(missing_ok=True)
                d.rmdir()
                print("  dropped", flush=True)
