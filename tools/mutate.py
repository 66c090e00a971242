"""Systematic small changes of the source, to look for weak checks.

usage: mutate.py OUT.jsonl [--sample N] [--seed S] [--file SUBSTR] [--jobs J]

Each mutant is a copy of /repo/src under /tmp with one change.  Those that the
existing tests accept are run against the checks whose evidence names the
changed function, until one reports a violation."""

import argparse
import ast
import concurrent.futures as cf
import copy
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(__file__))
import mkbug

SRC = pathlib.Path("/repo/src/backy")
EV = mkbug.VERIF / "evidence"
SKIP = {"ext_deps.py", "conftest.py", "logging.py"}
CMP = {
    ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt],
    ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
    ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
    ast.In: [ast.NotIn], ast.NotIn: [ast.In],
    ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
}
BIN = {
    ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv],
    ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv],
    ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr],
}


def is_log(n):
    return isinstance(n, ast.Call) and ".log." in "." + ast.unparse(n.func) \
        or isinstance(n, ast.Call) and ast.unparse(n.func).startswith(
            ("log.", "logger.", "print", "parser.", "self.log"))


def functions(tree):
    """(qualified name, node) of the outermost functions."""
    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                yield from walk(c, pre + c.name + ".")
            elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield pre + c.name, c
    yield from walk(tree, "")


def variants(fn):
    """(node, replacement source) pairs inside a function."""
    skip = set()
    for n in ast.walk(fn):
        if is_log(n):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.arg, ast.AnnAssign)) and n.annotation:
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                skip |= {id(x) for x in ast.walk(d)}
            if n.returns:
                skip |= {id(x) for x in ast.walk(n.returns)}
            if n is not fn:
                continue
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                m = copy.deepcopy(n)
                m.ops = [o()]
                yield n, ast.unparse(m)
        elif isinstance(n, ast.BinOp):
            if isinstance(n.left, ast.Constant) and isinstance(
                n.left.value, str
            ):
                continue
            for o in BIN.get(type(n.op), []):
                m = copy.deepcopy(n)
                m.op = o()
                yield n, "(" + ast.unparse(m) + ")"
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield n, "(" + ast.unparse(m) + ")"
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                s = ast.unparse(
                    m if len(m.values) > 1 else m.values[0]
                )
                yield n, "(" + s + ")"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n, "(" + ast.unparse(n.operand) + ")"
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str):
            if n.value is True or n.value is False:
                yield n, str(not n.value)
            elif isinstance(n.value, (int, float)):
                yield n, repr(n.value + 1)
                if n.value > 0:
                    yield n, repr(n.value - 1)
        elif isinstance(n, (ast.If, ast.While)):
            t = ast.unparse(n.test)
            if not isinstance(n.test, (ast.Compare, ast.Constant)):
                yield n.test, f"(not ({t}))"
        elif isinstance(n, ast.Expr) and isinstance(
            n.value, (ast.Call, ast.Await)
        ):
            v = n.value.value if isinstance(n.value, ast.Await) else n.value
            if not is_log(v):
                yield n, "pass"
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(
                n, ast.AugAssign
            ):
                yield n, "pass"
        elif isinstance(n, (ast.Continue, ast.Break)):
            yield n, "pass"
            yield n, "break" if isinstance(n, ast.Continue) else "continue"
        elif isinstance(n, ast.Return) and n.value is not None:
            if not isinstance(n.value, ast.Constant):
                yield n, "return None"
        elif isinstance(n, ast.Raise):
            yield n, "pass"
        elif isinstance(n, ast.keyword) and n.arg:
            pass
        elif isinstance(n, ast.With) or isinstance(n, ast.AsyncWith):
            pass
        elif isinstance(n, ast.Slice):
            pass


def mutants(sub):
    for p in sorted(SRC.rglob("*.py")):
        rel = p.relative_to(SRC)
        if "tests" in rel.parts or rel.name in SKIP or sub not in str(rel):
            continue
        text = p.read_text()
        lines = text.encode().splitlines(keepends=True)
        offs = [0]
        for l in lines:
            offs.append(offs[-1] + len(l))
        for q, fn in functions(ast.parse(text)):
            for n, new in variants(fn):
                a = offs[n.lineno - 1] + n.col_offset
                b = offs[n.end_lineno - 1] + n.end_col_offset
                raw = text.encode()
                out = (raw[:a] + new.encode() + raw[b:]).decode()
                try:
                    compile(out, "x", "exec")
                except SyntaxError:
                    continue
                old = raw[a:b].decode()
                if old == new:
                    continue
                yield dict(
                    file=f"backy/{rel}", func=q, line=n.lineno,
                    old=" ".join(old.split())[:90], new=new[:90], text=out,
                )


def relevant():
    r = {}
    for f in sorted(EV.glob("C*.json")):
        d = json.load(open(f))
        for fn in d["coverage"].get("functions_encoded", []):
            r.setdefault(fn.replace(".<locals>", ""), []).append(
                d["property"]
            )
    return r


def work(m, rel, cost, stage=0):
    base = pathlib.Path(tempfile.mkdtemp(prefix="mt.", dir="/tmp/mt"))
    cp = base / "repo"
    t0 = time.time()
    res = {k: v for k, v in m.items() if k != "text"}
    try:
        shutil.copytree("/repo", cp, symlinks=True,
                        ignore=shutil.ignore_patterns(".git", "__pycache__"))
        (cp / "src" / m["file"]).write_text(m["text"])
        if stage != 2:
            try:
                bad = mkbug.tests(str(cp), PYTEST_ADDOPTS="-x")
            except subprocess.TimeoutExpired:
                bad = ["timeout"]
            if bad:
                res["result"] = "tests"
                res["tests"] = len(bad)
                return res
        if stage == 1:
            res["result"] = "survived"
            return res
        key = f"{m['file']}:{m['func']}"
        cs = sorted(
            {c for k, v in rel.items()
             if k == key or k.startswith(key + ".") for c in v},
            key=lambda c: cost.get(c, 60),
        )
        res["checks"] = cs
        res["other"] = []
        for c in cs:
            try:
                rc, o = mkbug.sh(
                    f"{mkbug.VERIF}/bin/check {c}", "/", 600,
                    SX_REPO_SRC=f"{cp}/src", SX_NPROC=NPROC,
                )
            except subprocess.TimeoutExpired:
                res["other"].append((c, "timeout"))
                continue
            if rc == 1:
                res["result"] = c
                return res
            if rc or "gaps=0" not in o or "exhausted=True" not in o:
                res["other"].append((c, rc, o.strip().split("\n")[-1][-160:]))
        res["result"] = "MISSED" if cs else "uncovered"
        return res
    except Exception as e:
        res["result"] = f"error {e!r}"
        return res
    finally:
        res["s"] = round(time.time() - t0)
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--sample", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--file", default="")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--stage", type=int, default=0,
                    help="1: only the tests, 2: only the checks of the "
                    "survivors in OUT")
    a = ap.parse_args()
    NPROC = str(8 // a.jobs)
    ms = list(mutants(a.file))
    random.Random(a.seed).shuffle(ms)
    if a.sample:
        ms = ms[: a.sample]
    rel = relevant()
    cost = {}
    for f in EV.glob("C*.json"):
        d = json.load(open(f))
        cost[d["property"]] = d.get("coverage", {}).get("solver_seconds", 60)
    print(len(ms), "mutants", flush=True)
    if a.list:
        for m in ms:
            print(m["file"], m["func"], m["line"], m["old"], "->", m["new"])
        sys.exit()
    done, live = set(), set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            if a.stage == 2 and d["result"] == "survived":
                live.add((d["file"], d["func"], d["line"], d["old"], d["new"]))
            else:
                done.add((d["file"], d["func"], d["line"], d["old"], d["new"]))
    todo = [m for m in ms if (m["file"], m["func"], m["line"], m["old"],
                              m["new"]) not in done]
    if a.stage == 2:
        todo = [m for m in todo if (m["file"], m["func"], m["line"],
                                    m["old"], m["new"]) in live]
        print(len(todo), "survivors", flush=True)
    with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as out:
        for f in cf.as_completed(
            [ex.submit(work, m, rel, cost, a.stage) for m in todo]
        ):
            r = f.result()
            out.write(json.dumps(r) + "\n")
            out.flush()
            if r["result"] != "tests":
                print(r["result"], r["file"], r["func"], r["line"], r["old"],
                      "->", r["new"], r.get("other") or "", flush=True)
