"""Driver: explore all scenarios of one property, replay counterexamples on
the unpatched code, write evidence, set the exit code."""

import argparse
import concurrent.futures as cf
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from . import env as envmod  # noqa: E402
from .engine import (  # noqa: E402
    ConcreteCtx,
    Control,
    Cex,
    Divergence,
    Limit,
    PathDone,
    SymCtx,
)

NPROC = int(os.environ.get("SX_NPROC", "8"))
OUT = os.path.join(VERIF, "out")


class Timeout(Control):
    pass


def _alarm(signum, frame):
    raise Timeout("path time limit")


# --- which functions of /repo run ------------------------------------------
FUNCS = set()


def _monitor():
    mon = sys.monitoring
    src = os.path.realpath(envmod.REPO_SRC) + "/"

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(src):
            if code.co_name != "<module>":
                FUNCS.add(f"{fn[len(src):]}:{code.co_qualname}")
        return mon.DISABLE

    mon.use_tool_id(mon.PROFILER_ID, "sx")
    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, start)
    mon.set_events(mon.PROFILER_ID, mon.events.PY_START)


def run_symbolic(sc, prefix, timeout_ms=20000):
    """-> (ctx, status, cexs)"""
    ctx = SymCtx(prefix, timeout_ms=timeout_ms, params=sc.params)
    status = "done"
    gap = None
    signal.setitimer(signal.ITIMER_REAL, sc.path_s)
    try:
        with envmod.environment(ctx) as e:
            Control.last = None
            sc.fn(ctx, e)
            if Control.last is not None:
                # swallowed on the way (e.g. by asyncio.gather)
                raise Control.last
    except PathDone as ex:
        status = "cut:" + str(ex)
    except Divergence as ex:
        status = "divergence"
        gap = f"divergence: {ex}"
    except Limit as ex:
        status = "limit"
        gap = f"limit: {ex} @ {_tb(ex)}"
    except Timeout:
        status = "timeout"
        gap = "path time limit"
    except RecursionError as ex:
        status = "limit"
        gap = f"recursion @ {_tb(ex)}"
    except Exception as ex:
        status = "exception"
        gap = f"unexpected {type(ex).__name__}: {ex} @ {_tb(ex)}"
        if __import__("os").environ.get("SX_DEBUG"):
            import traceback; traceback.print_exc()
        if Control.last is not None:
            status = "limit"
            gap = f"swallowed {Control.last!r}, then {gap}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if gap:
        try:
            m = ctx._need_model()
            ctx.cexs.append(
                Cex(gap, ctx.values(m), "", kind=status)
            )
            ctx.cexs[-1].alts = ctx.nicer()
        except PathDone:
            status = "cut:infeasible"
    return ctx, status


def _tb(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    frames = [
        f"{os.path.basename(f.filename)}:{f.lineno}({f.name})"
        for f in tb
        if "/sx/" not in f.filename
    ]
    return " < ".join(reversed(frames[-4:]))


def run_concrete(sc, values):
    """-> list of failure texts (empty: property held)"""
    ctx = ConcreteCtx(values, params=sc.params)
    signal.setitimer(signal.ITIMER_REAL, sc.path_s)
    try:
        with envmod.environment(ctx) as e:
            sc.fn(ctx, e)
    except PathDone:
        pass
    except Timeout:
        ctx.failures.append(("does not terminate", ""))
    except Limit as ex:
        ctx.failures.append((f"harness limit {ex}", ""))
    except Exception as ex:
        ctx.failures.append(
            (f"unexpected {type(ex).__name__}: {ex}", _tb(ex))
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx.failures


_SCENARIOS = None


def _init_worker():
    signal.signal(signal.SIGALRM, _alarm)
    _monitor()
    # a worker must not litter the terminal with output of the code under test
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get("SX_DEBUG"):
        os.dup2(null, 2)


def _work(si, prefix, max_paths, max_s):
    sc = _SCENARIOS[si]
    stack = [prefix]
    t0 = time.time()
    st = new_stats()
    cexs = []
    while stack and st["paths"] < max_paths and time.time() - t0 < max_s:
        p = stack.pop()
        ctx, status = run_symbolic(sc, p)
        stack.extend(ctx.alternatives)
        st["paths"] += 1
        key = status.split(":")[0] if status.startswith("cut") else status
        if status.startswith("cut:unknown"):
            key = "unknown"
        st["status"][key] = st["status"].get(key, 0) + 1
        st["queries"] += ctx.queries
        st["solver_s"] += ctx.solver_s
        st["obligations"] += ctx.obligations
        st["discharged"] += ctx.discharged
        st["unknown"] += ctx.unknown
        st["truncated"] += ctx.truncated
        st["max_depth"] = max(st["max_depth"], len(ctx.path))
        for n in ctx.notes:
            st["notes"][n] = st["notes"].get(n, 0) + 1
        for k, v in ctx.labels.items():
            st["labels"][k] = st["labels"].get(k, 0) + v
        if ctx.cexs:
            for c in ctx.cexs:
                for v in [c.values] + c.alts:
                    c.concrete = run_concrete(sc, v)
                    if c.concrete:
                        c.values = v
                        break
                cexs.append((c.to_dict(), c.concrete))
        elif st["sample"] is None and status == "done" and ctx.obligations:
            try:
                st["sample"] = {
                    "scenario": sc.name,
                    "one_model_of_path": ctx.values(ctx._need_model()),
                    "decisions": len(ctx.path),
                }
            except PathDone:
                pass
    return si, stack, st, cexs, sorted(FUNCS), time.time() - t0


def new_stats():
    return {
        "paths": 0,
        "status": {},
        "queries": 0,
        "solver_s": 0.0,
        "obligations": 0,
        "discharged": 0,
        "unknown": 0,
        "truncated": 0,
        "max_depth": 0,
        "labels": {},
        "notes": {},
        "sample": None,
    }


def merge(a, b):
    for k in ("paths", "queries", "solver_s", "obligations", "discharged",
              "unknown", "truncated"):
        a[k] += b[k]
    a["max_depth"] = max(a["max_depth"], b["max_depth"])
    for d in ("status", "labels", "notes"):
        for k, v in b[d].items():
            a[d][k] = a[d].get(k, 0) + v
    if a["sample"] is None:
        a["sample"] = b["sample"]


def source_digest():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(envmod.REPO_SRC)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py") and "/tests" not in root:
                h.update(open(os.path.join(root, f), "rb").read())
    return h.hexdigest()[:16]


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [
        k
        for k in json.load(open(path))
        if k["property"] == prop and k.get("status") == "open"
    ]


def main():
    faulthandler.enable()
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    signal.signal(signal.SIGALRM, _alarm)
    mod = importlib.import_module("checks." + a.property.lower())
    scenarios = mod.scenarios(tier)
    if a.only:
        scenarios = [s for s in scenarios if a.only in s.name]
    if a.replay:
        os.environ["SX_PLAIN"] = "1"
        sys.exit(replay_main(a, mod))
    envmod.load_backy()
    base = envmod.scratch_base()
    t0 = time.time()
    try:
        rc = explore(a, mod, tier, scenarios, t0)
    finally:
        assert os.path.basename(base).startswith("sxscratch.")
        shutil.rmtree(base, ignore_errors=True)
    sys.exit(rc)


def replay_main(a, mod):
    """Concrete re-execution on unpatched code; exit 1 if it fails."""
    d = json.load(open(a.replay))
    for tier in ("quick", "thorough"):
        for sc in mod.scenarios(tier):
            if sc.name == d["scenario"]:
                base = envmod.scratch_base()
                try:
                    fails = run_concrete(sc, d["values"])
                finally:
                    if not os.environ.get("SX_KEEP"):
                        shutil.rmtree(base, ignore_errors=True)
                for f in fails:
                    print("FAILS:", *f)
                return 1 if fails else 0
    print("unknown scenario", d["scenario"])
    return 2


def explore(a, mod, tier, scenarios, t0):
    global _SCENARIOS
    _SCENARIOS = scenarios
    prop = a.property
    budget = a.budget or getattr(
        mod, "BUDGET", {"quick": 150, "thorough": 3000}
    ).get(tier, 150)
    ctxm = mp.get_context("fork")
    stats = [new_stats() for _ in scenarios]
    funcs = set()
    found = []  # reproduced
    gaps = []  # not reproduced
    known = known_findings(prop)
    matched = set()
    queues = [[[]] for _ in scenarios]
    npend = len(scenarios)
    turn = 0
    left = [0] * len(scenarios)
    extra = getattr(mod, "direct", None)
    stop = False
    ex = cf.ProcessPoolExecutor(
        NPROC, mp_context=ctxm, initializer=_init_worker
    )
    try:
        running = set()
        while npend or running:
            while npend and len(running) < NPROC * 2 and not stop:
                # scenarios take turns
                while not queues[turn % len(queues)]:
                    turn += 1
                si = turn % len(queues)
                turn += 1
                p = queues[si].pop()
                npend -= 1
                # share early, then let workers dig
                big = npend >= NPROC
                running.add(
                    ex.submit(
                        _work, si, p, 200 if big else 4, 4.0 if big else 1.0
                    )
                )
            if not running:
                break
            done, running = cf.wait(
                running, return_when=cf.FIRST_COMPLETED, timeout=5
            )
            for f in done:
                si, stack, st, cexs, fs, dur = f.result()
                merge(stats[si], st)
                funcs.update(fs)
                queues[si].extend(stack)
                npend += len(stack)
                for c, conc in cexs:
                    k = match_known(known, scenarios[si], c)
                    if conc and k is not None:
                        matched.add(k["id"])
                    else:
                        (found if conc else gaps).append((si, c, conc))
            if len(found) >= 6:
                stop = True
            if time.time() - t0 > budget:
                stop = True
            if stop and not running:
                break
        left = [len(q) for q in queues]
    finally:
        ex.shutdown(wait=False, cancel_futures=True)
    exit_code = 0
    os.makedirs(OUT, exist_ok=True)
    violations = 0
    seen_msgs = set()
    for si, c, conc in found:
        sc = scenarios[si]
        key = (sc.name, c["msg"])
        if key in seen_msgs:
            continue
        path = os.path.join(
            OUT,
            f"{prop}-{hashlib.md5(repr(key).encode()).hexdigest()[:8]}.json",
        )
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "scenario": sc.name,
                    "message": c["msg"],
                    "failures": conc,
                    "values": c["values"],
                    "where": c["where"],
                    "rerun": f"bin/check {prop} --replay {path}",
                },
                f,
                indent=1,
            )
        # fresh process, unpatched code
        env = dict(os.environ)
        env.pop("SX_SCRATCH", None)
        r = subprocess.run(
            [sys.executable, "-m", "sx.run", prop, "--replay", path],
            env=env,
            cwd=VERIF,
            capture_output=True,
            text=True,
        )
        if r.returncode != 1:
            gaps.append((si, c, []))
            continue
        seen_msgs.add(key)
        violations += 1
        print(f"counterexample [{sc.name}] {c['msg']}: {conc[:2]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        exit_code = 1
        if violations >= 3:
            break
    for k in known:
        if k["id"] in matched:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    total = new_stats()
    for s in stats:
        merge(total, s)
    missing = []
    for sc, s in zip(scenarios, stats):
        for lab in sc.covers:
            if not s["labels"].get(lab):
                missing.append(f"{sc.name}:{lab}")
    wall = time.time() - t0
    exhaustive = not any(left) and not total["truncated"] and not total[
        "unknown"
    ]
    gapsum = {}
    for si, c, _ in gaps:
        k = f"{scenarios[si].name}: {c['kind']}: {c['msg'][:160]}"
        gapsum[k] = gapsum.get(k, 0) + 1
    cov = {
        "explanation": (
            "Bounded symbolic execution of the current /repo source: every "
            "path of the listed scenarios is executed with symbolic inputs, "
            "z3 decides each branch and each property obligation for all "
            "values within the bounds; counterexamples are replayed on the "
            "unpatched code before they are reported."
        ),
        "bounds": {s.name: s.bounds for s in scenarios},
        "scenarios": {
            sc.name: {
                "paths": s["paths"],
                "obligations": s["obligations"],
                "discharged": s["discharged"],
                "queries": s["queries"],
                "solver_s": round(s["solver_s"], 3),
                "max_decisions_on_a_path": s["max_depth"],
                "reached": s["labels"],
                "path_status": s["status"],
                "unexplored_prefixes": left[i],
            }
            for i, (sc, s) in enumerate(zip(scenarios, stats))
        },
        "paths": total["paths"],
        "obligations": total["obligations"],
        "discharged": total["discharged"],
        "solver_queries": total["queries"],
        "solver_seconds": round(total["solver_s"], 3),
        "solver_unknown": total["unknown"],
        "solver": "z3 " + _z3v(),
        "functions_encoded": sorted(funcs),
        "source_digest": source_digest(),
        "bounded_space_exhausted": exhaustive,
        "paths_decided_only_on_concrete_values": gapsum,
        "truncated_concretisations": total["truncated"],
        "notes": total["notes"],
        "vacuity_guards_missing": missing,
        "samples": [s["sample"] for s in stats if s["sample"]][:4],
        "known_findings_seen": sorted(matched),
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    if not a.only and os.environ.get("SX_REPO_SRC", "/repo/src") == "/repo/src":
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(
        f"{prop} {tier}: paths={total['paths']} obligations="
        f"{total['obligations']} discharged={total['discharged']} "
        f"queries={total['queries']} solver={total['solver_s']:.1f}s "
        f"wall={wall:.1f}s exhausted={exhaustive} "
        f"gaps={len(gaps)} violations={violations}"
    )
    for k, n in list(gapsum.items())[:10]:
        print(f"note: {n} path(s) decided on concrete values only: {k}")
    if missing:
        print("note: not reached:", ", ".join(missing))
    if a.v:
        for sc, s in zip(scenarios, stats):
            print(
                f"  {sc.name}: paths={s['paths']} obl={s['obligations']} "
                f"q={s['queries']} sol={s['solver_s']:.1f}s depth="
                f"{s['max_depth']} {s['status']} {s['labels']} {s['notes']}"
            )
    if os.environ.get("SX_STRICT") and exit_code == 0 and (
        gaps or missing or total["unknown"]
    ):
        return 3
    if exit_code == 0 and total["paths"] and not total["obligations"]:
        print("error: no obligation was ever reached")
        return 2
    return exit_code


def match_known(known, sc, c):
    for k in known:
        if sc.name not in k["scenarios"] or c["msg"] not in k["msgs"]:
            continue
        cond = k.get("values")
        if cond and any(c["values"].get(n) != v for n, v in cond.items()):
            continue
        return k
    return None


def _z3v():
    import z3

    return z3.get_version_string()


if __name__ == "__main__":
    main()
