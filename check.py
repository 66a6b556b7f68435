#!/usr/bin/env python3-vt
"""Decide one property:  python3-vt check.py C01 [--thorough]

Every contract of the property is verified against /repo's current source: the functions are
instrumented mechanically from the files of the working tree, every path of every contract is
executed symbolically, and every obligation is discharged by z3 (thorough: cross-checked with
cvc5).  Exit 0: held.  Exit 1: a VIOLATION line.
"""

import argparse
import ast
import glob
import json
import multiprocessing as mp
from multiprocessing.connection import wait
import os
import random
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vc import engine as E  # noqa: E402
from vc import harness as H  # noqa: E402
from vc import instrument  # noqa: E402
from vc import registry  # noqa: E402

DEADLINE = 760
WORKERS = min(8, os.cpu_count() or 1)


def constants_pool():
    """Numbers written in the source: inputs near them are worth trying."""
    out = set()
    for f in glob.glob(os.path.join(instrument.SRC, "colosseum", "*.py")):
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and type(n.value) in (int, float) and abs(n.value) < 1e5:
                out |= {n.value, n.value + 1, n.value - 1}
    return sorted(out)


# -- workers (forked) -------------------------------------------------------------------
TASKS = []


def work(i):
    kind, c, arg = TASKS[i]
    try:
        if kind == "prove":
            return i, H.prove(c, collect_smt2=arg.get("smt2", False), inline=arg.get("inline", ()))
        if kind == "replay":
            fs = sorted(arg["failures"], key=lambda f: f.get("abstract", False))
            for f in fs[:12]:
                r = H.replay(c, f)
                if r not in (None, "discard"):
                    return i, dict(obligation=r[0], detail=str(r[1]), inputs=r[2], how="counterexample of the solver")
            return i, None
        if kind == "search":
            return i, H.search(c, arg["seed"], arg["runs"], arg["seconds"])
        if kind == "oracle":
            return i, c(arg)
        if kind == "cross":
            from vc import cross

            return i, cross.one(c, arg["seconds"], arg["seed"])
    except Exception as e:  # machinery trouble: no verdict from this task
        import traceback

        return i, {"crash": "".join(traceback.format_exception(e))[-3000:]}


def serve(conn, others):
    for c in others:
        c.close()
    while True:
        try:
            i = conn.recv()
        except EOFError:
            os._exit(0)
        conn.send(work(i))


class Crew:
    """Forked workers, each with a pipe of its own (nothing is shared that a worker could take
    into its grave)."""

    def __init__(self):
        self.ctx = mp.get_context("fork")
        self.jobs = {}  # connection -> [process, task or None]

    def hire(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=serve, args=(b, [a, *self.jobs]), daemon=True)
        p.start()
        b.close()
        self.jobs[a] = [p, None]

    def fire(self, conn):
        p, _ = self.jobs.pop(conn)
        p.kill()
        p.join(5)
        conn.close()

    def give(self, conn, i):
        self.jobs[conn][1] = i
        try:
            conn.send(i)
        except OSError:
            pass  # noticed when its answer is read

    def idle(self):
        return [c for c, (_, i) in self.jobs.items() if i is None]

    def busy(self):
        return [c for c, (_, i) in self.jobs.items() if i is not None]

    def close(self):
        for p, _ in self.jobs.values():
            p.kill()
        for c in list(self.jobs):
            self.fire(c)


class Runner:
    def __init__(self, t0):
        self.t0 = t0

    def left(self):
        return DEADLINE - (time.time() - self.t0)

    def run(self, tasks, limit=None, stop=None):
        """tasks: (kind, contract, arg).  Returns results in order; None if out of time or not needed."""
        global TASKS
        TASKS = tasks
        res = [None] * len(tasks)
        if not tasks:
            return res
        end = time.time() + min(self.left(), limit or 1e9)
        todo = list(range(len(tasks)))[::-1]
        crew = Crew()
        try:
            for _ in range(min(WORKERS, len(tasks))):
                crew.hire()
            waiting = len(tasks)
            while waiting:
                for conn in crew.idle():
                    if todo:
                        crew.give(conn, todo.pop())
                t = end - time.time()
                if t <= 0:
                    break
                halt = False
                for conn in wait(list(crew.busy()), timeout=t):
                    i = crew.jobs[conn][1]
                    try:
                        j, r = conn.recv()
                    except (EOFError, OSError):  # the worker died (out of memory, say)
                        r = {"crash": "a worker process died"}
                        crew.fire(conn)
                        crew.hire()
                    else:
                        crew.jobs[conn][1] = None
                    res[i] = r
                    waiting -= 1
                    halt = halt or bool(stop and r and stop(r))
                if halt:
                    break
        finally:
            crew.close()
        return res


def status(r):
    if r is None:
        return "not finished"
    if "crash" in r:
        return "crash"
    if r["n_failures"]:
        return "failed"
    if r["complete"] and not r["unknown"] and not r["unsupported"]:
        return "proved"
    return "incomplete"


def native_demo(arg):
    return None


def oracle_task(arg):
    from vc import oracles

    return oracles.run(arg)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        from vc import oracles

        return oracles.replay_file(a.replay)
    pid = a.property
    tier = "thorough" if a.thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = registry.PROPS[pid]
    run = Runner(t0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        H.twin()
        for m in ("engine", "declaration", "dimensions", "units"):
            H.twin().mod(m)
            H.native().mod(m)
    except Exception as e:
        print(f"cannot load the package from {instrument.SRC}: {type(e).__name__}: {e}")
        return 2
    pool = constants_pool()

    # 1. every contract, and a bounded search beside it
    order = sorted(range(len(P.goals)), key=lambda i: -P.goals[i].weight)
    goals = [P.goals[i] for i in order]
    tasks = [("prove", c, {"smt2": False}) for c in goals]
    tasks += [("prove", c, {}) for c in P.lemmas]
    osec = P.oracle_s * (8 if tier == "thorough" else 1)
    noracle = 0
    if P.oracle:
        noracle = 2 if tier == "quick" else 4
        for k in range(noracle):
            tasks.insert(k, ("oracle", oracle_task, dict(what=P.oracle, seed=seed * 100 + k, seconds=osec, pool=pool)))
    nat = [c for c in (goals if P.native is True else P.native or []) if c.native_ok]
    for c in nat:
        tasks.append(("search", c, dict(seed=seed, runs=c.runs * (20 if tier == "thorough" else 1), seconds=60 if tier == "thorough" else 6)))
    res = run.run(tasks)
    nres = res[len(res) - len(nat):]
    oracle_res, res = res[:noracle], res[noracle:len(res) - len(nat)]
    gres = res[: len(goals)]
    lres = res[len(goals):]
    broken = {f for c, r in zip(P.lemmas, lres) if status(r) != "proved" for f in c.functions}

    # 2. callers of functions whose own contract does not hold are verified against the bodies
    redo = [i for i, r in enumerate(gres) if r and "stubs" in r and set(r["stubs"]) & broken]
    if redo:
        again = run.run([("prove", goals[i], {"inline": sorted(broken)}) for i in redo])
        for i, r in zip(redo, again):
            gres[i] = r

    failed = [(c, r) for c, r in zip(goals, gres) if status(r) == "failed"]
    open_ = [(c, r) for c, r in zip(goals, gres) if status(r) in ("incomplete", "not finished", "crash")]
    finding = None
    for r in oracle_res:
        if r and r.get("failure"):
            finding = dict(kind="oracle", **r["failure"])
            break

    bounded = []
    for c, r in zip(nat, nres):
        if not r or "crash" in r:
            continue
        if r.get("failure"):
            finding = finding or dict(kind="contract", contract=c.name, how="bounded search", **r["failure"])
        else:
            bounded.append(dict(contract=c.name, runs=r.get("runs"), accepted=r.get("accepted"), error=r.get("error")))
    # 3. a failing input on the untouched code
    if not finding and (failed or open_):
        nums = set()
        for c, r in failed:
            for f in r["failures"][:20]:
                nums |= {x for x in f["nums"].values() if isinstance(x, (int, float))}
                nums |= {x for _, _, x in f["px"]}
        ts = []
        for c, r in failed:
            if c.native_ok:
                ts.append(("replay", c, dict(failures=r["failures"])))
        long = tier == "thorough"
        for c, r in failed + open_:
            if c.native_ok:
                ts.append(("search", c, dict(seed=seed, runs=c.runs * (20 if long else 6), seconds=60 if long else 25)))
        if P.oracle:
            secs = (150 if failed else 40) * (2 if long else 1)
            for k in range(WORKERS - (1 if ts else 0)):
                ts.append(("oracle", oracle_task, dict(what=P.oracle, seed=seed * 1000 + k, seconds=secs,
                                                       pool=sorted(nums) if (k % 2 and nums) else pool)))
        for t, r in zip(ts, run.run(ts, stop=lambda r: "obligation" in r or r.get("failure"))):
            if r is None:
                continue
            if t[0] == "replay":
                if r and "crash" not in r:
                    finding = finding or dict(kind="contract", contract=t[1].name, **r)
            elif r.get("failure"):
                if t[0] == "search":
                    finding = finding or dict(kind="contract", contract=t[1].name, how="bounded search", **r["failure"])
                else:
                    finding = finding or dict(kind="oracle", **r["failure"])
            elif t[0] == "search":
                bounded.append(dict(contract=t[1].name, runs=r.get("runs"), accepted=r.get("accepted")))
            elif t[0] == "oracle" and "crash" not in r:
                oracle_res.append(r)

    # 4. second back end
    cross = None
    if tier == "thorough":
        from vc import cross as X

        cross = X.cross_check(run, [c for c, r in zip(goals, gres) if status(r) == "proved"], seconds=max(60, run.left() - 60), seed=seed)
        if cross["disagreements"]:
            failed = failed or []
            print("SECOND BACK END DISAGREES:", cross["disagreements"][:3])

    # 5. known findings
    known = known_findings(pid)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")

    # verdict
    rc = 0
    violations = 0
    if finding or failed:
        violations = 1
        rc = 1
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{pid}-{tier}.json")
        with open(path, "w") as f:
            json.dump(dict(
                property=pid,
                finding=finding,
                failed_obligations=[
                    dict(contract=c.name, functions=c.functions,
                         obligations=sorted({x["name"] for x in r["failures"]}),
                         counterexamples=r["failures"][:5])
                    for c, r in failed
                ],
                replay_cmd=f"python3-vt {os.path.join(HERE, 'check.py')} --replay {path}",
            ), f, indent=1, default=str)
        for c, r in failed[:6]:
            for n in sorted({x["name"] for x in r["failures"]})[:4]:
                print(f"failed obligation: {c.name}: {n}")
        if finding:
            print("failing input:", str(finding.get("bad") or finding.get("obligation"))[:400])
        tail = "" if finding else " no-failing-input-found"
        print(f"VIOLATION property={pid} replay={path}{tail}")

    evidence(pid, tier, seed, P, goals, gres, P.lemmas, lres, broken, open_, oracle_res, bounded, cross, known, violations, t0, finding)
    if rc == 0:
        proved = sum(status(r) == "proved" for r in gres)
        n = sum(r["obligations"] for r in gres + lres if r and "obligations" in r)
        print(f"{pid}: {proved}/{len(goals)} contracts proved, {n} obligations, {time.time() - t0:.1f} s"
              + ("" if proved == len(goals) else f" (bounded: {', '.join(c.name for c, _ in open_)})"))
        for c, r in open_:
            print("  not proved:", c.name, "|", status(r), "|", str((r or {}).get("unsupported") or (r or {}).get("unknown") or (r or {}).get("crash"))[-300:])
    return rc


def known_findings(pid):
    """Findings of the committed file that still reproduce on the code as it is."""
    from vc import findings

    return findings.reproduce(pid)


def evidence(pid, tier, seed, P, goals, gres, lemmas, lres, broken, open_, oracle_res, bounded, cross, known, violations, t0, finding):
    rs = [r for r in list(gres) + list(lres) if r and "obligations" in r]
    ob = sum(r["obligations"] for r in rs)
    di = sum(r["discharged"] for r in rs)
    stubs = {}
    for r in rs:
        for k, v in r["stubs"].items():
            stubs[k] = stubs.get(k, 0) + v
    docs = sum((r or {}).get("docs", 0) for r in oracle_res)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": ob,
            "discharged": di,
            "discharged_by_simplification": sum(r.get("trivial", 0) for r in rs),
            "solver_checks": sum(r.get("checks", 0) for r in rs),
            "solver_s": round(sum(r["solver_s"] for r in rs), 2),
            "back_end": "z3 (python bindings)" + (" + cvc5" if cross else ""),
            "cross_check": cross,
            "checker_cmd": f"python3-vt /verif/check.py {pid}" + (" --thorough" if tier == "thorough" else ""),
            "functions_under_contract": sorted({f for c in goals for f in c.functions}),
            "callee_contracts_used": {k: stubs[k] for k in sorted(stubs)},
            "contracts": [
                dict(name=c.name, role="goal", status=status(r), paths=(r or {}).get("paths"), obligations=(r or {}).get("obligations"),
                     discharged=(r or {}).get("discharged"), wall_s=(r or {}).get("wall_s"))
                for c, r in zip(goals, gres)
            ] + [
                dict(name=c.name, role="callee contract", status=status(r), obligations=(r or {}).get("obligations"), discharged=(r or {}).get("discharged"))
                for c, r in zip(lemmas, lres)
            ],
            "not_proved_bounded_only": [
                dict(contract=c.name, why=str((r or {}).get("unsupported") or (r or {}).get("unknown") or (r or {}).get("crash") or "time")[-600:])
                for c, r in open_
            ],
            "bounded": {
                "label": "bounded, not counted as proved",
                "documents": docs,
                "nontrivial": sum((r or {}).get("nontrivial", 0) for r in oracle_res),
                "sample": next((r["sample"] for r in oracle_res if r and r.get("sample")), None),
                "contract_runs": bounded,
            },
            "obligation_samples": [s for r in rs for s in r.get("samples", [])][:5],
            "trusted_base": [
                "z3",
                "vc/instrument.py: mechanical AST instrumentation of /repo/src/colosseum on every run (control flow, names and expressions are kept; reads, calls, comparisons and loops are routed through vc/hooks.py)",
                "vc/engine.py, vc/hooks.py: path exploration, loop summaries, symbolic values",
                "CPython 3.12 executing the instrumented functions",
            ],
        },
        "assumptions": P.assumptions + sorted({x for c in goals for x in c.assumptions}),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    if known:
        ev["coverage"]["known_findings"] = [k["what"] for k in known]
    if broken:
        ev["coverage"]["callee_contracts_not_proved"] = sorted(broken)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
