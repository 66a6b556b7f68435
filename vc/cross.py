"""Second back end: obligations that z3 discharged, put to cvc5."""

import hashlib
import os
import random
import subprocess
import tempfile
import time

from . import harness as H

PER_QUERY_S = 10


def ask(text, seconds=PER_QUERY_S):
    """'unsat', 'sat', 'unknown' or 'error: ...' (dialect)."""
    text = "(set-logic ALL)\n" + "\n".join(l for l in text.split("\n") if not l.startswith("(set-info"))
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(["cvc5", "--strings-exp", "--nl-ext-tplanes", f"--tlimit={int(seconds * 1000)}", f.name], capture_output=True, text=True, timeout=seconds + 10)
        out = (p.stdout + p.stderr).strip()
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(f.name)
    first = out.split("\n")[0].strip() if out else "unknown"
    if first in ("sat", "unsat", "unknown"):
        return first
    if "timeout" in out or "interrupted" in out:
        return "unknown"
    return "error: " + out[:200]


def one(c, seconds, seed):
    """Prove the contract again, collecting the queries, and put a sample of them to cvc5."""
    r = H.prove(c, collect_smt2=True)
    end = time.time() + seconds
    seen, qs = set(), []
    for name, q in r.pop("smt2"):
        h = hashlib.sha1(q.encode()).digest()
        if h not in seen:
            seen.add(h)
            qs.append((name, q))
    out = dict(contract=c.name, queries=len(qs), asked=0, unsat=0, unknown=0, error=0, sat=[], first_error=None)
    random.Random(seed).shuffle(qs)
    for name, q in qs:
        left = end - time.time()
        if left < 1:
            break
        a = ask(q, min(PER_QUERY_S, left))
        out["asked"] += 1
        if a == "sat":
            out["sat"].append(name)
        elif a.startswith("error"):
            out["error"] += 1
            out["first_error"] = out["first_error"] or a
        else:
            out[a] += 1
    return out


def cross_check(run, contracts, seconds, seed=1):
    """run: the check's Runner.  At most `seconds` in all."""
    if not contracts:
        return dict(contracts=0, disagreements=[])
    per = max(5, seconds * 8 / len(contracts) * 0.8)
    res = run.run([("cross", c, dict(seconds=min(per, 200), seed=seed)) for c in contracts], limit=seconds)
    done = [r for r in res if r and "crash" not in r]
    return dict(
        back_end="cvc5",
        contracts=len(done),
        distinct_queries=sum(r["queries"] for r in done),
        asked=sum(r["asked"] for r in done),
        agreed=sum(r["unsat"] for r in done),
        undecided=sum(r["unknown"] for r in done),
        not_expressible=sum(r["error"] for r in done),
        example_not_expressible=next((r["first_error"] for r in done if r["first_error"]), None),
        disagreements=[f"{r['contract']}: {n}" for r in done for n in r["sat"]],
    )
