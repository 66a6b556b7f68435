"""Bounded searches for failing inputs through the public API, and their replay."""

import json

from . import harness as H


def run(arg):
    kind, props = arg["what"]
    if kind == "layout":
        from . import oracle

        return oracle.search(H.native(), arg["seed"], arg["seconds"], set(props), arg.get("pool", ()))
    raise ValueError(kind)


def replay_file(path):
    d = json.load(open(path))
    f = d.get("finding")
    if not f:
        print("no failing input was found; failed obligations:")
        for x in d["failed_obligations"]:
            print(" ", x["contract"], x["obligations"])
        return 1
    if f["kind"] == "oracle":
        import random

        from . import oracle

        if "history" in f:
            bad, hist = oracle.check_history(H.native(), f["doc"], random.Random(f["rng"]))
        else:
            bad, _, _ = oracle.check_document(H.native(), f["doc"])
        for b in bad:
            print(b.prop, b)
        return 1 if bad else 0
    if f["kind"] == "contract":
        print(f["contract"], "|", f["obligation"], "|", f.get("detail"), "|", f.get("inputs"))
        return 1
