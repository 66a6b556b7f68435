"""Known findings: /verif/known-findings.json lists them; each has a demonstration here."""

import json
import os

from . import harness as H

PATH = os.path.join(H.VERIF, "known-findings.json")
DEMOS = {}


def demo(f):
    DEMOS[f.__name__.replace("_", "-")] = f
    return f


def reproduce(pid):
    out = []
    for e in json.load(open(PATH))["findings"]:
        if pid not in e["properties"]:
            continue
        try:
            ok = DEMOS[e["id"]](H.native())
        except Exception:
            ok = False
        if ok:
            out.append(dict(id=e["id"], what=f"{e['id']}: {e['what']}"))
    return out


def doc(root, standard="html4", boxes=True):
    return {"display": [96, 1024, 768], "standard": standard, "boxes": boxes, "root": root}


def node(style, *children, **k):
    return dict(style=dict({"display": "block"}, **style), children=list(children), **k)


def lay(lib, root, **k):
    from . import oracle

    d, r = oracle.build(lib, doc(root, **k))
    oracle.run(lib, d, r, doc(root, **k))
    return r


@demo
def relative_double_edges(lib):
    r = lay(lib, node({}, node({"position": "relative", "padding_top": [10, "px"], "height": [50, "px"]})))
    return r.children[0].layout.content_top == 20


@demo
def relative_shift_height(lib):
    r = lay(lib, node({}, node({}, node({"position": "relative", "top": [30, "px"], "height": [50, "px"]}))))
    return r.children[0].layout.content_height == 80


@demo
def relative_early_height(lib):
    root = node({"position": "relative", "min_height": [100, "px"]}, node({"position": "relative", "top": [10, "percent"]}))
    a = lay(lib, root, boxes=False)
    b = lay(lib, root, boxes=True)
    return a.children[0].layout.content_top != b.children[0].layout.content_top


@demo
def percentage_height_of_percentage_height(lib):
    r = lay(lib, node({"height": [200, "px"]}, node({"height": [50, "percent"]}, node({"height": [50, "percent"]}))))
    return r.children[0].children[0].layout.content_height == 0


@demo
def mixed_children(lib):
    inline = dict(style={"display": "inline"}, children=[], intrinsic={"width": 10, "height": 10})
    try:
        lay(lib, node({}, inline, node({"height": [10, "px"]})))
    except AttributeError:
        return True
    return False


@demo
def inline_without_intrinsic_size(lib):
    inline = dict(style={"display": "inline"}, children=[], intrinsic={})
    try:
        lay(lib, node({}, inline))
    except TypeError:
        return True
    return False


@demo
def inherited_offsets(lib):
    try:
        lay(lib, node({}, node({"position": "relative", "left": "inherit", "right": [1, "px"]})))
    except AttributeError:
        return True
    return False


@demo
def border_getter_empty(lib):
    css = lib.get("declaration.CSS")()
    css.border = "1px solid red"
    return css.border == "" and css.border_top_style == "solid"


@demo
def partial_tuple(lib):
    css = lib.get("declaration.CSS")()
    try:
        css.margin = (1, 2, "x", 4)
    except ValueError:
        return css.margin_top == 1 and css.margin_bottom == 0
    return False
