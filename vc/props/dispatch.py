"""Contracts of the classification helpers, calculate_size, the edges of a box and layout()."""

from .. import engine as E
from ..harness import Contract
from ..tree import (
    FIELDS,
    SIDES,
    VDisplay,
    VIntrinsic,
    VNode,
    VStyle,
    any_box,
    new_box,
    peek,
    poke,
    snapshot,
    storage,
    use_box_contracts,
)
from .layoutbox import Scene

DISPLAYS = (
    "INLINE", "BLOCK", "LIST_ITEM", "INLINE_BLOCK", "TABLE", "INLINE_TABLE", "TABLE_ROW_GROUP",
    "TABLE_HEADER_GROUP", "TABLE_FOOTER_GROUP", "TABLE_ROW", "TABLE_COLUMN_GROUP",
    "TABLE_COLUMN", "TABLE_CELL", "TABLE_CAPTION",
)


def block_level(mk, lib):
    c = lib.constants
    f = lib.get("engine.is_block_level_element")
    name = mk.choice("display", [d for d in DISPLAYS if hasattr(c, d)] + [None])
    node = VNode("node", VStyle(display=getattr(c, name) if name else None), VIntrinsic(is_replaced=False))
    mk.track(node=node)
    st, r = mk.call(f, node)
    mk.ensure("block level: decided for every display", st == "ok", repr(r))
    if st == "ok":
        mk.ensure("block level: exactly block, list-item and table", bool(r) == (name in ("BLOCK", "LIST_ITEM", "TABLE")))


def size_function(mk, lib):
    c = lib.constants
    f = lib.get("engine.calculate_size")
    kind = mk.choice("kind", ["AUTO", "THIN", "MEDIUM", "THICK", "0", "0.0", "None", "unit"])
    display = VDisplay(mk.num("dw", "px", lo=1), mk.num("dh", "px", lo=1))
    font = lib.engine.DummyFont(-1) if hasattr(lib.engine, "DummyFont") else None
    mk.track(display=display, font=font)
    ctx = {"display": display, "font": font, "size": mk.num("size", "px")}
    v = {"0": 0, "0.0": 0.0, "None": None}.get(kind, getattr(c, kind, None))
    if kind == "unit":
        v = mk.unit("value")
    st, r = mk.call(f, v, dict(ctx))
    mk.ensure("a size is calculated for every kind of value", st == "ok", repr(r))
    if st != "ok":
        return
    if kind == "AUTO":
        mk.ensure("auto stays auto", r is c.AUTO)
    elif kind in ("THIN", "MEDIUM", "THICK"):
        mk.ensure("thin, medium and thick are the display's", mk.eq(r, display.fixed_size(v)))
    elif kind == "unit":
        mk.ensure("a length is its pixel size in the given context", mk.eq(r, v.px(**ctx)))
    else:
        mk.ensure("0 and no value are 0", mk.eq(r, 0))


def edge(prop, cb, prebox):
    """Every kind of value of one edge property, seen in the final box."""

    def contract(mk, lib):
        def st(mk, c, U):
            if prop.startswith("border"):
                opts = [0, c.THIN, c.MEDIUM, c.THICK, lambda: U(prop, lo=0)]
            elif prop.startswith("padding"):
                opts = [0, lambda: U(prop, lo=0)]
            else:
                opts = [0, c.AUTO, lambda: U(prop)]
            out = {f"margin_{s}": U(f"margin_{s}") for s in SIDES}
            out[prop] = mk.choice(f"{prop}.kind", opts)
            return out

        sc = Scene(mk, lib, cb, prebox, ("INLINE",), ("STATIC",), (), style=st,
                   intrinsic=dict(is_replaced=False, width=mk.num("iw", "num", lo=0), height=mk.num("ih", "num", lo=0), ratio=None))
        sc.kids(sc.seg("any", displays=("INLINE",)))
        if not sc.run(stub_w=False, stub_h=False):
            return
        c = sc.c
        v = getattr(sc.style, prop)
        if v is c.AUTO or v == 0 and not hasattr(v, "px"):
            want = 0
        elif v in (c.THIN, c.MEDIUM, c.THICK):
            want = sc.display.fixed_size(v)
        else:
            want = sc.px(v)
        mk.ensure(f"{prop.replace('_', '-')} is the declared size, relative to the container's width",
                  mk.eq(getattr(sc.box, prop), want))

    return contract


EDGE_PROPS = [f"margin_{s}" for s in SIDES] + [f"padding_{s}" for s in SIDES] + [f"border_{s}_width" for s in SIDES]
EDGES = [
    Contract(f"layout_box: {p} [{'in a container' if cb == 'node' else 'root'}]", edge(p, cb, True),
             ["engine.layout_box", "engine.calculate_size"], native_ok=False)
    for p in EDGE_PROPS for cb in ("node", "viewport")
]


def root(mk, lib):
    """layout(): the root's layout, given the contract of layout_box."""
    c = lib.constants
    f = lib.get("engine.layout")
    std = mk.choice("standard", ["default", "HTML4", "HTML5"])
    display = VDisplay(mk.num("dw", "px", lo=1), mk.num("dh", "px", lo=1))
    node = VNode("root", VStyle(display=c.BLOCK), opaque=True)
    node.style.display = E.Opaque("root.display")
    if mk.choice("box", [True, False]):
        node.layout = any_box(mk, lib, node, "stale")
    shown = mk.choice("displayed", [True, False])
    mk.track(root=node, display=display, **({"stale": node.layout} if node.layout is not None else {}))
    initial = dict(new_box(lib, VNode("initial", None)).__dict__)
    calls = []
    after = {}

    def rec(display, node, containing_block, viewport, font):
        calls.append((display, node, containing_block, viewport, font))
        n = node
        mk.ensure("the root node is laid out", n is root_node)
        mk.ensure("for the given display", display is root_display)
        mk.ensure("the root's containing block is the viewport", containing_block is viewport)
        lay = containing_block.layout
        mk.ensure("the viewport has the size of the display",
                  mk.and_(mk.eq(lay.content_width, root_display.content_width),
                          mk.eq(lay.content_height, root_display.content_height)))
        if n.layout is not None:
            for k, v in initial.items():
                if k != "node":
                    mk.ensure(f"an earlier layout is reset first ({k})", mk.eq(n.layout.__dict__.get(k), v))
            mk.ensure("the boxes of all descendants are reset as well", getattr(n, "vc_subtree_clean", False))
        if not shown:
            n.layout = None
            return
        if n.layout is None:
            n.layout = new_box(lib, n)
        vals = {}
        for k in FIELDS:
            if k.startswith("_origin"):
                continue
            if k == "dirty":
                continue
            vals[k] = mk.num(f"after.{k}", "px", lo=0 if k.startswith(("collapse", "padding", "border")) else None)
        poke(lib, n.layout, **vals)
        after.update(snapshot(lib, n.layout))

    root_node, root_display = node, display
    if not mk.stub("engine.layout_box", rec, ["display", "node", "containing_block", "viewport", "font"]):
        raise E.Unsupported("layout_box has other parameters")
    args = () if std == "default" else (getattr(c, std),)
    with use_box_contracts(mk, lib):
        st, r = mk.call(f, display, node, *args)
    mk.ensure("layout completes", st == "ok", repr(r))
    if st != "ok":
        return
    mk.ensure("the tree is laid out exactly once", len(calls) == 1)
    if not shown:
        mk.ensure("a root that is not displayed has no box", node.layout is None)
        return
    mk.ensure("a displayed root has a box", node.layout is not None)
    if node.layout is None:
        return
    post = snapshot(lib, node.layout)
    mk.ensure("the whole collapsed top margin of the root is displayed",
              mk.eq(post["content_top"], after["content_top"] + after["collapse_top"]))
    if std == "HTML4":
        mk.ensure("HTML4: the root keeps its own height", mk.eq(post["content_height"], after["content_height"]))
    else:
        mk.ensure("HTML5 (the default): the root's content height fits the display inside its margins",
                  mk.eq(post["content_height"], display.content_height - after["collapse_top"] - after["collapse_bottom"]))
    for k in FIELDS:
        if k not in ("content_top", "content_height", "dirty"):
            mk.ensure(f"the root's {k} is as laid out", mk.eq(post[k], after[k]))


BLOCK_LEVEL = Contract("is_block_level_element", block_level, ["engine.is_block_level_element"])
SIZE = Contract("calculate_size", size_function, ["engine.calculate_size"])
ROOT = Contract("layout", root, ["engine.layout", "engine.Viewport.__init__", "engine.DummyFont.__init__"], native_ok=False)
CONTRACTS = [BLOCK_LEVEL, SIZE, ROOT] + EDGES
