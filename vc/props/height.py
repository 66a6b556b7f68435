"""C02 (inline boxes), C03 (block heights): contracts of the S10.3.1/2 and S10.6 functions."""

from .. import engine as E
from ..engine import Seg, VCList
import math

from ..harness import Contract
from ..tree import (
    FIELDS,
    VDisplay,
    VIntrinsic,
    VNode,
    VStyle,
    any_box,
    any_style,
    peek,
    snapshot,
    use_box_contracts,
)
from .width import WDISPATCH, block_display, is_number, via


def context(mk, lib, size_name="size"):
    display = VDisplay(mk.num("display.width", "px", lo=1), mk.num("display.height", "px", lo=1))
    font = lib.engine.DummyFont(-1) if hasattr(lib.engine, "DummyFont") else None
    size = mk.num(size_name, "px")
    mk.track(display=display, font=font)
    return {"display": display, "font": font, "size": size}


def margin_kind(mk, c, name):
    return mk.choice(f"{name}.kind", [c.AUTO, lambda: mk.num(name, "px")])


def untouched(mk, lib, what, pre, box, except_):
    post = snapshot(lib, box)
    for k in FIELDS:
        if k not in except_:
            mk.ensure(f"{what}: {k} is not touched", mk.eq(pre[k], post[k]))


def zero_auto(mk, AUTO, v):
    return 0 if v is AUTO else v


# -- block height ------------------------------------------------------------------
def block_height(kids):
    def contract(mk, lib):
        c = lib.constants
        f = lib.get(mk.via or "engine.calculate_block_non_replaced_normal_flow_height")
        ctx = context(mk, lib)
        U = mk.unit
        style = VStyle(
            display=block_display(mk, c),
            position=c.STATIC,
            float=None,
            vc_any=any_style(mk, lib, ""),
            height=mk.lazy("height", [c.AUTO, lambda: U("height")]),
            min_height=mk.lazy("min_height", [c.AUTO, lambda: U("min_height")]),
            max_height=mk.lazy("max_height", [None, lambda: U("max_height")]),
        )
        node = VNode("node", style, VIntrinsic(is_replaced=False))
        if mk.choice("has parent", [False, True]):
            node.parent = VNode(
                "parent",
                VStyle(vc_any=any_style(mk, lib, "parent.")),
            )
        mt, mb = margin_kind(mk, c, "margin_top"), margin_kind(mk, c, "margin_bottom")
        box = node.layout = any_box(mk, lib, node, "box", margin_top=mt, margin_bottom=mb)
        o, ct = peek(lib, box, "_origin_top"), peek(lib, box, "content_top")

        def child(name, shown):
            def make():
                n = VNode(name, VStyle(), opaque=mk.symbolic)
                n.parent = node
                n.layout = (
                    any_box(mk, lib, n, name, _origin_top=o + ct) if shown else None
                )
                return n

            return make

        def maybe():
            if mk.choice("other.displayed", [True, False]):
                return child("other", True)()
            return child("other", False)()

        last = None
        hidden = child("hidden", False)
        if kids == "none":
            lst = [Seg("hidden", hidden)] if mk.symbolic else [
                hidden() for _ in range(mk.choice("n", [0, 1, 2]))
            ]
        else:
            last = child("last", True)()
            if mk.symbolic:
                lst = [Seg("any", maybe), last, Seg("hidden", hidden)]
            else:
                lst = (
                    [maybe() for _ in range(mk.choice("n", [0, 1, 2]))]
                    + [last]
                    + [hidden() for _ in range(mk.choice("m", [0, 1]))]
                )
        node.set_children(VCList(lst) if mk.symbolic else lst)
        mk.track(node=node, box=box, **({"last": last, "lastbox": last.layout} if last else {}))
        pre = snapshot(lib, box)
        lpre = snapshot(lib, last.layout) if last else None
        with use_box_contracts(mk, lib):
            st, r = mk.call(f, node, ctx)
        mk.ensure("S10.6.3: the calculation completes", st == "ok", repr(r))
        if st != "ok":
            return

        def ens(what, cond):
            mk.ensure(f"S10.6.3: {what}", cond)

        ens("auto margin-top is 0", mk.eq(box.margin_top, zero_auto(mk, c.AUTO, mt)))
        ens("auto margin-bottom is 0", mk.eq(box.margin_bottom, zero_auto(mk, c.AUTO, mb)))
        h = box.content_height
        ens("content height is a number", is_number(mk, h))
        if not is_number(mk, h):
            return
        cb0 = pre["collapse_bottom"]
        px = lambda u: u.px(**ctx)
        cb_want = cb0
        if style.height is c.AUTO:
            if last is None:
                want = 0 if style.min_height is c.AUTO else px(style.min_height)
                ens("auto height without displayed children is min-height, or 0", mk.eq(h, want))
            else:
                lb = last.layout
                open_ = mk.and_(mk.eq(pre["border_bottom_width"], 0), mk.eq(pre["padding_bottom"], 0))
                want = mk.ite(
                    open_, lb.border_box_bottom, lb.border_box_bottom + lb.collapse_bottom
                )
                ens("auto height reaches the last displayed child (and its margin, if a bottom border or padding keeps it inside)", mk.eq(h, want))
                cb_want = mk.ite(open_, mk.max(cb0, lb.collapse_bottom), cb0)
        else:
            base = ctx["size"]
            if node.parent is not None and node.parent.style.height is not c.AUTO:
                base = px(node.parent.style.height)
            want = style.height.px(display=ctx["display"], font=ctx["font"], size=base)
            if style.max_height is not None:
                want = mk.min(want, px(style.max_height))
            ens("declared height, limited by max-height", mk.eq(h, want))
        ens("bottom margin collapses with the last child's exactly when they adjoin", mk.eq(box.collapse_bottom, cb_want))
        ens("top extent is not touched", mk.eq(box.collapse_top, pre["collapse_top"]))
        ens(
            "content moves below the top border and padding",
            mk.eq(box.content_top, ct + pre["border_top_width"] + pre["padding_top"]),
        )
        untouched(mk, lib, "S10.6.3", pre, box,
                  ("margin_top", "margin_bottom", "collapse_top", "collapse_bottom", "content_height", "content_top", "dirty"))
        if last is not None:
            lpost = snapshot(lib, last.layout)
            for k in FIELDS:
                if k not in ("_origin_top", "dirty"):
                    ens(f"a child's {k} is not touched", mk.eq(lpre[k], lpost[k]))
            ens("children stay attached to the content box",
                mk.eq(lpost["_origin_top"], peek(lib, box, "_origin_top") + box.content_top))

    return contract


# -- inline boxes -------------------------------------------------------------------
def inline_node(mk, lib, replaced, intrinsic):
    c = lib.constants
    U = mk.unit
    style = VStyle(
        display=c.INLINE,
        position=c.STATIC,
        float=None,
        vc_any=any_style(mk, lib, ""),
        width=mk.lazy("width", [c.AUTO, lambda: U("width")]),
        height=mk.lazy("height", [c.AUTO, lambda: U("height")]),
    )
    node = VNode("node", style, VIntrinsic(is_replaced=replaced, **intrinsic))
    m = {}
    for s in ("top", "right", "bottom", "left"):
        m[s] = None
    return c, style, node


def opt_num(mk, name, lo=0):
    return mk.lazy(name, [None, lambda: mk.num(name, "num", lo=lo)])


def intr(mk):
    return dict(
        width=opt_num(mk, "intrinsic.width"),
        height=opt_num(mk, "intrinsic.height"),
        ratio=mk.lazy("intrinsic.ratio", [None, lambda: mk.num("intrinsic.ratio", "num", gt=0)]),
    )


def same(mk, a, b):
    if a is None or b is None:
        return a is b
    return mk.eq(a, b)


def inline_non_replaced_width(mk, lib):
    c, style, node = inline_node(mk, lib, False, dict(width=mk.lazy("iw", [None, lambda: mk.num("intrinsic.width", "num")]), height=None, ratio=None))
    f = lib.get(mk.via or "engine.calculate_inline_non_replaced_width")
    ctx = context(mk, lib)
    ml, mr = margin_kind(mk, c, "margin_left"), margin_kind(mk, c, "margin_right")
    box = node.layout = any_box(mk, lib, node, "box", margin_left=ml, margin_right=mr)
    mk.track(node=node, box=box)
    pre = snapshot(lib, box)
    with use_box_contracts(mk, lib):
        st, r = mk.call(f, node, ctx)
    mk.ensure("S10.3.1: the calculation completes", st == "ok", repr(r))
    if st != "ok":
        return
    mk.ensure("S10.3.1: auto margin-left is 0", mk.eq(box.margin_left, zero_auto(mk, c.AUTO, ml)))
    mk.ensure("S10.3.1: auto margin-right is 0", mk.eq(box.margin_right, zero_auto(mk, c.AUTO, mr)))
    mk.ensure("S10.3.1: the width is the intrinsic width", same(mk, box.content_width, node.intrinsic.width))
    untouched(mk, lib, "S10.3.1", pre, box, ("margin_left", "margin_right", "collapse_left", "collapse_right", "content_width", "content_left", "dirty"))


def inline_replaced_width(mk, lib):
    c, style, node = inline_node(mk, lib, True, intr(mk))
    f = lib.get(mk.via or "engine.calculate_inline_replaced_width")
    ctx = context(mk, lib)
    ml, mr = margin_kind(mk, c, "margin_left"), margin_kind(mk, c, "margin_right")
    box = node.layout = any_box(mk, lib, node, "box", margin_left=ml, margin_right=mr)
    mk.track(node=node, box=box)
    pre = snapshot(lib, box)
    with use_box_contracts(mk, lib):
        st, r = mk.call(f, node, ctx)
    mk.ensure("S10.3.2: the calculation completes", st == "ok", repr(r))
    if st != "ok":
        return
    inline_replaced_width_post(mk, lib, style, node.intrinsic, ctx, ml, mr, pre, box)
    untouched(mk, lib, "S10.3.2", pre, box, ("margin_left", "margin_right", "collapse_left", "collapse_right", "content_width", "content_left", "dirty"))


def inline_replaced_width_post(mk, lib, style, i, ctx, ml, mr, pre, box, shift=0):
    c = lib.constants
    left, right = zero_auto(mk, c.AUTO, ml), zero_auto(mk, c.AUTO, mr)
    mk.ensure("S10.3.2: auto margin-left is 0", mk.eq(box.margin_left, left))
    mk.ensure("S10.3.2: auto margin-right is 0", mk.eq(box.margin_right, right))
    w = box.content_width
    if style.width is not c.AUTO:
        mk.ensure("S10.3.2: a declared width is used", same(mk, w, style.width.px(**ctx)))
    elif i.width is not None:
        mk.ensure("S10.3.2: auto width is the intrinsic width", same(mk, w, i.width))
    elif style.height is c.AUTO and i.height is not None and i.ratio is not None:
        mk.ensure(
            "S10.3.2: auto width from intrinsic height and ratio, to the pixel",
            mk.and_(2 * (w - i.height * i.ratio) <= 1, 2 * (i.height * i.ratio - w) <= 1, mk.eq(w, math.floor(w))),
        )
    elif style.height is c.AUTO and i.ratio is not None:
        edges = pre["border_left_width"] + pre["padding_left"] + pre["padding_right"] + pre["border_right_width"]
        mk.ensure("S10.3.2: auto width with only a ratio fills the container", same(mk, w + edges + left + right, ctx["size"]))
    else:
        mk.ensure("S10.3.2: auto width without intrinsic size is 300px", same(mk, w, 300))
    mk.ensure(
        "S10.3.2: content box starts after left margin, border and padding",
        mk.eq(box.content_left, left + pre["border_left_width"] + pre["padding_left"] + shift),
    )


def inline_non_replaced_height(mk, lib):
    c, style, node = inline_node(mk, lib, False, dict(height=mk.num("intrinsic.height", "num"), width=None, ratio=None))
    f = lib.get(mk.via or "engine.calculate_inline_non_replaced_height")
    ctx = context(mk, lib)
    inline_height(mk, lib, f, node, ctx, "S10.6.1", lambda box, pre: mk.ensure(
        "S10.6.1: the height is the intrinsic height", same(mk, box.content_height, node.intrinsic.height)))


def inline_replaced_height(mk, lib):
    c, style, node = inline_node(mk, lib, True, intr(mk))
    f = lib.get(mk.via or "engine.calculate_inline_replaced_height")
    ctx = context(mk, lib)

    def spec(box, pre):
        inline_replaced_height_post(mk, lib, style, node.intrinsic, ctx, box)

    inline_height(mk, lib, f, node, ctx, "S10.6.2", spec)


def inline_replaced_height_post(mk, lib, style, i, ctx, box):
    c = lib.constants
    h, w = box.content_height, box.content_width
    if style.height is not c.AUTO:
        mk.ensure("S10.6.2: a declared height is used", same(mk, h, style.height.px(**ctx)))
        return
    if style.width is c.AUTO and i.height is not None:
        mk.ensure("S10.6.2: auto width and height: the intrinsic height", same(mk, h, i.height))
    elif i.ratio is not None:
        mk.ensure("S10.6.2: auto height from the used width and the ratio", same(mk, h, w * i.ratio))
    elif i.height is not None and mk.known(mk.not_(mk.eq(i.height, 0))):
        mk.ensure("S10.6.2: auto height is the intrinsic height", same(mk, h, i.height))
    elif i.height is None:
        # half the width, at most 150px
        d = w - 2 * h
        mk.ensure(
            "S10.6.2: auto height without intrinsic height: half the width, at most 150px",
            mk.or_(mk.and_(mk.eq(h, 150), w >= 300), mk.and_(h <= 150, d >= 0, d < 2)),
        )


def inline_height(mk, lib, f, node, ctx, what, spec):
    c = lib.constants
    mt, mb = margin_kind(mk, c, "margin_top"), margin_kind(mk, c, "margin_bottom")
    box = node.layout = any_box(mk, lib, node, "box", margin_top=mt, margin_bottom=mb)
    mk.track(node=node, box=box)
    pre = snapshot(lib, box)
    with use_box_contracts(mk, lib):
        st, r = mk.call(f, node, ctx)
    mk.ensure(f"{what}: the calculation completes", st == "ok", repr(r))
    if st != "ok":
        return
    top = zero_auto(mk, c.AUTO, mt)
    mk.ensure(f"{what}: auto margin-top is 0", mk.eq(box.margin_top, top))
    mk.ensure(f"{what}: auto margin-bottom is 0", mk.eq(box.margin_bottom, zero_auto(mk, c.AUTO, mb)))
    spec(box, pre)
    mk.ensure(
        f"{what}: content moves below the top margin, border and padding",
        mk.eq(box.content_top, pre["content_top"] + top + pre["border_top_width"] + pre["padding_top"]),
    )
    untouched(mk, lib, what, pre, box, ("margin_top", "margin_bottom", "collapse_top", "collapse_bottom", "content_height", "content_top", "dirty"))


INLINE = [
    Contract("S10.3.1 inline width", inline_non_replaced_width, ["engine.calculate_inline_non_replaced_width"]),
    Contract("S10.3.2 inline replaced width", inline_replaced_width, ["engine.calculate_inline_replaced_width"]),
    Contract("S10.6.1 inline height", inline_non_replaced_height, ["engine.calculate_inline_non_replaced_height"]),
    Contract("S10.6.2 inline replaced height", inline_replaced_height, ["engine.calculate_inline_replaced_height"]),
]
BLOCK = [
    Contract("S10.6.3 height, no displayed children", block_height("none"), ["engine.calculate_block_non_replaced_normal_flow_height"]),
    Contract("S10.6.3 height, any displayed children", block_height("some"), ["engine.calculate_block_non_replaced_normal_flow_height"]),
]
HDISPATCH = "engine.calculate_height_and_margins"
WLEMMAS = [
    Contract("S10.3 dispatch: inline width", via(inline_non_replaced_width, WDISPATCH), [WDISPATCH]),
    Contract("S10.3 dispatch: inline replaced width", via(inline_replaced_width, WDISPATCH), [WDISPATCH]),
]
HLEMMAS = [
    Contract("S10.6 dispatch: inline height", via(inline_non_replaced_height, HDISPATCH), [HDISPATCH]),
    Contract("S10.6 dispatch: inline replaced height", via(inline_replaced_height, HDISPATCH), [HDISPATCH]),
    Contract("S10.6 dispatch: block height, no displayed children", via(block_height("none"), HDISPATCH), [HDISPATCH]),
    Contract("S10.6 dispatch: block height, any displayed children", via(block_height("some"), HDISPATCH), [HDISPATCH]),
]
CONTRACTS = INLINE + BLOCK + WLEMMAS + HLEMMAS
