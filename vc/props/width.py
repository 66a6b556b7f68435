"""C01: horizontal layout of block-level boxes (CSS 2.1 S10.3.3, S10.4)."""

import math

from ..harness import Contract
from ..tree import any_style, VIntrinsic, VNode, VStyle, any_box, peek, snapshot, use_box_contracts


def block_width_post(mk, lib, name, style, size, px, pre, box, shift=0):
    """Postcondition of S10.3.3 for a box, from the values before the calculation.

    px(unit) is the pixel value of a length of the style.
    pre: margin_left/right (number or AUTO), border/padding numbers.
    """
    AUTO = lib.constants.AUTO
    LTR = lib.constants.LTR
    ml0, mr0 = pre["margin_left"], pre["margin_right"]
    bl, br = pre["border_left_width"], pre["border_right_width"]
    pl, pr = pre["padding_left"], pre["padding_right"]
    edges = bl + pl + pr + br
    ml, mr, cw = box.margin_left, box.margin_right, box.content_width
    out = []

    def ens(what, cond):
        mk.ensure(f"{name}: {what}", cond)

    for what, v in (("margin-left", ml), ("margin-right", mr), ("content width", cw)):
        ens(f"{what} is a number", is_number(mk, v))
        if not is_number(mk, v):
            return
    left = ml0 if ml0 is not AUTO else 0
    right = mr0 if mr0 is not AUTO else 0
    if style.width is AUTO:
        ens("auto width: margin-left is as declared (auto is 0)", mk.eq(ml, left))
        ens("auto width: margin-right is as declared (auto is 0)", mk.eq(mr, right))
        ens(
            "auto width: margins, borders, padding and content fill the container",
            mk.eq(ml + edges + cw + mr, size),
        )
    else:
        w = px(style.width)
        if style.max_width is not None:
            w = mk.min(w, px(style.max_width))
        if style.min_width is not AUTO:
            w = mk.max(w, px(style.min_width))
        ens("declared width, limited by max-width then min-width", mk.eq(cw, w))
        total = edges + w + left + right
        over = total > size
        fills = mk.eq(ml + edges + cw + mr, size)
        if ml0 is AUTO and mr0 is AUTO:
            ens("both margins auto and content fits: margins are equal",
                mk.implies(mk.not_(over), mk.eq(ml, mr)))
            ens("both margins auto and content fits: margins are whole pixels",
                mk.implies(mk.not_(over), mk.eq(ml, math.floor(ml))))
            d = size - (ml + edges + cw + mr)
            ens(
                "both margins auto and content fits: the box fills the container to the pixel",
                mk.implies(mk.not_(over), mk.and_(d >= 0, d < 2)),
            )
        elif ml0 is AUTO:
            ens("margin-left auto and content fits: margin-right is kept",
                mk.implies(mk.not_(over), mk.eq(mr, mr0)))
            ens("margin-left auto and content fits: margin-left takes the remainder",
                mk.implies(mk.not_(over), fills))
        elif mr0 is AUTO:
            ens("margin-right auto and content fits: margin-left is kept",
                mk.implies(mk.not_(over), mk.eq(ml, ml0)))
            ens("margin-right auto and content fits: margin-right takes the remainder",
                mk.implies(mk.not_(over), fills))
        constrained = True if (ml0 is not AUTO and mr0 is not AUTO) else over
        ens("over-constrained: the box still fills the container",
            mk.implies(constrained, fills))
        if style.direction is LTR:
            ens("over-constrained ltr: margin-left is kept (auto is 0)",
                mk.implies(constrained, mk.eq(ml, left)))
        else:
            ens("over-constrained rtl: margin-right is kept (auto is 0)",
                mk.implies(constrained, mk.eq(mr, right)))
    ens(
        "content box starts after left margin, border and padding",
        mk.eq(box.content_left, ml + bl + pl + shift),
    )


def block_display(mk, c):
    return mk.lazy("display", [c.BLOCK, c.LIST_ITEM, c.TABLE]) if mk.via else c.BLOCK


def via(fn, path):
    """The same contract, through the function that dispatches to the one under contract."""

    def contract(mk, lib):
        mk.via = path
        try:
            fn(mk, lib)
        finally:
            mk.via = None

    return contract


def is_number(mk, v):
    from .. import engine as E

    return E.isnum(v) and not isinstance(v, bool)


def sizes(mk, c, lib):
    U = mk.unit
    return dict(
        width=mk.lazy("width", [c.AUTO, lambda: U("width")]),
        max_width=mk.lazy("max_width", [None, lambda: U("max_width")]),
        min_width=mk.lazy("min_width", [c.AUTO, lambda: U("min_width")]),
        direction=mk.lazy("direction", [c.LTR, c.RTL]),
    )


def width_function(mk, lib):
    c = lib.constants
    f = lib.get(mk.via or "engine.calculate_block_non_replaced_normal_flow_width")
    size = mk.num("size", "px")
    style = VStyle(display=block_display(mk, c), position=c.STATIC, float=None, vc_any=any_style(mk, lib, ""), **sizes(mk, c, lib))
    node = VNode("node", style, VIntrinsic(is_replaced=False))
    ml = mk.choice("margin_left_kind", [c.AUTO, lambda: mk.num("margin_left", "px")])
    mr = mk.choice("margin_right_kind", [c.AUTO, lambda: mk.num("margin_right", "px")])
    node.layout = any_box(
        mk, lib, node, "box", margin_left=ml, margin_right=mr, content_left=0, content_width=0
    )
    from ..tree import VDisplay

    display = VDisplay(mk.num("dw", "px", lo=1), mk.num("dh", "px", lo=1))
    font = lib.engine.DummyFont(-1) if hasattr(lib.engine, "DummyFont") else None
    mk.track(node=node, box=node.layout, display=display, font=font)
    ctx = {"display": display, "font": font, "size": size}
    pre = snapshot(lib, node.layout)
    with use_box_contracts(mk, lib):
        st, r = mk.call(f, node, ctx)
    mk.ensure("S10.3.3: the calculation completes", st == "ok", repr(r))
    if st != "ok":
        return
    block_width_post(
        mk, lib, "S10.3.3", style, size, lambda u: u.px(**ctx), pre, node.layout
    )
    post = snapshot(lib, node.layout)
    for k in post:
        if k in (
            "margin_left", "margin_right", "collapse_left", "collapse_right",
            "content_left", "content_width", "dirty",
        ):
            continue
        mk.ensure(f"S10.3.3: {k} is not touched", mk.eq(pre[k], post[k]))


WDISPATCH = "engine.calculate_width_and_margins"
CONTRACTS = [
    Contract("S10.3 dispatch: block width", via(width_function, WDISPATCH), [WDISPATCH]),
    Contract(
        "S10.3.3 width function",
        width_function,
        ["engine.calculate_block_non_replaced_normal_flow_width"],
    )
]
