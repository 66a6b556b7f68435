"""C05 (propagation), C06 (geometry), C07 (dirty tracking) and the reset part of C09:
contracts of Box and Size."""

from .. import engine as E
from ..engine import Seg, VCList
from ..harness import Contract
from ..tree import (
    FIELDS,
    SIDES,
    VNode,
    VStyle,
    any_box,
    new_box,
    peek,
    poke,
    snapshot,
    storage,
)


# -- C06 -----------------------------------------------------------------------
def geometry(mk, lib):
    node = VNode("node", None)
    box = node.layout = any_box(mk, lib, node, "box")
    ct, cl = box.content_top, box.content_left
    cw, ch = box.content_width, box.content_height
    bt, br, bb, bl = (getattr(box, f"border_{s}_width") for s in SIDES)
    pt, pr, pb, pl = (getattr(box, f"padding_{s}") for s in SIDES)
    ot, ol = peek(lib, box, "_origin_top"), peek(lib, box, "_origin_left")
    want = {
        "content": (ct, cl + cw, ct + ch, cl),
        "padding_box": (ct - pt, cl + cw + pr, ct + ch + pb, cl - pl),
        "border_box": (ct - pt - bt, cl + cw + pr + br, ct + ch + pb + bb, cl - pl - bl),
    }
    for kind, (t, r, bo, le) in want.items():
        sides = dict(top=t, right=r, bottom=bo, left=le)
        for s, v in sides.items():
            mk.ensure(f"{kind}_{s} relative to the container", mk.eq(getattr(box, f"{kind}_{s}"), v))
            o = ot if s in ("top", "bottom") else ol
            mk.ensure(
                f"absolute_{kind}_{s} is the origin plus the relative position",
                mk.eq(getattr(box, f"absolute_{kind}_{s}"), o + v),
            )
        mk.ensure(
            f"{kind} width is right minus left",
            mk.eq(getattr(box, f"{kind}_width"), r - le),
        )
        mk.ensure(
            f"{kind} height is bottom minus top",
            mk.eq(getattr(box, f"{kind}_height"), bo - t),
        )
    for outer, inner in (("border_box", "padding_box"), ("padding_box", "content")):
        mk.ensure(
            f"{outer} contains {inner}",
            mk.and_(
                getattr(box, f"{outer}_top") <= getattr(box, f"{inner}_top"),
                getattr(box, f"{outer}_left") <= getattr(box, f"{inner}_left"),
                getattr(box, f"{outer}_bottom") >= getattr(box, f"{inner}_bottom"),
                getattr(box, f"{outer}_right") >= getattr(box, f"{inner}_right"),
            ),
        )


# -- C05: setters ----------------------------------------------------------------
def child_maker(mk, lib, parent, name, fixed, displayed=None):
    """An arbitrary child: not displayed (no box), or with a box whose fields are
    arbitrary but for `fixed` (a function of nothing giving fields)."""

    def make():
        n = VNode(name, VStyle(), opaque=mk.symbolic)
        n.parent = parent
        kinds = [True, False] if displayed is None else [displayed]
        if mk.choice(f"{name}.displayed", kinds):
            n.layout = any_box(mk, lib, n, name, **fixed())
        else:
            n.layout = None
        return n

    return make


def around(mk, make, w):
    """[any children] w [any children]"""
    if mk.symbolic:
        return VCList([Seg("before", make), w, Seg("after", make)])
    return (
        [make() for _ in range(mk.choice("n.before", [0, 1, 2]))]
        + [w]
        + [make() for _ in range(mk.choice("n.after", [0, 1, 2]))]
    )


def grandchildren(mk, lib, w, fixed):
    """Give the child w [any children] g [any children]; return g.

    The recursion of the box operations over deeper levels is by induction: the operation on
    the child is the real code, on the grandchildren it is checked like on the children."""
    make = child_maker(mk, lib, w, "grandchild", fixed, displayed=True)
    g = make()
    w.set_children(around(mk, make, g))
    mk.track(g=g, gbox=g.layout)
    return g


def below(lib, box):
    """The position of the children of a box."""
    def fixed():
        return {f"_origin_{a}": peek(lib, box, f"_origin_{a}") + peek(lib, box, f"content_{a}") for a in ("top", "left")}

    return fixed


def mover(field, axis):
    def contract(mk, lib):
        node = VNode("node", VStyle())
        other = "left" if axis == "top" else "top"
        box = node.layout = any_box(mk, lib, node, "box")
        o, c = peek(lib, box, f"_origin_{axis}"), peek(lib, box, f"content_{axis}")
        oo, oc = peek(lib, box, f"_origin_{other}"), peek(lib, box, f"content_{other}")

        def fixed():
            return {f"_origin_{axis}": o + c, f"_origin_{other}": oo + oc}

        make = child_maker(mk, lib, node, "child", fixed)
        w = make()
        node.set_children(around(mk, make, w))
        track = dict(node=node, box=box, w=w)
        if w.layout is not None:
            track["wbox"] = w.layout
        mk.track(**track)
        g = grandchildren(mk, lib, w, below(lib, w.layout)) if w.layout is not None else None
        gpre = snapshot(lib, g.layout) if g is not None else None
        pre = snapshot(lib, box)
        wpre = snapshot(lib, w.layout) if w.layout is not None else None
        v = mk.num("value", "px")
        st, r = mk.call(setattr, box, field, v)
        mk.ensure(f"{field}: assignment completes", st == "ok", repr(r))
        if st != "ok":
            return
        mk.ensure(f"{field} takes the value", mk.eq(getattr(box, field), v))
        post = snapshot(lib, box)
        for k in FIELDS:
            if k != field:
                mk.ensure(f"{field}: the box's {k} is not touched", mk.eq(pre[k], post[k]))
        if wpre is None:
            mk.ensure(f"{field}: a child that is not displayed stays so", w.layout is None)
            return
        wpost = snapshot(lib, w.layout)
        mk.ensure(
            f"{field}: every child's origin is the box's absolute content position",
            mk.and_(
                mk.eq(wpost[f"_origin_{axis}"], post[f"_origin_{axis}"] + post[f"content_{axis}"]),
                mk.eq(wpost[f"_origin_{other}"], post[f"_origin_{other}"] + post[f"content_{other}"]),
                mk.eq(getattr(w.layout, f"absolute_content_{axis}"),
                      getattr(box, f"absolute_content_{axis}") + wpost[f"content_{axis}"]),
            ),
        )
        for k in FIELDS:
            if k != f"_origin_{axis}":
                mk.ensure(f"{field}: a child's own {k} is not touched", mk.eq(wpre[k], wpost[k]))
        gpost = snapshot(lib, g.layout)
        for a in ("top", "left"):
            mk.ensure(f"{field}: so is every grandchild's ({a})",
                      mk.eq(gpost[f"_origin_{a}"], wpost[f"_origin_{a}"] + wpost[f"content_{a}"]))
        for k in FIELDS:
            if k != f"_origin_{axis}":
                mk.ensure(f"{field}: a grandchild's own {k} is not touched", mk.eq(gpre[k], gpost[k]))

    return contract


# -- margin / collapse setters -------------------------------------------------------
def margin_setter(mk, lib):
    AUTO = lib.constants.AUTO
    side = mk.choice("side", list(SIDES))
    node = VNode("node", VStyle())
    old = mk.choice("old.kind", [AUTO, lambda: mk.num("old", "px")])
    box = node.layout = any_box(mk, lib, node, "box", **{f"margin_{side}": old})
    mk.track(node=node, box=box)
    pre = snapshot(lib, box)
    v = mk.choice("new.kind", [AUTO, lambda: mk.num("new", "px")])
    st, r = mk.call(setattr, box, f"margin_{side}", v)
    mk.ensure("margin: assignment completes", st == "ok", repr(r))
    if st != "ok":
        return
    got = getattr(box, f"margin_{side}")
    c0, c1 = pre[f"collapse_{side}"], getattr(box, f"collapse_{side}")
    if v is AUTO:
        mk.ensure("margin: auto is stored as auto", got is AUTO)
        mk.ensure("margin: auto leaves the collapsed extent alone", mk.eq(c0, c1))
    else:
        mk.ensure("margin takes the value", mk.eq(got, v))
        changed = True if old is AUTO else v != old
        want = mk.ite(mk.and_(changed, v > c0), v, c0)
        mk.ensure("margin: the collapsed extent grows to the margin", mk.eq(c1, want))
    post = snapshot(lib, box)
    for k in FIELDS:
        if k not in (f"margin_{side}", f"collapse_{side}"):
            mk.ensure(f"margin: {k} is not touched", mk.eq(pre[k], post[k]))


def collapse_setter(mk, lib):
    AUTO = lib.constants.AUTO
    side = mk.choice("side", list(SIDES))
    node = VNode("node", VStyle())
    box = node.layout = any_box(mk, lib, node, "box")
    mk.track(node=node, box=box)
    pre = snapshot(lib, box)
    v = mk.choice("new.kind", [AUTO, lambda: mk.num("new", "px")])
    st, r = mk.call(setattr, box, f"collapse_{side}", v)
    mk.ensure("collapse: assignment completes", st == "ok", repr(r))
    if st != "ok":
        return
    c0, c1 = pre[f"collapse_{side}"], getattr(box, f"collapse_{side}")
    want = c0 if v is AUTO else mk.max(v, c0)
    mk.ensure("collapse: the extent never shrinks, and grows to the value", mk.eq(c1, want))
    post = snapshot(lib, box)
    for k in FIELDS:
        if k != f"collapse_{side}":
            mk.ensure(f"collapse: {k} is not touched", mk.eq(pre[k], post[k]))


# -- C09: reset ---------------------------------------------------------------------
def reset(mk, lib):
    node = VNode("node", VStyle())
    box = node.layout = any_box(mk, lib, node, "box", dirty=mk.any("dirty", [True, False, None]))

    def fixed():
        return {"dirty": mk.any("child.dirty", [True, False, None])}

    make = child_maker(mk, lib, node, "child", fixed)
    w = make()
    node.set_children(around(mk, make, w))
    track = dict(node=node, box=box, w=w)
    if w.layout is not None:
        track["wbox"] = w.layout
    mk.track(**track)
    g = grandchildren(mk, lib, w, fixed) if w.layout is not None else None
    fresh = new_box(lib, VNode("fresh", VStyle()))
    extra = mk.any("visible", [True, False])
    if "visible" in box.__dict__:
        box.visible = extra
    st, r = mk.call(box.reset)
    mk.ensure("reset completes", st == "ok", repr(r))
    if st != "ok":
        return
    for b, who in ((box, "the box"), (w.layout, "every child's box"), (g and g.layout, "every descendant's box")):
        if b is None:
            continue
        for k, v in fresh.__dict__.items():
            if k == "node":
                continue
            mk.ensure(f"reset: {who} is as newly created ({k})", mk.eq(b.__dict__.get(k), v))
        mk.ensure(
            f"reset: {who} has no other state",
            set(b.__dict__) == set(fresh.__dict__),
        )


def creation(mk, lib):
    """A new box does not depend on anything but the node, and sits at the origin."""
    node = VNode("node", VStyle())

    def fixed():
        return {}

    make = child_maker(mk, lib, node, "child", fixed)
    w = make()
    node.set_children(around(mk, make, w))
    mk.track(node=node, w=w, **({"wbox": w.layout} if w.layout is not None else {}))
    wpre = snapshot(lib, w.layout) if w.layout is not None else None
    fresh = new_box(lib, VNode("fresh", VStyle()))
    st, r = mk.call(lib.dimensions.Box, node)
    mk.ensure("creation completes", st == "ok", repr(r))
    if st != "ok":
        return
    for k, v in fresh.__dict__.items():
        if k != "node":
            mk.ensure(f"creation: {k} has its initial value", mk.eq(r.__dict__.get(k), v))
    mk.ensure("creation: a box is invalid until it is laid out", mk.eq(r.dirty, True))
    for f in FIELDS:
        if f not in ("dirty",):
            mk.ensure(f"creation: {f} is 0", mk.eq(peek(lib, r, f), 0))
    if wpre is not None:
        wpost = snapshot(lib, w.layout)
        for k in FIELDS:
            if k in ("_origin_top", "_origin_left"):
                mk.ensure("creation: a child's origin is the new box's content position", mk.eq(wpost[k], 0))
            else:
                mk.ensure(f"creation: a child's own {k} is not touched", mk.eq(wpre[k], wpost[k]))


# -- C07 -----------------------------------------------------------------------------
STATES = [True, False, None]


def box_dirty(mk, lib):
    node = VNode("node", VStyle())
    d0 = mk.choice("dirty", STATES)
    box = node.layout = any_box(mk, lib, node, "box", dirty=d0)

    def fixed():
        return {"dirty": mk.choice("child.dirty", STATES)}

    make = child_maker(mk, lib, node, "child", fixed)
    w = make()
    node.set_children(around(mk, make, w))
    mk.track(node=node, box=box, w=w, **({"wbox": w.layout} if w.layout is not None else {}))
    if w.layout is not None:
        # a child laid out in an earlier pass has the same validity as its subtree, unless it
        # was invalidated on its own
        g = grandchildren(mk, lib, w, lambda: {"dirty": mk.choice("grandchild.dirty", STATES)})
    pre = snapshot(lib, box)
    wpre = snapshot(lib, w.layout) if w.layout is not None else None
    v = mk.choice("value", STATES)
    st, r = mk.call(setattr, box, "dirty", v)
    mk.ensure("dirty: assignment completes", st == "ok", repr(r))
    if st != "ok":
        return
    mk.ensure("dirty takes the value", box.dirty is v)
    post = snapshot(lib, box)
    for k in FIELDS:
        if k != "dirty":
            mk.ensure(f"dirty: {k} is not touched", mk.eq(pre[k], post[k]))
    if wpre is not None:
        wpost = snapshot(lib, w.layout)
        if v is not d0:
            mk.ensure("dirty: every child gets the new state", w.layout.dirty is v)
            if wpre["dirty"] is not v:
                mk.ensure("dirty: every descendant gets the new state", g.layout.dirty is v)
        for k in FIELDS:
            if k != "dirty":
                mk.ensure(f"dirty: a child's {k} is not touched", mk.eq(wpre[k], wpost[k]))
    else:
        mk.ensure("dirty: a child that is not displayed stays so", w.layout is None)


SIZE_FIELDS = {
    "width": "num",
    "height": "num",
    "ratio": "num",
    "exact_width": "bool",
    "exact_height": "bool",
    "is_replaced": "bool",
}


def size_setter(field):
    kind = SIZE_FIELDS[field]

    def contract(mk, lib):
        node = VNode("node", VStyle())
        shown = mk.choice("displayed", [True, False])
        d0 = mk.choice("dirty", STATES)
        if shown:
            node.layout = any_box(mk, lib, node, "box", dirty=d0)
        mk.track(node=node, **({"box": node.layout} if shown else {}))
        st, size = mk.call(lib.dimensions.Size, node)
        mk.ensure("a new intrinsic size", st == "ok", repr(size))
        if st != "ok":
            return
        node.intrinsic = size
        dom = [True, False] if kind == "bool" else [None, lambda: mk.num("v", "num")]
        # reach an arbitrary stored state through the setter itself, then clean the layout
        first = mk.choice("first", dom)
        setattr(size, field, first)
        if shown:
            poke(lib, node.layout, dirty=d0)
        others = {f: getattr(size, f) for f in SIZE_FIELDS if f != field}
        boxpre = snapshot(lib, node.layout) if shown else None
        v = mk.choice("second", dom)
        st, r = mk.call(setattr, size, field, v)
        mk.ensure(f"intrinsic {field}: assignment completes", st == "ok", repr(r))
        if st != "ok":
            return
        got = getattr(size, field)
        mk.ensure(
            f"intrinsic {field} takes the value",
            mk.eq(got, v) if v is not None else got is None,
        )
        for f, o in others.items():
            n = getattr(size, f)
            mk.ensure(f"intrinsic {field}: {f} is not touched", mk.eq(o, n) if o is not None else n is None)
        if not shown:
            mk.ensure("a node that is not displayed gets no box", node.layout is None)
            return
        same = (v is None and first is None) or (
            v is not None and first is not None and mk.known(mk.eq(v, first))
        )
        if same:
            mk.ensure(f"intrinsic {field}: an equal value keeps the layout valid", node.layout.dirty is d0)
        else:
            mk.ensure(f"intrinsic {field}: a change marks the layout dirty", node.layout.dirty is True)
            mk.ensure(f"intrinsic {field}: dirtiness is readable through the size", size.dirty is True)
        boxpost = snapshot(lib, node.layout)
        for k in FIELDS:
            if k != "dirty":
                mk.ensure(f"intrinsic {field}: the box's {k} is not touched", mk.eq(boxpre[k], boxpost[k]))

    return contract


MOVERS = [
    Contract(f"Box.{f} setter", mover(f, a), [f"dimensions.Box.{f}"])
    for f, a in (
        ("content_top", "top"),
        ("content_left", "left"),
        ("_origin_top", "top"),
        ("_origin_left", "left"),
    )
]
MARGINS = [
    Contract("Box.margin_* setters", margin_setter, [f"dimensions.Box.margin_{s}" for s in SIDES]),
    Contract("Box.collapse_* setters", collapse_setter, [f"dimensions.Box.collapse_{s}" for s in SIDES]),
]
CREATION = Contract("Box creation", creation, ["dimensions.Box.__init__", "dimensions.Box._reset"])
RESET = Contract("Box.reset", reset, ["dimensions.Box.reset", "dimensions.Box._reset"])
GEOMETRY = Contract(
    "Box geometry",
    geometry,
    [
        f"dimensions.Box.{a}{k}_{s}"
        for a in ("", "absolute_")
        for k in ("content", "padding_box", "border_box")
        for s in SIDES
        if not (a == "" and k == "content" and s in ("top", "left"))
    ]
    + [f"dimensions.Box.{k}_box_{d}" for k in ("padding", "border") for d in ("width", "height")],
)
DIRTY = [Contract("Box.dirty setter", box_dirty, ["dimensions.Box.dirty"])] + [
    Contract(f"Size.{f} setter", size_setter(f), [f"dimensions.Size.{f}", "dimensions.Size.dirty"])
    for f in SIZE_FIELDS
]
CONTRACTS = MOVERS + MARGINS + [CREATION, RESET, GEOMETRY] + DIRTY
