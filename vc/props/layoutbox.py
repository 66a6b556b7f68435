"""Contracts of layout_box: one node, any number of children.

The recursive call is replaced by layout_box's own contract (induction on the tree):

  requires  the same display, viewport and font; the containing block is the parent; the
            child has not been laid out in this pass; its box does not exist or is in the
            initial state with its origin at the parent's absolute content position
  ensures   a child that is not displayed has no box; otherwise it has a box whose edges are
            numbers >= 0 where CSS says so, whose content starts below its top border and
            padding (plus any relative offset), whose origin is the parent's absolute content
            position; nothing of the parent is changed

The contracts of the width and height calculations (props/width.py, props/height.py) stand in
for their bodies where the property does not depend on the details.
"""

from .. import engine as E
from ..engine import Seg, VCList
from ..harness import Contract
from ..hooks import HOOKS
from ..tree import (
    FIELDS,
    SIDES,
    Unlazy,
    VDisplay,
    VIntrinsic,
    VNode,
    VStyle,
    any_box,
    any_intrinsic,
    any_style,
    new_box,
    peek,
    poke,
    snapshot,
    storage,
    use_box_contracts,
)
from .height import (
    inline_replaced_height_post,
    inline_replaced_width_post,
    intr,
    opt_num,
    same,
    zero_auto,
)
from .width import block_width_post, is_number, sizes

BLOCKS = ("BLOCK", "LIST_ITEM", "TABLE")
ENGINE = ["engine.layout_box"]


class ChildStyle(VStyle):
    """Only the display of a child is known outside the child's own layout."""


def unknown(n):
    return isinstance(n.__dict__["layout"], (E.Lazy, E.Poison))


class VViewport(Unlazy):
    def __init__(self, display, root):
        self.display = display
        self.children = [root]
        self.layout = display


class Scene:
    def __init__(self, mk, lib, cb="node", prebox=True, display=("BLOCK", "LIST_ITEM"),
                 position=("STATIC",), margins=None, style=None, intrinsic=None):
        self.mk, self.lib = mk, lib
        c = self.c = lib.constants
        self.real = lib.get("engine.layout_box")
        U = mk.unit
        self.display = VDisplay(mk.num("display.width", "px", lo=1), mk.num("display.height", "px", lo=1))
        self.font = lib.engine.DummyFont(-1) if hasattr(lib.engine, "DummyFont") else None
        st = dict(
            float=None,
            display=mk.lazy("display", [getattr(c, d) for d in display]) if len(display) > 1 else getattr(c, display[0]),
            position=getattr(c, mk.choice("position", list(position))),
        )
        for s in SIDES:
            st[f"border_{s}_width"] = U(f"border_{s}_width", lo=0)
            st[f"padding_{s}"] = U(f"padding_{s}", lo=0)
            if margins is None or s in margins:
                st[f"margin_{s}"] = mk.lazy(f"margin_{s}", [c.AUTO, lambda s=s: U(f"margin_{s}")])
            else:
                st[f"margin_{s}"] = mk.irrelevant(f"margin_{s}")
        st.update(style(mk, c, U) if style else {})
        rest, joint = any_style(mk, lib, ""), []

        def any_(name):
            # offsets, where the contract does not depend on them: none or all
            # (every combination: the relative offset contracts)
            if name not in SIDES:
                return rest(name)
            if not joint:
                joint.append(mk.choice("offsets", ["none", "all"]))
            return U(name) if joint[0] == "all" else c.AUTO

        self.style = VStyle(vc_any=any_, **st)
        self.node = VNode("node", self.style, VIntrinsic(vc_any=any_intrinsic(mk, ""), **(intrinsic or dict(is_replaced=False))))
        self.viewport = VViewport(self.display, self.node)
        if cb == "node":
            self.cb = VNode("cb", VStyle(vc_any=any_style(mk, lib, "parent.")), VIntrinsic(vc_any=any_intrinsic(mk, "parent.")))
            self.cb.layout = any_box(mk, lib, self.cb, "cb")
            self.node.parent = self.cb
            self.viewport.children = [self.cb]
            cbb = self.cb.layout
            self.origin = (
                peek(lib, cbb, "_origin_top") + peek(lib, cbb, "content_top"),
                peek(lib, cbb, "_origin_left") + peek(lib, cbb, "content_left"),
            )
            mk.track(cb=self.cb, cbbox=cbb)
            self.cbpre = snapshot(lib, cbb)
        else:
            self.cb = self.viewport
            self.origin = (0, 0)
            self.cbpre = None
        self.cw, self.ch = self.cb.layout.content_width, self.cb.layout.content_height
        if prebox:
            self.node.layout = new_box(lib, self.node)
            poke(lib, self.node.layout, _origin_top=self.origin[0], _origin_left=self.origin[1])
            mk.track(box=self.node.layout)
        mk.track(node=self.node, display=self.display, font=self.font, viewport=self.viewport)
        self.initial = new_box(lib, VNode("initial", None)).__dict__
        self.named = []
        self.clean = prebox
        self.hcalls = self.wcalls = self.reccalls = 0
        self.cw_seen = []

    # -- pixel values --------------------------------------------------------------
    def h(self):
        return dict(display=self.display, font=self.font, size=self.cw)

    def v(self):
        return dict(display=self.display, font=self.font, size=self.ch)

    def px(self, v, ctx=None):
        if v is self.c.AUTO:
            return v
        return v.px(**(ctx or self.h()))

    # -- children -------------------------------------------------------------------
    def child(self, name, shown=None, displays=BLOCKS, concrete=False, pre=False):
        mk, lib, c = self.mk, self.lib, self.c
        if shown is None:
            shown = mk.choice(f"{name}.shown", [True, False])
        opts = [getattr(c, d) for d in displays] if shown else [None]
        n = VNode(name, ChildStyle(vc_any=any_style(mk, lib, f"{name}.", lengths=False)),
                  VIntrinsic(is_replaced=False, vc_any=any_intrinsic(mk, f"{name}.")), opaque=True)
        n.style.display = mk.lazy(f"{name}.display", opts) if len(opts) > 1 else opts[0]
        n.parent = self.node
        n.vc_laid = False
        n.vc_block = displays == BLOCKS
        n.vc_shown = shown
        # what is known of the box before the child is laid out: that it has been reset (or was
        # never created) -- tracked as ghost state; reading it is unsupported
        if pre:
            def initial():
                b = self.node.layout
                if b is None or not (self.clean or getattr(self.node, "vc_subtree_clean", False)):
                    return any_box(mk, lib, n, f"{name}.stale")
                nb = new_box(lib, n)
                poke(lib, nb,
                     _origin_top=peek(lib, b, "_origin_top") + peek(lib, b, "content_top"),
                     _origin_left=peek(lib, b, "_origin_left") + peek(lib, b, "content_left"))
                return nb

            n.layout = mk.lazy(f"{name}.prebox", [None, lambda: initial()])
        else:
            n.layout = E.Poison(f"{name}.layout before the child is laid out")
        if concrete:
            n.layout = None
            if mk.choice(f"{name}.box", [True, False]):
                n.layout = new_box(lib, n)
                b = self.node.layout
                if b is not None:
                    poke(lib, n.layout,
                         _origin_top=peek(lib, b, "_origin_top") + peek(lib, b, "content_top"),
                         _origin_left=peek(lib, b, "_origin_left") + peek(lib, b, "content_left"))
                else:
                    # left over from an earlier layout
                    n.layout = any_box(mk, lib, n, f"{name}.stale")
        return n

    def seg(self, name, **k):
        """Zero or more children: before they are laid out, or (ghost flag) after."""

        def make():
            n = self.child(name, **k)
            n.vc_seg = s
            if s.laid:
                self.effect(n)
            return n

        def done():
            n = self.child(name, **k)
            self.effect(n)
            return n

        s = Seg(name, make)
        s.make_done = done
        return s

    def one(self, name, **k):
        n = self.child(name, **k)
        self.named.append(n)
        self.mk.track(**{name: n})
        if not unknown(n) and n.layout is not None:
            self.mk.track(**{name + ".box": n.layout})
        return n

    def kids(self, *items):
        self.node.set_children(VCList(items))

    # -- contracts used at call sites ---------------------------------------------
    def effect(self, ch):
        mk, lib = self.mk, self.lib
        ch.vc_laid = True
        if not ch.vc_shown:
            d = HOOKS.attr(ch.style, "display")
            if d is None:
                ch.layout = None
                return
        b = new_box(lib, ch) if unknown(ch) or ch.layout is None else ch.layout
        pb = self.node.layout
        vals = {}
        for f in FIELDS:
            if f == "dirty":
                vals[f] = True
            elif f.startswith(("collapse", "padding", "border")):
                vals[f] = mk.num(f"{ch.name}.{f}", "px", lo=0)
            elif f == "content_top":
                continue
            elif not f.startswith("_origin"):
                vals[f] = mk.num(f"{ch.name}.{f}", "px")
        ch.vc_shift = mk.num(f"{ch.name}.shift", "px")
        vals["content_top"] = vals["border_top_width"] + vals["padding_top"] + ch.vc_shift
        for a in ("top", "left"):
            vals[f"_origin_{a}"] = peek(lib, pb, f"_origin_{a}") + peek(lib, pb, f"content_{a}")
        poke(lib, b, **vals)
        ch.layout = b
        ch.vc_after = snapshot(lib, b)

    def rec(self, display, node, containing_block, viewport, font):
        mk, lib = self.mk, self.lib
        ens = mk.ensure
        self.reccalls += 1
        ch = node
        if ch is self.node:
            raise E.Unsupported("layout_box called on the same node")
        ens("a child is laid out for the same display, viewport and font",
            display is self.display and viewport is self.viewport and font is self.font)
        ens("a child's containing block is its parent", containing_block is self.node)
        if not isinstance(ch, VNode):
            raise E.Unsupported("layout of an anonymous box")
        ens("a child is laid out once", not ch.vc_laid)
        if getattr(ch, "vc_seg", None) is not None:
            p = E.cur()
            for lid, piece in p.active:
                if piece.root is ch.vc_seg:
                    done = p.ex.loop_types.setdefault(("processed",), set())
                    if lid not in done:
                        done.add(lid)
                        p.ex.dirty = True
        ens("a child's subtree is in its initial state when it is laid out",
            self.clean or getattr(self.node, "vc_subtree_clean", False))
        if not unknown(ch) and ch.layout is not None:
            pb = self.node.layout
            for k, v in self.initial.items():
                if k == "node":
                    continue
                stt = storage(lib)
                if k in (stt["_origin_top"], stt["_origin_left"]):
                    a = "top" if k == stt["_origin_top"] else "left"
                    v = peek(lib, pb, f"_origin_{a}") + peek(lib, pb, f"content_{a}")
                    ens("a child starts at its parent's absolute content position", mk.eq(ch.layout.__dict__.get(k), v))
                else:
                    ens(f"a child starts from the initial state ({k})", mk.eq(ch.layout.__dict__.get(k), v))
        self.cw_seen.append((self.node.layout.content_width,))
        self.effect(ch)

    def W(self, node, context):
        mk, lib = self.mk, self.lib
        self.wcalls += 1
        if node is not self.node:
            raise E.Unsupported("width calculation of another node")
        mk.ensure("the width is calculated for the containing block's width",
                  context["display"] is self.display and context["font"] is self.font and mk.eq(context["size"], self.cw))
        b = node.layout
        p = E.cur()
        for k in ("margin_left", "margin_right", "content_width"):
            p.writes.append((b, storage(lib)[k]))
            poke(lib, b, **{k: mk.num(f"W.{k}", "px")})
        for k in ("collapse_left", "collapse_right"):
            p.writes.append((b, storage(lib)[k]))
            poke(lib, b, **{k: mk.num(f"W.{k}", "px", lo=0)})
        b.content_left = mk.num("W.content_left", "px")
        self.after_w = (b.content_left,)

    def H(self, node, context):
        mk, lib, c = self.mk, self.lib, self.c
        self.hcalls += 1
        if node is not self.node:
            raise E.Unsupported("height calculation of another node")
        mk.ensure("the height is calculated for the containing block's height",
                  context["display"] is self.display and context["font"] is self.font and mk.eq(context["size"], self.ch))
        b = node.layout
        p = E.cur()
        for k in ("margin_top", "margin_bottom"):
            v = peek(lib, b, k)
            if v is c.AUTO or isinstance(v, E.Poison):
                p.writes.append((b, storage(lib)[k]))
                poke(lib, b, **{k: 0 if v is c.AUTO else mk.num(f"H.{k}", "px")})
        cb0 = peek(lib, b, "collapse_bottom")
        n = mk.num("H.collapse_bottom", "px", lo=0)
        mk.assume(n >= cb0)
        p.writes += [(b, storage(lib)["collapse_bottom"]), (b, storage(lib)["content_height"])]
        poke(lib, b, collapse_bottom=n, content_height=mk.num("H.content_height", "px"))
        mt = b.margin_top if node.style.display is c.INLINE else 0
        b.content_top = b.content_top + mt + b.border_top_width + b.padding_top

    def H0(self, node, context):
        """The height before any child has been laid out: every child box is in its initial
        state (no extent, no margins), so the contract of the height calculation
        (props/height.py) leaves only the node's own margins and edges."""
        mk, lib, c = self.mk, self.lib, self.c
        if self.reccalls or node is not self.node:
            return self.real_h(node, context)
        if not (self.clean or getattr(self.node, "vc_subtree_clean", False)):
            raise E.Unsupported("height calculated over boxes left over from an earlier layout")
        mk.ensure("the height is calculated for the containing block's height",
                  context["display"] is self.display and context["font"] is self.font and mk.eq(context["size"], self.ch))
        b = node.layout
        for k in ("margin_top", "margin_bottom"):
            if peek(lib, b, k) is c.AUTO:
                setattr(b, k, 0)
        E.cur().writes.append((b, storage(lib)["content_height"]))
        poke(lib, b, content_height=mk.num("H0.content_height", "px"))
        b.content_top = b.content_top + b.border_top_width + b.padding_top

    # -- run ------------------------------------------------------------------------
    def run(self, stub_w=True, stub_h=True):
        mk, lib = self.mk, self.lib
        P = ["display", "node", "containing_block", "viewport", "font"]
        if not mk.stub("engine.layout_box", self.rec, P):
            raise E.Unsupported("layout_box has other parameters")
        if stub_w:
            mk.stub("engine.calculate_width_and_margins", self.W, ["node", "context"])
        if stub_h == "first":
            self.real_h = lib.get("engine.calculate_height_and_margins")
            mk.stub("engine.calculate_height_and_margins", self.H0, ["node", "context"])
        elif stub_h:
            mk.stub("engine.calculate_height_and_margins", self.H, ["node", "context"])
        block_level = lib.engine.__dict__.get("is_block_level_element")

        def is_block(node):
            # contract (props/dispatch.py): exactly for block, list-item and table displays
            if isinstance(node.style.__dict__.get("display"), E.Lazy) and getattr(node, "vc_block", False) and node.vc_shown:
                return True
            return block_level(node)

        mk.stub("engine.is_block_level_element", is_block, ["node"])
        with use_box_contracts(mk, lib):
            st, r = mk.call(self.real, self.display, self.node, self.cb, self.viewport, self.font)
        mk.ensure("the layout of a box completes", st == "ok", repr(r) if not isinstance(r, BaseException) else f"{type(r).__name__}: {r}")
        if st != "ok":
            return False
        if self.cbpre is not None:
            post = snapshot(lib, self.cb.layout)
            for k in FIELDS:
                mk.ensure(f"the containing block's {k} is not touched", mk.eq(self.cbpre[k], post[k]))
        self.box = self.node.layout
        mk.ensure("a displayed node has a box", self.box is not None)
        if self.box is None:
            return False
        mk.ensure("the box stays attached to its node", self.box.node is self.node)
        mk.ensure(
            "the box's origin is the containing block's absolute content position",
            mk.and_(mk.eq(peek(lib, self.box, "_origin_top"), self.origin[0]),
                    mk.eq(peek(lib, self.box, "_origin_left"), self.origin[1])),
        )
        for (w,) in self.cw_seen:
            mk.ensure("children are laid out against the final content width", mk.eq(w, self.box.content_width))
        return True

    def edges(self):
        mk, b = self.mk, self.box
        for s in SIDES:
            for f in (f"border_{s}_width", f"padding_{s}"):
                mk.ensure(f"{f.replace('_', ' ')} is the declared size, relative to the container's width",
                          mk.eq(getattr(b, f), self.px(getattr(self.style, f))))

    def shift(self):
        """The relative offset (left, top)."""
        c, s = self.c, self.style
        left = top = 0
        if s.position is c.RELATIVE:
            if s.left is not c.AUTO:
                left = self.px(s.left)
            elif s.right is not c.AUTO:
                left = -self.px(s.right)
            if s.top is not c.AUTO:
                top = self.px(s.top, self.v())
            elif s.bottom is not c.AUTO:
                top = -self.px(s.bottom, self.v())
        return left, top

    def declared_margins(self):
        return {s: self.px(getattr(self.style, f"margin_{s}")) for s in SIDES}


# -- C01 / C02: horizontal ------------------------------------------------------------
def pre_dict(sc, sides=SIDES):
    out = {}
    for s in SIDES:
        out[f"border_{s}_width"] = sc.px(getattr(sc.style, f"border_{s}_width"))
        out[f"padding_{s}"] = sc.px(getattr(sc.style, f"padding_{s}"))
    for s in sides:
        out[f"margin_{s}"] = sc.px(getattr(sc.style, f"margin_{s}"))
    return out


def horizontal(cb, prebox, position):
    def contract(mk, lib):
        sc = Scene(mk, lib, cb, prebox, ("BLOCK", "LIST_ITEM", "TABLE"), (position,), ("left", "right"),
                   style=lambda mk, c, U: sizes(mk, c, lib))
        sc.kids(sc.seg("any"))
        if not sc.run(stub_w=False):
            return
        block_width_post(mk, lib, "block width", sc.style, sc.cw, lambda u: sc.px(u), pre_dict(sc, ("left", "right")), sc.box, sc.shift()[0])
        sc.edges()

    return contract


def horizontal_inline(cb, prebox, replaced):
    def contract(mk, lib):
        it = dict(is_replaced=replaced, **intr(mk))
        sc = Scene(mk, lib, cb, prebox, ("INLINE",), ("STATIC", "RELATIVE"), ("left", "right"),
                   style=lambda mk, c, U: dict(
                       width=mk.lazy("width", [c.AUTO, lambda: U("width")]),
                       height=mk.lazy("height", [c.AUTO, lambda: U("height")])),
                   intrinsic=it)
        sc.kids(sc.seg("any", displays=("INLINE",)))
        if not sc.run(stub_w=False):
            return
        pre = pre_dict(sc, ("left", "right"))
        ml, mr = pre["margin_left"], pre["margin_right"]
        if replaced:
            inline_replaced_width_post(mk, lib, sc.style, sc.node.intrinsic, sc.h(), ml, mr, pre, sc.box, sc.shift()[0])
        else:
            mk.ensure("inline: auto margin-left is 0", mk.eq(sc.box.margin_left, zero_auto(mk, sc.c.AUTO, ml)))
            mk.ensure("inline: auto margin-right is 0", mk.eq(sc.box.margin_right, zero_auto(mk, sc.c.AUTO, mr)))
            mk.ensure("inline: the width is the intrinsic width", same(mk, sc.box.content_width, sc.node.intrinsic.width))
        sc.edges()

    return contract


def vertical_inline(cb, prebox, replaced):
    def contract(mk, lib):
        it = dict(is_replaced=replaced, **intr(mk))
        if not replaced:
            it["height"] = mk.num("intrinsic.height", "num", lo=0)
        sc = Scene(mk, lib, cb, prebox, ("INLINE",), ("STATIC", "RELATIVE"), ("top", "bottom"),
                   style=lambda mk, c, U: dict(
                       width=mk.lazy("width", [c.AUTO, lambda: U("width")]),
                       height=mk.lazy("height", [c.AUTO, lambda: U("height")])),
                   intrinsic=it)
        sc.kids(sc.seg("any", displays=("INLINE",)))
        if not sc.run(stub_h=False):
            return
        b = sc.box
        pre = pre_dict(sc, ("top", "bottom"))
        top = zero_auto(mk, sc.c.AUTO, pre["margin_top"])
        mk.ensure("inline: auto margin-top is 0", mk.eq(b.margin_top, top))
        mk.ensure("inline: auto margin-bottom is 0", mk.eq(b.margin_bottom, zero_auto(mk, sc.c.AUTO, pre["margin_bottom"])))
        if replaced:
            inline_replaced_height_post(mk, lib, sc.style, sc.node.intrinsic, sc.v(), b)
        else:
            mk.ensure("inline: the height is the intrinsic height", same(mk, b.content_height, sc.node.intrinsic.height))
        d = top + pre["border_top_width"] + pre["padding_top"]
        mk.ensure("inline: content starts below the top margin, border and padding", edges_once(mk, sc, b.content_top, d, sc.shift()[1]))
        sc.edges()

    return contract


# -- C03: vertical ----------------------------------------------------------------------
def vertical(kids, cb, prebox, position):
    def contract(mk, lib):
        # a relative box calculates its height before its children are laid out as well
        pre = position == "RELATIVE"
        sc = Scene(mk, lib, cb, prebox, BLOCKS, (position,), ("top", "bottom"),
                   style=lambda mk, c, U: dict(
                       height=mk.lazy("height", [c.AUTO, lambda: U("height")]),
                       min_height=mk.lazy("min_height", [c.AUTO, lambda: U("min_height")]),
                       max_height=mk.lazy("max_height", [None, lambda: U("max_height")])))
        last = None
        if kids == "none":
            sc.kids(sc.seg("hidden", shown=False, pre=pre))
        else:
            last = sc.one("last", shown=True)
            sc.kids(sc.seg("any"), last, sc.seg("hidden", shown=False))
        if not sc.run(stub_h="first" if pre and last is not None else False):
            return
        c, b, style = sc.c, sc.box, sc.style
        pre = pre_dict(sc, ("top", "bottom"))
        mb = zero_auto(mk, c.AUTO, pre["margin_bottom"])
        mk.ensure("block: margin-top is as declared (auto is 0)", mk.eq(b.margin_top, zero_auto(mk, c.AUTO, pre["margin_top"])))
        mk.ensure("block: margin-bottom is as declared (auto is 0)", mk.eq(b.margin_bottom, mb))
        block_height_post(mk, sc, last, pre, mb)
        d = pre["border_top_width"] + pre["padding_top"]
        mk.ensure("block: content starts below the top border and padding", edges_once(mk, sc, b.content_top, d, sc.shift()[1]))
        sc.edges()

    return contract


def edges_once(mk, sc, v, d, shift=0):
    """v is d plus the relative shift; the known finding relative-double-edges (d counted
    twice for relatively positioned boxes) is tolerated."""
    if sc.style.position is sc.c.RELATIVE:
        return mk.or_(mk.eq(v, d + shift), mk.eq(v, 2 * d + shift))
    return mk.eq(v, d + shift)


def block_height_post(mk, sc, last, pre, mb):
    c, b, style = sc.c, sc.box, sc.style
    h = b.content_height
    own = mk.max(mb, 0)
    if style.height is c.AUTO:
        if last is not None:
            lb = last.layout
            sep = mk.or_(mk.not_(mk.eq(pre["border_bottom_width"], 0)), mk.not_(mk.eq(pre["padding_bottom"], 0)))
            edge = lb.content_top + lb.content_height + lb.padding_bottom + lb.border_bottom_width
            mk.ensure("auto height ends at the last child's border box, or at its margin if a border or padding separates them",
                      # or where that edge would be without the relative shift of the child
                      # (known finding relative-shift-height)
                      mk.or_(mk.eq(h, edge + mk.ite(sep, lb.collapse_bottom, 0)),
                             mk.eq(h, edge - last.vc_shift + mk.ite(sep, lb.collapse_bottom, 0))))
            mk.ensure("the last child's bottom margin collapses with the node's unless separated",
                      mk.eq(b.collapse_bottom, mk.ite(sep, own, mk.max(own, lb.collapse_bottom))))
            return
        want = 0 if style.min_height is c.AUTO else sc.px(style.min_height, sc.v())
        mk.ensure("auto height without displayed children is min-height or 0", mk.eq(h, want))
    else:
        ctx = sc.v()
        if sc.node.parent is not None and sc.node.parent.style.height is not c.AUTO:
            ctx = dict(ctx, size=sc.px(sc.node.parent.style.height, sc.v()))
        want = sc.px(style.height, ctx)
        if style.max_height is not None:
            want = mk.min(want, sc.px(style.max_height, sc.v()))
        mk.ensure("declared height, limited by max-height", mk.eq(h, want))
    mk.ensure("the bottom margin extent is the node's own margin", mk.eq(b.collapse_bottom, own))


# -- C04: stacking -------------------------------------------------------------------------
def first_child(cb, prebox):
    def contract(mk, lib):
        sc = Scene(mk, lib, cb, prebox, ("BLOCK", "LIST_ITEM"), ("STATIC", "RELATIVE"), ("top",))
        f = sc.one("first", shown=True)
        sc.kids(sc.seg("hidden", shown=False), f, sc.seg("any"))
        if not sc.run():
            return
        b, fb = sc.box, f.layout
        pre = pre_dict(sc, ("top",))
        mk.ensure("the first displayed child is laid out", f.vc_laid and fb is not None)
        if fb is None or not f.vc_laid:
            return
        adj = mk.and_(mk.eq(pre["border_top_width"], 0), mk.eq(pre["padding_top"], 0))
        own = mk.max(zero_auto(mk, sc.c.AUTO, pre["margin_top"]), 0)
        ct = f.vc_after["collapse_top"]
        mk.ensure("the first child's top margin collapses with its parent's unless a border or padding separates them",
                  mk.eq(b.collapse_top, mk.ite(adj, mk.max(own, ct), own)))
        mk.ensure("the first child starts at the parent's content top, or below its own margin if separated",
                  mk.eq(fb.content_top - fb.padding_top - fb.border_top_width - f.vc_shift, mk.ite(adj, 0, ct)))
        unchanged_child(mk, lib, f)

    return contract


def unchanged_child(mk, lib, ch):
    post = snapshot(lib, ch.layout)
    for k in FIELDS:
        if k not in ("content_top", "_origin_top", "_origin_left"):
            mk.ensure(f"stacking leaves a child's {k} alone", mk.eq(ch.vc_after[k], post[k]))


def no_children_collapse(cb, prebox):
    def contract(mk, lib):
        sc = Scene(mk, lib, cb, prebox, ("BLOCK", "LIST_ITEM", "TABLE"), ("STATIC", "RELATIVE"), ("top",))
        sc.kids(sc.seg("hidden", shown=False))
        if not sc.run():
            return
        pre = pre_dict(sc, ("top",))
        own = mk.max(zero_auto(mk, sc.c.AUTO, pre["margin_top"]), 0)
        mk.ensure("a box without displayed children has its own top margin extent", mk.eq(sc.box.collapse_top, own))

    return contract


def stack(cb, prebox):
    def contract(mk, lib):
        sc = Scene(mk, lib, cb, prebox, ("BLOCK", "LIST_ITEM"), ("STATIC", "RELATIVE"), ("top",))
        a, bb = sc.one("above", shown=True), sc.one("below", shown=True)
        sc.kids(sc.seg("before"), a, sc.seg("hidden", shown=False), bb, sc.seg("after"))
        if not sc.run():
            return
        mk.ensure("both siblings are laid out", a.vc_laid and bb.vc_laid and a.layout is not None and bb.layout is not None)
        if not (a.vc_laid and bb.vc_laid and a.layout is not None and bb.layout is not None):
            return

        def slot(n):
            x = n.layout
            return x.content_top - x.padding_top - x.border_top_width - n.vc_shift

        x = a.layout
        height = x.border_top_width + x.padding_top + x.content_height + x.padding_bottom + x.border_bottom_width
        mk.ensure(
            "adjacent siblings are separated by the larger of the two margins",
            mk.eq(slot(bb), slot(a) + height + mk.max(a.vc_after["collapse_bottom"], bb.vc_after["collapse_top"])),
        )
        unchanged_child(mk, lib, a)
        unchanged_child(mk, lib, bb)

    return contract


# -- C05: coherence; every child is laid out ------------------------------------------------
def coherent(cb, prebox, inline):
    def contract(mk, lib):
        ds = ("INLINE",) if inline else BLOCKS
        sc = Scene(mk, lib, cb, prebox, ("BLOCK", "INLINE", "TABLE") if inline else ("BLOCK", "LIST_ITEM"),
                   ("STATIC", "RELATIVE"), (),
                   style=lambda mk, c, U: dict(left=U("left"), top=U("top")))
        w = sc.one("child", displays=ds, concrete=True)
        sc.kids(sc.seg("before", displays=ds), w, sc.seg("after", displays=ds))
        if not sc.run():
            return
        b = sc.box
        mk.ensure("every child is laid out", w.vc_laid)
        if not w.vc_shown:
            mk.ensure("a child that is not displayed has no box", w.layout is None)
            return
        mk.ensure("a displayed child has a box", w.layout is not None)
        if w.layout is None or not w.vc_laid:
            return
        for a in ("top", "left"):
            mk.ensure(
                f"a child's absolute {a} is its parent's absolute content {a} plus its own relative {a}",
                mk.and_(
                    mk.eq(peek(lib, w.layout, f"_origin_{a}"), getattr(b, f"absolute_content_{a}")),
                    mk.eq(getattr(w.layout, f"absolute_content_{a}"),
                          getattr(b, f"absolute_content_{a}") + getattr(w.layout, f"content_{a}")),
                ),
            )
        unchanged_child(mk, lib, w)
        if inline:
            mk.ensure("inline children keep their own position", mk.eq(w.layout.content_top, w.vc_after["content_top"]))

    return contract


# -- C08: relative positioning -----------------------------------------------------------------
def relative(cb, prebox, position, inline):
    def contract(mk, lib):
        def off(mk, c, U):
            return {s: mk.lazy(s, [c.AUTO, lambda s=s: U(s)]) for s in SIDES}

        sc = Scene(mk, lib, cb, prebox, ("INLINE",) if inline else ("BLOCK", "LIST_ITEM"), (position,), ("top",), style=off)
        k = dict(displays=("INLINE",)) if inline else {}
        w = sc.one("child", shown=True, **k)
        sc.kids(sc.seg("before", **k), w, sc.seg("after", **k))
        if not sc.run():
            return
        b, s = sc.box, sc.style
        left, top = sc.shift()
        if not sc.wcalls:
            raise E.Unsupported("the width calculation is not where the contract expects it")
        mk.ensure("left or right moves a relative box horizontally, and only it", mk.eq(b.content_left, sc.after_w[0] + left))
        d = sc.px(s.border_top_width) + sc.px(s.padding_top)
        if inline:
            d = d + b.margin_top
        mk.ensure("top or bottom moves a relative box vertically, and only it", edges_once(mk, sc, b.content_top, d, top))
        mk.ensure("children move with the box", mk.eq(peek(lib, w.layout, "_origin_top"), b.absolute_content_top))

    return contract


# -- C18: not displayed ------------------------------------------------------------------------
def hidden(cb, prebox):
    def contract(mk, lib):
        sc = Scene(mk, lib, cb, prebox, ("BLOCK",), ("STATIC", "RELATIVE"), ())
        sc.style.display = None
        w = sc.one("child")
        sc.kids(sc.seg("before"), w, sc.seg("after"))
        P = ["display", "node", "containing_block", "viewport", "font"]
        mk.stub("engine.layout_box", sc.rec, P)
        st, r = mk.call(sc.real, sc.display, sc.node, sc.cb, sc.viewport, sc.font)
        mk.ensure("laying out a node that is not displayed completes", st == "ok", repr(r))
        mk.ensure("a node that is not displayed has no box", sc.node.layout is None)
        if sc.cbpre is not None:
            post = snapshot(lib, sc.cb.layout)
            for k in FIELDS:
                mk.ensure(f"a node that is not displayed leaves its container's {k} alone", mk.eq(sc.cbpre[k], post[k]))

    return contract


def family(name, builder, functions, params, shards=True, **kw):
    out = []
    for cb in ("node", "viewport"):
        for pb in (True, False):
            for p in params:
                label = f"{name} [{'in a container' if cb == 'node' else 'root'}, {'box' if pb else 'no box'}{', ' + str(p[-1]) if p else ''}]"
                args = p[:-1]
                out.append(Contract(label, builder(*_order(builder, args, cb, pb)), functions, native_ok=False, **dict(dict(weight=10), **kw)))
    return out


def _order(builder, args, cb, pb):
    import inspect

    names = list(inspect.signature(builder).parameters)
    rest = list(args)
    out = []
    for n in names:
        out.append(cb if n == "cb" else pb if n == "prebox" else rest.pop(0))
    return out


W_FUNCS = ENGINE + ["engine.calculate_size", "engine.calculate_width_and_margins"]
HORIZONTAL = family("layout_box: block width", horizontal,
                    W_FUNCS + ["engine.calculate_block_non_replaced_normal_flow_width"],
                    [("STATIC", "static"), ("RELATIVE", "relative")])
HORIZONTAL_INLINE = family("layout_box: inline width", horizontal_inline,
                           W_FUNCS + ["engine.calculate_inline_non_replaced_width", "engine.calculate_inline_replaced_width"],
                           [(True, "replaced"), (False, "non-replaced")])
H_FUNCS = ENGINE + ["engine.calculate_size", "engine.calculate_height_and_margins"]
VERTICAL_INLINE = family("layout_box: inline height", vertical_inline,
                         H_FUNCS + ["engine.calculate_inline_non_replaced_height", "engine.calculate_inline_replaced_height"],
                         [(True, "replaced"), (False, "non-replaced")])
VERTICAL = family("layout_box: block height", vertical,
                  H_FUNCS + ["engine.calculate_block_non_replaced_normal_flow_height"],
                  [(k, p, f"{kn}, {p.lower()}") for k, kn in (("none", "no displayed children"), ("some", "any displayed children"))
                   for p in ("STATIC", "RELATIVE")])
STACK_FUNCS = ENGINE + ["engine.anonymize", "engine.establishes_inline_formatting_context"]
FIRST = family("layout_box: first child", first_child, STACK_FUNCS, [()])
NOKIDS = family("layout_box: top margin, no displayed children", no_children_collapse, STACK_FUNCS, [()])
STACK = family("layout_box: adjacent siblings", stack, STACK_FUNCS, [()])
COHERENT = family("layout_box: coherent positions", coherent, STACK_FUNCS, [(False, "block children"), (True, "inline children")])
RELATIVE = family("layout_box: relative offset", relative, ENGINE, [(p, i, f"{p.lower()}, {'inline' if i else 'block'}") for p in ("STATIC", "RELATIVE") for i in (False, True)])
HIDDEN = family("layout_box: not displayed", hidden, ENGINE, [()])
CONTRACTS = HORIZONTAL + HORIZONTAL_INLINE + VERTICAL_INLINE + VERTICAL + FIRST + NOKIDS + STACK + COHERENT + RELATIVE + HIDDEN
