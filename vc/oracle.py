"""Bounded complement of the layout contracts: random documents through the public API.

A document is a JSON-able spec; it is built with CSS(), Box, Size and layout() of the
untouched package, laid out, and every box is checked against the postconditions of the
layout contracts, recomputed from the declared styles and the final boxes of its parent,
children and siblings.  It never decides that a property holds: it supplies failing inputs
for failed obligations, and stands in (labelled bounded) where a proof is incomplete.
"""

import random

SIDES = ("top", "right", "bottom", "left")
TOL = 1e-6


class Bad(Exception):
    def __init__(self, prop, what, where, got=None, want=None):
        super().__init__(f"{what} at {where}: got {got!r}, expected {want!r}")
        self.prop, self.what, self.where, self.got, self.want = prop, what, where, got, want


class Display:
    def __init__(self, dpi, w, h):
        self.dpi, self.content_width, self.content_height = dpi, w, h

    def fixed_size(self, v):
        return {"thin": 1, "medium": 5, "thick": 10}[v]


class Node:
    def __init__(self, lib, name, spec, parent=None, box=True):
        self.name = name
        self.parent = parent
        self.children = []
        self.spec = spec
        self.intrinsic = lib.dimensions.Size(self)
        self.layout = lib.dimensions.Box(self) if box else None
        self.style = lib.declaration.CSS()
        self.style._node = self
        for k, v in spec.get("intrinsic", {}).items():
            setattr(self.intrinsic, k, v)
        for k, v in spec["style"].items():
            try:
                self.style[k] = value(lib, v)
            except ValueError:
                if k not in NO_EFFECT:
                    raise
        for i, c in enumerate(spec.get("children", ())):
            self.children.append(Node(lib, f"{name}.{i}", c, self, box))

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()


def value(lib, v):
    if isinstance(v, (list, tuple)):
        n, u = v
        return n * getattr(lib.units, u)
    return v


def boxed(n):
    """n and its descendants, down to the nodes without a box."""
    if n.layout is not None:
        yield n
        for c in n.children:
            yield from boxed(c)


def shown(n):
    return n.style.display is not None


NO_EFFECT = dict(
    visibility=["hidden", "collapse", "visible"], overflow=["hidden", "scroll", "auto"], z_index=[0, 1, -1, "auto"],
    clear=["left", "both"], unicode_bidi=["embed"], text_align=["left", "right", "center"], white_space=["pre", "nowrap"],
    border_top_style=["solid", "hidden"], border_bottom_style=["solid", "none"], border_left_style=["dotted"], border_right_style=["hidden"],
    color=["red"], border_collapse=["collapse"], border_spacing=["5px", "1px 2px"], caption_side=["bottom"], empty_cells=["hide"], table_layout=["fixed"],
    text_indent=[[7, "px"], [-3, "px"]], letter_spacing=[[2, "px"]], word_spacing=[[3, "px"]], page_break_before=["always"], page_break_after=["avoid"],
    page_break_inside=["avoid"], orphans=[0, 5], widows=[1], outline_width=["thick"], outline_style=["solid"], background_color=["blue"],
)

# -- generation ----------------------------------------------------------------------
class Gen:
    def __init__(self, rng, pool=()):
        self.r = rng
        self.pool = [x for x in pool if isinstance(x, (int, float)) and abs(x) < 1e6]

    def n(self, neg=False):
        r = self.r
        m = r.random()
        if self.pool and m < 0.25:
            x = r.choice(self.pool)
            x = x if neg else abs(x)
        elif m < 0.5:
            x = r.choice([1, 2, 3, 4, 5, 7, 10, 12, 15, 20, 30, 33, 50, 100])
        elif m < 0.9:
            x = r.randint(1, 200)
        else:
            x = r.randint(1, 6400) / 64
        if neg and r.random() < 0.3:
            x = -x
        return x

    def length(self, neg=False, zero=0.1):
        r = self.r
        if r.random() < zero:
            return [0, "px"]
        u = r.choice(["px"] * 6 + ["percent"] * 3 + ["pt", "vw", "vh", "vmin", "vmax"])
        x = self.n(neg)
        if u == "percent" and r.random() < 0.8:
            x = r.choice([1, 5, 10, 12.5, 25, 33, 50, 75, 100, -10 if neg else 10])
        if u.startswith("v"):
            x = r.choice([0.5, 1, 2, 5, 10])
        return [x, u]

    def style(self, kind):
        r = self.r
        s = {}
        full = r.random()
        for side in SIDES:
            if r.random() < 0.5:
                s[f"margin_{side}"] = "auto" if r.random() < 0.25 else self.length(neg=True)
            if r.random() < 0.35:
                s[f"padding_{side}"] = self.length()
            if r.random() < 0.35:
                s[f"border_{side}_width"] = r.choice(["thin", "medium", "thick", self.length(), self.length()])
        if r.random() < 0.45:
            s["width"] = self.length()
        if r.random() < 0.3:
            s["height"] = self.length()
        if r.random() < 0.25:
            s["max_width"] = self.length()
        if r.random() < 0.25:
            s["min_width"] = self.length()
        if r.random() < 0.25:
            s["max_height"] = self.length()
        if r.random() < 0.25:
            s["min_height"] = self.length()
        if r.random() < 0.25:
            s["direction"] = r.choice(["rtl", "ltr"])
        if r.random() < 0.25:
            s["position"] = r.choice(["relative", "relative", "static"])
        for side in SIDES:
            if r.random() < 0.25:
                s[side] = self.length(neg=True)
        if r.random() < 0.3:
            # properties that have no effect on layout
            for _ in range(r.choice([1, 1, 2, 5])):
                p = r.choice(list(NO_EFFECT))
                s[p] = r.choice(NO_EFFECT[p])
        return s

    def node(self, depth, kind=None, hide=0.12):
        r = self.r
        if kind is None:
            kind = "block"
        spec = {"style": self.style(kind), "children": []}
        if r.random() < hide:
            spec["style"]["display"] = "none"
        elif kind == "block":
            spec["style"]["display"] = r.choice(["block"] * 6 + ["list-item", "table"])
        else:
            spec["style"]["display"] = "inline"
        spec["is_inline"] = kind == "inline"
        repl = kind == "inline" and r.random() < 0.4
        if kind == "inline":
            it = {}
            if repl:
                it["is_replaced"] = True
                if r.random() < 0.5:
                    it["width"] = r.choice([0, r.randint(1, 300)])
                if r.random() < 0.5:
                    it["height"] = r.choice([0, r.randint(1, 300)])
                if r.random() < 0.5:
                    it["ratio"] = r.choice([0.5, 1, 1.5, 2.0, 0.75])
            else:
                it["width"] = r.randint(0, 300)
                it["height"] = r.randint(0, 100)
            spec["intrinsic"] = it
        elif r.random() < 0.2:
            # the intrinsic size of a block that is not replaced has no effect
            spec["intrinsic"] = {q: r.choice([0, 1, 50, 500]) for q in ("width", "height", "ratio") if r.random() < 0.6}
        if depth > 0 and not repl and r.random() < 0.85:
            k = r.choice([0, 1, 1, 2, 2, 3, 4])
            ck = "inline" if kind == "inline" or r.random() < 0.15 else "block"
            spec["children"] = [self.node(depth - 1, ck) for _ in range(k)]
        return spec

    def document(self):
        r = self.r
        return {
            "display": [r.choice([96, 96, 72, 120]), r.choice([640, 1024, 300, self.r.randint(1, 2000)]),
                        r.choice([480, 768, 200, self.r.randint(1, 2000)])],
            "standard": r.choice(["html5", "html4", None]),
            "boxes": r.random() < 0.7,
            "root": self.node(r.choice([1, 2, 3]), "inline" if r.random() < 0.08 else None, hide=0.03),
        }


# -- laying out -------------------------------------------------------------------------
def build(lib, doc):
    return Display(*doc["display"]), Node(lib, "root", doc["root"], None, doc.get("boxes", True))


def run(lib, display, root, doc):
    std = doc.get("standard")
    if std is None:
        lib.engine.layout(display, root)
    else:
        lib.engine.layout(display, root, std)


FIELDS = (
    ["content_width", "content_height", "content_top", "content_left"]
    + [f"margin_{s}" for s in SIDES]
    + [f"collapse_{s}" for s in SIDES]
    + [f"padding_{s}" for s in SIDES]
    + [f"border_{s}_width" for s in SIDES]
    + [f"absolute_{k}_{s}" for k in ("content", "padding_box", "border_box") for s in SIDES]
)


def observe(root):
    out = {}
    for n in root.walk():
        out[n.name] = None if n.layout is None else tuple(getattr(n.layout, f) for f in FIELDS)
    return out


# -- checking ---------------------------------------------------------------------------
def eq(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or a == b
    return abs(a - b) <= TOL * (1 + abs(a) + abs(b))


class Check:
    def __init__(self, lib, display, root, doc, pre_heights=None):
        self.lib, self.display, self.root, self.doc = lib, display, root, doc
        self.font = lib.engine.DummyFont(-1) if hasattr(lib.engine, "DummyFont") else None
        self.slots = {}
        self.bad = []

    def need(self, prop, what, node, got, want, ok=None):
        if not (eq(got, want) if ok is None else ok):
            for p in (prop if isinstance(prop, tuple) else (prop,)):
                self.bad.append(Bad(p, what, node.name, got, want))

    def px(self, v, size):
        if v == "auto":
            return "auto"
        if v in ("thin", "medium", "thick"):
            return self.display.fixed_size(v)
        if v is None or (isinstance(v, (int, float)) and v == 0):
            return 0
        return v.px(display=self.display, font=self.font, size=size)

    def all(self):
        self.visit(self.root, None, True)
        return self.bad

    def visit(self, n, parent, live):
        b = n.layout
        live = live and shown(n)
        if not shown(n):
            if parent is None or live is not None:
                if parent is None or shown(parent):
                    self.need("C18", "a node that is not displayed has no box", n, b, None)
            return
        if b is None:
            self.bad.append(Bad("C18", "a displayed node has a box", n.name))
            return
        self.node(n, parent)
        for c in n.children:
            self.visit(c, n, live)

    def node(self, n, parent):
        d, s, b = self.display, n.style, n.layout
        root = parent is None
        cw = d.content_width if root else parent.layout.content_width
        # the containing block's height while n is laid out: of the viewport, or not known yet
        px = lambda v: self.px(v, cw)
        repl = n.intrinsic.is_replaced
        inline = s.display == "inline"
        block = s.display in ("block", "list-item", "table")
        ml0, mr0 = px(s.margin_left), px(s.margin_right)
        z = lambda v: 0 if v == "auto" else v
        P1 = "C02" if inline else "C01"
        P2 = "C02" if inline else "C03"
        for side in SIDES:
            self.need("C01", f"padding-{side}", n, getattr(b, f"padding_{side}"), px(getattr(s, f"padding_{side}")))
            self.need("C01", f"border-{side}-width", n, getattr(b, f"border_{side}_width"), px(getattr(s, f"border_{side}_width")))
        for side in ("top", "bottom"):
            self.need(("C01", P2), f"margin-{side}", n, getattr(b, f"margin_{side}"), z(px(getattr(s, f"margin_{side}"))))
        edges = b.border_left_width + b.padding_left + b.padding_right + b.border_right_width
        dx = dy = 0
        # vertical percentages are resolved against a height that later phases may change
        vref = self.vref(n, parent)
        if s.position == "relative":
            if s.left != "auto":
                dx = px(s.left)
            elif s.right != "auto":
                dx = -px(s.right)
            if s.top != "auto":
                dy = self.px(s.top, vref)
            elif s.bottom != "auto":
                dy = -self.px(s.bottom, vref)
        # which properties speak about the position of a box with (declared) offsets
        PX = P1 if s.left == "auto" and s.right == "auto" else ("C08", P1) if s.position != "relative" else "C08"
        ml, mr, w = b.margin_left, b.margin_right, b.content_width
        if block and not repl:
            tot = ml + edges + w + mr
            if s.width == "auto":
                self.need(P1, "auto width fills the container", n, tot, cw)
                self.need(P1, "auto width keeps margin-left", n, ml, z(ml0))
                self.need(P1, "auto width keeps margin-right", n, mr, z(mr0))
            else:
                ww = px(s.width)
                if s.max_width is not None:
                    ww = min(ww, px(s.max_width))
                if s.min_width != "auto":
                    ww = max(ww, px(s.min_width))
                self.need(P1, "declared width limited by max-width, then min-width", n, w, ww)
                over = edges + ww + z(ml0) + z(mr0) > cw + TOL
                edge_case = abs(edges + ww + z(ml0) + z(mr0) - cw) <= TOL
                if not edge_case:
                    if ml0 == "auto" and mr0 == "auto" and not over:
                        self.need(P1, "auto margins are equal", n, ml, mr)
                        self.need(P1, "auto margins fill the container", n, tot, cw, ok=-TOL <= cw - tot < 2)
                    else:
                        self.need(P1, "margins, borders, padding and width fill the container", n, tot, cw)
                        if over or (ml0 != "auto" and mr0 != "auto"):
                            if s.direction == "ltr":
                                self.need(P1, "over-constrained ltr keeps margin-left", n, ml, z(ml0))
                            else:
                                self.need(P1, "over-constrained rtl keeps margin-right", n, mr, z(mr0))
                        elif ml0 == "auto":
                            self.need(P1, "margin-right is kept", n, mr, mr0)
                        else:
                            self.need(P1, "margin-left is kept", n, ml, ml0)
            self.need(PX, "content starts after left margin, border and padding", n,
                      b.content_left, ml + b.border_left_width + b.padding_left + dx)
        elif inline:
            self.need(P1, "inline margin-left", n, ml, z(ml0))
            self.need(P1, "inline margin-right", n, mr, z(mr0))
            it = n.intrinsic
            if not repl:
                self.need(P1, "inline width is the intrinsic width", n, w, it.width)
                if not root or self.doc.get("standard") == "html4":
                    self.need(P1, "inline height is the intrinsic height", n, b.content_height, it.height)
                self.need(PX, "inline left", n, b.content_left, dx)
            else:
                if s.width != "auto":
                    want = px(s.width)
                elif s.height == "auto" and it.width is not None:
                    want = it.width
                elif s.height == "auto" and it.height is not None and it.ratio is not None:
                    want = round(it.height * it.ratio)
                elif s.height == "auto" and it.ratio is not None:
                    want = cw - ml - mr - edges
                else:
                    want = it.width if it.width is not None else 300
                self.need(P1, "inline replaced width", n, w, want)
                if s.height != "auto":
                    want = self.px(s.height, vref)
                elif s.width == "auto" and it.height is not None:
                    want = it.height
                elif it.ratio:
                    want = w * it.ratio
                elif it.height:
                    want = it.height
                else:
                    want = min(w // 2, 150)
                if not root or self.doc.get("standard") == "html4":
                    self.need(P1, "inline replaced height", n, b.content_height, want)
                self.need(PX, "inline replaced left", n, b.content_left,
                          ml + b.border_left_width + b.padding_left + dx)
        # heights
        kids = [c for c in n.children if c.layout is not None]
        own_b = max(z(px(s.margin_bottom)), 0)
        own_t = max(z(px(s.margin_top)), 0)
        if block and not repl:
            sep_b = b.border_bottom_width != 0 or b.padding_bottom != 0
            wants = None
            ebot = own_b
            if s.height == "auto":
                if kids:
                    lb = kids[-1].layout
                    base = lb.content_top + lb.content_height + lb.padding_bottom + lb.border_bottom_width
                    extra = lb.collapse_bottom if sep_b else 0
                    wants = [base + extra]
                    if kids[-1].style.position == "relative":
                        wants.append(base + extra - self.shift(kids[-1], n))
                    if not sep_b:
                        ebot = max(own_b, lb.collapse_bottom)
                else:
                    wants = [0 if s.min_height == "auto" else self.px(s.min_height, vref)]
            else:
                ref = vref
                if parent is not None and parent.style.height != "auto":
                    ref = self.px(parent.style.height, vref)
                h = self.px(s.height, ref)
                if s.max_height is not None:
                    h = min(h, self.px(s.max_height, vref))
                wants = [h]
            if root and self.doc.get("standard") != "html4":
                self.need("C04", "HTML5 root height fits the display", n, b.content_height,
                          d.content_height - b.collapse_top - b.collapse_bottom)
            elif not self.unresolved(n, parent):
                self.need(P2, "block height", n, b.content_height, wants[0], ok=any(eq(b.content_height, x) for x in wants))
            self.need("C04", "bottom margin extent", n, b.collapse_bottom, ebot)
            bfc = s.display != "table" and any(c.style.display in ("block", "list-item", "table") for c in n.children)
            sep_t = b.border_top_width != 0 or b.padding_top != 0
            etop = own_t
            if bfc and kids and not sep_t:
                etop = max(own_t, kids[0].layout.collapse_top)
            self.need("C04", "top margin extent", n, b.collapse_top, etop)
            if bfc:
                off, prev = 0, None
                for c in kids:
                    cb = c.layout
                    if prev is None:
                        off += cb.collapse_top if sep_t else 0
                    else:
                        off += max(prev, cb.collapse_top)
                    sh = self.shift(c, n)
                    top = cb.border_top_width + cb.padding_top
                    got = cb.content_top - sh - off
                    if c.style.position == "relative":
                        ok = eq(got, top) or eq(got, 2 * top)
                        self.need("C08", "relative vertical offset in the stack", c, got, top, ok=ok)
                    else:
                        offs = c.style.top != "auto" or c.style.bottom != "auto"
                        self.need(("C04", "C08") if offs else "C04", "stacking position", c, got, top)
                    off += cb.border_top_width + cb.padding_top + cb.content_height + cb.padding_bottom + cb.border_bottom_width
                    prev = cb.collapse_bottom
            else:
                self.inline_tops(n, kids)
        elif inline:
            self.inline_tops(n, kids)
        if root:
            top = b.border_top_width + b.padding_top + (b.margin_top if inline else 0)
            got = b.content_top - b.collapse_top - dy
            ok = eq(got, top) or (s.position == "relative" and eq(got, 2 * top))
            self.need("C04" if s.top == "auto" and s.bottom == "auto" else ("C08", "C04") if s.position != "relative" else "C08", "root position", n, got, top, ok=ok)
        # absolute coordinates
        ot, ol = (0, 0) if root else (parent.layout.absolute_content_top, parent.layout.absolute_content_left)
        self.need("C05", "absolute top is the container's plus the relative top", n, b.absolute_content_top, ot + b.content_top)
        self.need("C05", "absolute left is the container's plus the relative left", n, b.absolute_content_left, ol + b.content_left)
        T, L = b.content_top, b.content_left
        R, B = L + b.content_width, T + b.content_height
        geo = {"content": (T, R, B, L)}
        geo["padding_box"] = (T - b.padding_top, R + b.padding_right, B + b.padding_bottom, L - b.padding_left)
        t, r, o, l = geo["padding_box"]
        geo["border_box"] = (t - b.border_top_width, r + b.border_right_width, o + b.border_bottom_width, l - b.border_left_width)
        for k, vals in geo.items():
            for side, v in zip(SIDES, vals):
                self.need("C06", f"{k} {side}", n, getattr(b, f"{k}_{side}"), v)
                self.need("C06", f"absolute {k} {side}", n, getattr(b, f"absolute_{k}_{side}"), v + (ot if side in ("top", "bottom") else ol))

    def inline_tops(self, n, kids):
        for c in kids:
            cb = c.layout
            top = cb.border_top_width + cb.padding_top
            if c.style.display == "inline":
                top += cb.margin_top
            got = cb.content_top - self.shift(c, n)
            rel = c.style.position == "relative"
            own = "C02" if c.style.display == "inline" else "C03"
            offs = c.style.top != "auto" or c.style.bottom != "auto"
            self.need("C08" if rel else (own, "C08") if offs else own, "vertical position", c, got, top,
                      ok=eq(got, top) or (rel and eq(got, 2 * top)))

    def shift(self, c, parent):
        s = c.style
        if s.position != "relative":
            return 0
        ref = self.vref(c, parent)
        if s.top != "auto":
            return self.px(s.top, ref)
        if s.bottom != "auto":
            return -self.px(s.bottom, ref)
        return 0

    def vref(self, n, parent):
        """The container's height at the time n is laid out: the viewport's; 0 for a
        container whose height is not calculated yet; calculated twice for relative ones."""
        if parent is None:
            return self.display.content_height
        if parent.style.position == "relative":
            return self.early_height(parent)
        return 0

    def early_height(self, p):
        g = p.parent
        s = p.style
        ref = self.vref(p, g)
        if p.style.display == "inline":
            return p.intrinsic.height
        if s.height == "auto":
            shown_before = [c for c in p.children if c.vc_prebox]
            if shown_before:
                return 0
            return 0 if s.min_height == "auto" else self.px(s.min_height, ref)
        r2 = ref
        if g is not None and g.style.height != "auto":
            r2 = self.px(g.style.height, ref)
        h = self.px(s.height, r2)
        if s.max_height is not None:
            h = min(h, self.px(s.max_height, ref))
        return h

    def unresolved(self, n, parent):
        return False


def mark(root):
    for n in root.walk():
        n.vc_prebox = n.layout is not None


def check_document(lib, doc):
    """Lay out once and check.  Returns a list of Bad."""
    display, root = build(lib, doc)
    mark(root)
    try:
        run(lib, display, root, doc)
    except Exception as e:
        return [Bad("*", f"layout raises {type(e).__name__}: {e}", "root")], None, None
    return Check(lib, display, root, doc).all(), display, root


MUTABLE = ["margin_top", "margin_left", "margin_bottom", "padding_top", "padding_left", "border_top_width", "width",
           "height", "left", "top", "position", "display", "min_width", "max_width", "direction"]


def check_history(lib, doc, rng, steps=3):
    """C09: layouts after any history of changes equal a first layout of the same document.
    C07: every change of a clean, displayed node's style marks it dirty."""
    bad = []
    display, root = build(lib, doc)
    mark(root)
    g = Gen(rng)
    hist = []
    try:
        run(lib, display, root, doc)
        for _ in range(rng.randint(1, steps)):
            nodes = list(root.walk())
            for _ in range(rng.randint(0, 3)):
                n = rng.choice(nodes)
                p = rng.choice(MUTABLE)
                if p == "display":
                    cur = n.spec["style"].get("display", "inline")
                    if cur == "none":
                        new = n.spec.get("_was", "block" if not n.spec.get("is_inline") else "inline")
                    else:
                        n.spec["_was"] = cur
                        new = "none"
                elif p == "position":
                    new = rng.choice(["relative", "static"])
                elif p == "direction":
                    new = rng.choice(["ltr", "rtl"])
                elif p.startswith(("padding", "border", "min", "max", "width", "height")):
                    new = g.length()
                else:
                    new = g.length(neg=True)
                for m in nodes:
                    if m.layout is not None:
                        m.layout.dirty = False
                        m.layout.visible = rng.random() < 0.8
                if rng.random() < 0.2 and n.intrinsic.width is not None:
                    # intrinsic sizes change too
                    q = rng.choice(["width", "height"])
                    x = rng.choice([0, 1, rng.randint(1, 300), getattr(n.intrinsic, q) or 0])
                    before = getattr(n.intrinsic, q)
                    setattr(n.intrinsic, q, x)
                    n.spec["intrinsic"][q] = x
                    hist.append((n.name, "intrinsic." + q, x))
                    for m in boxed(n):
                        if m.layout.dirty is not (before != x):
                            bad.append(Bad("C07", f"setting intrinsic {q} from {before} to {x}: dirty", m.name, m.layout.dirty, before != x))
                            break
                    continue
                before = n.style[p]
                if rng.random() < 0.15 and p != "display" and p in n.spec["style"]:
                    del n.style[p]
                    del n.spec["style"][p]
                    new = None
                else:
                    n.style[p] = value(lib, new)
                    n.spec["style"][p] = new
                hist.append((n.name, p, new))
                if n.layout is not None and before != n.style[p]:
                    for m in boxed(n):
                        if m.layout.dirty is not True:
                            bad.append(Bad("C07", f"changing {p} leaves the layout valid", m.name, m.layout.dirty, True))
                            break
            if rng.random() < 0.4 and root.layout is not None:
                root.layout.dirty = False
            if rng.random() < 0.3:
                display.content_width = rng.randint(1, 1500)
                doc["display"][1] = display.content_width
                hist.append(("display", "width", display.content_width))
            if rng.random() < 0.2:
                display.dpi = doc["display"][0] = rng.choice([72, 96, 120, 300])
                hist.append(("display", "dpi", display.dpi))
            run(lib, display, root, doc)
            if known_early_height(root):
                break
            fresh_doc = dict(doc, boxes=False)
            flib = lib
            if rng.random() < 0.3:
                from . import harness

                flib = harness.pristine()  # nothing is remembered of earlier layouts
            fd, fr = build(flib, fresh_doc)
            # boxes exist exactly where the history left them (a relative box looks at them)
            run(flib, fd, fr, fresh_doc)
            a, b = observe(root), observe(fr)
            for k in b:
                x, y = a.get(k), b[k]
                hidden = any_hidden(root, k)
                if hidden:
                    continue
                if (x is None) != (y is None) or (x is not None and not all(eq(p, q) for p, q in zip(x, y))):
                    diff = [(f, p, q) for f, p, q in zip(FIELDS, x or (), y or ()) if not eq(p, q)][:3]
                    bad.append(Bad("C09", "a repeated layout differs from a first layout", k, diff or x, "the same" if x else y))
                    break
            if bad:
                break
    except Exception as e:
        bad.append(Bad("*", f"repeated layout raises {type(e).__name__}: {e}", "root", hist))
    return bad, hist


def known_early_height(root):
    """Known finding relative-early-height: a relative box of auto height with a min-height
    looks at its children's boxes before they are laid out."""
    return any(
        n.style.position == "relative" and n.style.height == "auto" and n.style.min_height != "auto" and n.children
        for n in root.walk()
    )


def any_hidden(root, name):
    for n in root.walk():
        if n.name == name:
            while n is not None:
                if n.style.display is None:
                    return True
                n = n.parent
            return False
    return False


def search(lib, seed, seconds, props=None, pool=(), max_docs=10**9, history=True):
    """Random documents until one violates one of props (None: any)."""
    import copy
    import time

    t0 = time.time()
    rng = random.Random(f"oracle/{seed}")
    n = 0
    nontrivial = 0
    sample = None
    while n < max_docs and time.time() - t0 < seconds:
        n += 1
        state = rng.getrandbits(64)
        r = random.Random(state)
        doc = Gen(r, pool).document()
        bad, display, root = check_document(lib, doc)
        if root is not None and sum(1 for x in root.walk() if x.layout is not None) > 1:
            nontrivial += 1
            sample = sample or doc
        hits = [b for b in bad if props is None or b.prop in props or b.prop == "*"]
        if hits:
            return dict(docs=n, nontrivial=nontrivial, sample=sample, failure=dict(form="document", doc=shrink(lib, doc, hits[0], props), bad=str(hits[0]), what=hits[0].what, prop=hits[0].prop))
        if history and (props is None or props & {"C07", "C09", "C18", "C05"}):
            d2 = copy.deepcopy(doc)
            bad, hist = check_history(lib, d2, random.Random(state + 1))
            hits = [b for b in bad if props is None or b.prop in props or b.prop == "*"]
            if hits:
                return dict(docs=n, nontrivial=nontrivial, sample=sample, failure=dict(form="history", doc=doc, history=hist, rng=state + 1, bad=str(hits[0]), what=hits[0].what, prop=hits[0].prop))
    return dict(docs=n, nontrivial=nontrivial, sample=sample, failure=None)


def shrink(lib, doc, bad, props):
    """Greedy: drop children, styles while the same clause fails."""
    import copy

    def fails(d):
        try:
            got, _, _ = check_document(lib, copy.deepcopy(d))
        except Exception:
            return False
        return any(b.what == bad.what and b.prop == bad.prop for b in got)

    cur = copy.deepcopy(doc)
    changed = True
    rounds = 0
    while changed and rounds < 6:
        changed = False
        rounds += 1
        for path in list(paths(cur["root"])):
            node = at(cur["root"], path)
            if node is None:
                continue
            for i in reversed(range(len(node.get("children", [])))):
                t = copy.deepcopy(cur)
                del at(t["root"], path)["children"][i]
                if fails(t):
                    cur, changed = t, True
                    node = at(cur["root"], path)
            for k in list(node["style"]):
                if k == "display":
                    continue
                t = copy.deepcopy(cur)
                del at(t["root"], path)["style"][k]
                if fails(t):
                    cur, changed = t, True
                    node = at(cur["root"], path)
    return cur


def paths(spec, pre=()):
    yield pre
    for i, c in enumerate(spec.get("children", ())):
        yield from paths(c, pre + (i,))


def at(spec, path):
    for i in path:
        kids = spec.get("children", [])
        if i >= len(kids):
            return None
        spec = kids[i]
    return spec
