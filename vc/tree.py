"""Nodes, boxes and styles for the layout contracts."""

import sys

from . import engine as E
from .engine import Seg, SymNum, VCList

SIDES = ("top", "right", "bottom", "left")


class Unlazy:
    """Fields may be split into cases; the split happens when a field is first read."""

    def __getattribute__(self, name):
        v = object.__getattribute__(self, name)
        if isinstance(v, E.Lazy):
            v = v.resolve()
            self.__dict__[name] = v
        return v

    def __getattr__(self, name):
        if name.startswith(("__", "vc_")):
            raise AttributeError(name)
        any_ = self.__dict__.get("vc_any")
        if any_ is not None:
            v = any_(name)
            if v is not NotImplemented:
                self.__dict__[name] = v
                return getattr(self, name)
        raise E.Unsupported(f"attribute {name} of {type(self).__name__} is not covered by the contract")


class VStyle(Unlazy):
    """A style declaration: the properties given, and (vc_any) arbitrary values of the others,
    made when they are first read."""

    def __init__(self, **k):
        self.__dict__.update(k)


class VIntrinsic(Unlazy):
    def __init__(self, **k):
        self.__dict__.update(k)


# properties that take part in layout and have only keywords; and the others
KEYWORD_PROPS = dict(
    direction=["ltr", "rtl"],
    clear=[None, "left", "right", "both"],
    overflow=["visible", "hidden", "scroll", "auto", "inherit"],
    visibility=["visible", "hidden", "collapse"],
    unicode_bidi=["normal", "embed", "bidi-override"],
    text_align=["left", "right", "center", "justify", "inherit"],
    white_space=["normal", "pre", "nowrap", "pre-wrap", "pre-line", "inherit"],
    caption_side=["top", "bottom", "inherit"],
    table_layout=["auto", "fixed", "inherit"],
    border_collapse=["collapse", "separate", "inherit"],
    empty_cells=["show", "hide", "inherit"],
    page_break_before=["auto", "always", "avoid", "left", "right", "inherit"],
    page_break_after=["auto", "always", "avoid", "left", "right", "inherit"],
    page_break_inside=["auto", "avoid", "inherit"],
    **{f"border_{s}_style": [None, "hidden", "dotted", "dashed", "solid", "double", "groove", "ridge", "inset", "outset"] for s in SIDES},
)
SIZE_PROPS = dict(
    width=["auto"], height=["auto"], min_width=["auto"], min_height=["auto"], max_width=[None], max_height=[None],
    text_indent=["inherit"], letter_spacing=["normal", "inherit"], word_spacing=["normal", "inherit"],
    **{f"margin_{s}": ["auto"] for s in SIDES},
    **{f"padding_{s}": [] for s in SIDES},
    **{f"border_{s}_width": ["thin", "medium", "thick"] for s in SIDES},
    **{s: ["auto"] for s in SIDES},
)


def any_style(mk, lib, prefix, lengths=True):
    """Arbitrary values of the properties a contract says nothing about."""
    words = {v: v for v in vars(lib.constants).values() if isinstance(v, str)}

    def word(w):
        return None if w is None else words.get(w, w)

    def value(name):
        n = prefix + name
        if name in KEYWORD_PROPS:
            return mk.lazy(n, [word(w) for w in KEYWORD_PROPS[name]])
        if name in ("z_index", "orphans", "widows"):
            return mk.lazy(n, [word("auto" if name == "z_index" else "inherit"), lambda: mk.num(n, "int")])
        if name in SIZE_PROPS and lengths:
            lo = 0 if name.startswith(("padding", "border")) else None
            return mk.lazy(n, [word(w) for w in SIZE_PROPS[name]] + [lambda: mk.unit(n, lo=lo)])
        return NotImplemented

    return value


def any_intrinsic(mk, prefix):
    def value(name):
        n = prefix + "intrinsic." + name
        if name in ("width", "height", "ratio"):
            return mk.lazy(n, [None, lambda: mk.num(n, "num", lo=0)])
        if name in ("exact_width", "exact_height"):
            return mk.lazy(n, [True, False])
        return NotImplemented

    return value


class VDisplay(Unlazy):
    def __init__(self, w, h, dpi=96):
        self.content_width = w
        self.content_height = h
        self.dpi = dpi

    def fixed_size(self, value):
        return {"thin": 1, "medium": 5, "thick": 10}[value]


class VNode(Unlazy):
    def __init__(self, name, style, intrinsic=None, opaque=False):
        self.name = name
        self.parent = None
        self.style = style
        self.intrinsic = intrinsic
        self.layout = None
        self._children = []
        self._opaque = opaque

    @property
    def children(self):
        if self._opaque:
            # The subtree of an arbitrary child is only known through contracts; the box
            # operations that walk it are replaced by (or proved as) their contracts.
            f = sys._getframe(1)
            while f is not None and f.f_code.co_filename.endswith(
                ("vc/hooks.py", "vc/tree.py", "vc/engine.py")
            ):
                f = f.f_back
            if f is not None and f.f_code.co_filename.endswith("dimensions.py"):
                return []
            raise E.Unsupported("grandchildren of a node under contract")
        return self._children

    def set_children(self, kids):
        self._children = kids
        self._opaque = False

    def vc_owned(self):
        b = self.__dict__["layout"]
        return [self] + ([b] if b is not None and not isinstance(b, (E.Lazy, E.Poison)) else [])

    def __repr__(self):
        return f"<{self.name}>"


FIELDS = (
    ["content_width", "content_height", "content_top", "content_left"]
    + ["_origin_top", "_origin_left"]
    + [f"margin_{s}" for s in SIDES]
    + [f"collapse_{s}" for s in SIDES]
    + [f"padding_{s}" for s in SIDES]
    + [f"border_{s}_width" for s in SIDES]
    + ["dirty"]
)

_storage = {}


def storage(lib):
    """Where a Box keeps each field: found by probing a box, not by name."""
    key = lib.package
    if key in _storage:
        return _storage[key]
    saved, E.CURRENT = E.CURRENT, None
    try:
        Box = lib.get("dimensions.Box")
        out = {}
        for i, f in enumerate(FIELDS):
            n = VNode("probe", None)
            b = Box(n)
            before = dict(b.__dict__)
            v = 7919.0 + i
            setattr(b, f, v)
            ks = [k for k, x in b.__dict__.items() if x == v and before.get(k) != v]
            if len(ks) > 1:
                # margins also feed the collapse extents
                ks = [k for k in ks if "collapse" not in k] or ks
            if len(ks) != 1:
                raise E.Unsupported(f"cannot find where a Box stores {f}")
            out[f] = ks[0]
        _storage[key] = out
        return out
    finally:
        E.CURRENT = saved


def poke(lib, box, **fields):
    """Set fields directly (building a pre-state, not exercising the setters)."""
    st = storage(lib)
    for f, v in fields.items():
        box.__dict__[st[f]] = v


def peek(lib, box, f):
    return box.__dict__[storage(lib)[f]]


def new_box(lib, node):
    saved, E.CURRENT = E.CURRENT, None
    kids = node._children
    op = node._opaque
    node._children, node._opaque = [], False
    try:
        return lib.get("dimensions.Box")(node)
    finally:
        node._children, node._opaque = kids, op
        E.CURRENT = saved


def any_box(mk, lib, node, prefix, **fixed):
    """A box in an arbitrary state."""
    b = new_box(lib, node)
    vals = {}
    for f in FIELDS:
        if f in fixed:
            vals[f] = fixed[f]
        elif f == "dirty":
            vals[f] = mk.lazy(f"{prefix}.dirty", [True, False, None])
        elif f.startswith(("collapse", "padding", "border")):
            vals[f] = mk.num(f"{prefix}.{f}", "px", lo=0)
        else:
            vals[f] = mk.num(f"{prefix}.{f}", "px")
    poke(lib, b, **vals)
    if "visible" in b.__dict__ and "visible" not in fixed:
        # read by no layout function; whatever it is must not matter
        b.visible = mk.lazy(f"{prefix}.visible", [True, False])
    return b


def snapshot(lib, box):
    return {f: peek(lib, box, f) for f in FIELDS}


# ---------------------------------------------------------------------------
# The contracts of Box's setters, in the form used at call sites (no case split).
# They are proved against the real setters in props/box.py.
# ---------------------------------------------------------------------------
class use_box_contracts:
    """Replace the twin's Box setters by their contracts while a path runs."""

    def __init__(self, mk, lib):
        self.mk = mk
        self.lib = lib
        self.saved = []

    def __enter__(self):
        if not self.mk.symbolic:
            return self
        lib = self.lib
        Box = lib.get("dimensions.Box")
        st = storage(lib)
        ex = self.mk.ex

        def used(name):
            ex.stubs_used[f"dimensions.Box.{name}"] = (
                ex.stubs_used.get(f"dimensions.Box.{name}", 0) + 1
            )
            p = E.cur()
            if p is not None:
                p.abstract = True

        def log(w):
            p = E.cur()
            if p is not None:
                p.writes.append(w)

        def replace(name, setter):
            old = Box.__dict__.get(name)
            if f"dimensions.Box.{name}" in self.mk.inline:
                return
            if not isinstance(old, property) or old.fset is None:
                return
            self.saved.append((name, old))
            setattr(Box, name, property(old.fget, setter))

        def kids(box):
            node = box.node
            return [] if node._opaque else E.raw(node._children)

        def move(axis, name, other):
            # Contract: the field takes the value, and the origin of every child box is
            # the box's absolute content position afterwards.
            def setter(self, value):
                used(name)
                log((self, st[name]))
                self.__dict__[st[name]] = value
                for c in kids(self):
                    if isinstance(c, Seg) or isinstance(c.__dict__["layout"], (E.Lazy, E.Poison)):
                        continue
                    if c.layout is not None:
                        o = self.__dict__[st[f"_origin_{axis}"]]
                        ct = self.__dict__[st[f"content_{axis}"]]
                        setattr(c.layout, f"_origin_{axis}", o + ct)

            return setter

        for axis in ("top", "left"):
            replace(f"content_{axis}", move(axis, f"content_{axis}", None))
            replace(f"_origin_{axis}", move(axis, f"_origin_{axis}", None))

        def raise_collapse(box, side, value):
            k = st[f"collapse_{side}"]
            old = box.__dict__[k]
            if E.isnum(value):
                log((box, k))
                old = E.unlazy(box, k, old) if hasattr(E, "unlazy") else old
                box.__dict__[k] = E.ite(SymNum.of(value) > old, value, old)

        def margin(side):
            def setter(self, value):
                used(f"margin_{side}")
                k = st[f"margin_{side}"]
                old = self.__dict__[k]
                log((self, k))
                self.__dict__[k] = value
                if E.isnum(value):
                    if E.isnum(old):
                        # unchanged margins leave the extent alone
                        ck = st[f"collapse_{side}"]
                        c0 = self.__dict__[ck]
                        log((self, ck))
                        self.__dict__[ck] = E.ite(
                            E.and_(SymNum.of(value) != old, SymNum.of(value) > c0),
                            value,
                            c0,
                        )
                    else:
                        raise_collapse(self, side, value)

            return setter

        def collapse(side):
            def setter(self, value):
                used(f"collapse_{side}")
                raise_collapse(self, side, value)

            return setter

        real_reset = Box.__dict__.get("reset")

        def reset(self):
            # Contract: the box and the boxes of all its descendants are as newly created.
            used("reset")
            saved, E.CURRENT = E.CURRENT, None
            node = self.node
            keep, op = node._children, node._opaque
            node._children, node._opaque = [], False
            try:
                real_reset(self)
            finally:
                node._children, node._opaque = keep, op
                E.CURRENT = saved
            for k in self.__dict__:
                log((self, k))
            node.vc_subtree_clean = True
            for c in kids(self):
                if isinstance(c, Seg) or isinstance(c.__dict__["layout"], (E.Lazy, E.Poison)):
                    continue
                if c.layout is not None:
                    c.layout.reset()

        if callable(real_reset) and "dimensions.Box.reset" not in self.mk.inline:
            self.saved.append(("reset", real_reset))
            Box.reset = reset

        for s in SIDES:
            replace(f"margin_{s}", margin(s))
            replace(f"collapse_{s}", collapse(s))
        return self

    def __exit__(self, *a):
        Box = self.lib.get("dimensions.Box")
        for name, old in self.saved:
            setattr(Box, name, old)
        self.saved = []
        return False
