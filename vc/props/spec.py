"""What each style property accepts, its initial value, and what a value means.

Written from CSS 2.1 (and the documented extensions of colosseum), independently of the code's
own tables.  Everything here works on symbolic and on ordinary values.
"""

import math

import z3

from .. import engine as E
from .. import strings as S
from ..engine import SymBool, SymNum
from .grammar import SKIP
from .lengths import LENGTHS, SUFFIX
from .text import amount_before, finite, gen_length, same_unit

SIDES = ("top", "right", "bottom", "left")
DEFAULTING = ("initial", "inherit", "unset", "revert")
LINE = ("hidden", "dotted", "dashed", "solid", "double", "groove", "ridge", "inset", "outset")
CURSORS = ("auto crosshair default pointer move e-resize ne-resize nw-resize n-resize se-resize sw-resize s-resize w-resize text wait progress help").split()


class Spec:
    def __init__(self, kind=None, words=(), none=False, initial=None):
        self.kind = kind  # None | length | color | integer | rect | quotes | spacing | cursor
        self.words = tuple(words)
        self.none = none  # none (stored as None)
        self.initial = initial  # text of the initial value, or a tuple for special ones


PX0 = ("px", 0)
W, I = Spec, "inherit"
PROPS = {}
for s in SIDES:
    PROPS[f"margin_{s}"] = Spec("length", ["auto"], initial=PX0)
    PROPS[f"padding_{s}"] = Spec("length", initial=PX0)
    PROPS[f"border_{s}_width"] = Spec("length", ["thin", "medium", "thick"], initial=PX0)
    PROPS[f"border_{s}_color"] = Spec("color", ["transparent", *DEFAULTING], initial=("property", "color"))
    PROPS[f"border_{s}_style"] = Spec(None, LINE, none=True, initial=None)
    PROPS[s] = Spec("length", ["auto", I], initial="auto")
PROPS.update(
    display=Spec(None, "inline block list-item inline-block table inline-table table-row-group table-header-group table-footer-group table-row table-column-group table-column table-cell table-caption flex inline-flex grid inline-grid".split(), none=True, initial="inline"),
    position=Spec(None, ["static", "relative", "absolute", "fixed"], initial="static"),
    float=Spec(None, ["left", "right"], none=True, initial=None),
    clear=Spec(None, ["left", "right", "both"], none=True, initial=None),
    z_index=Spec("integer", ["auto"], initial="auto"),
    direction=Spec(None, ["rtl", "ltr"], initial="ltr"),
    unicode_bidi=Spec(None, ["normal", "embed", "bidi-override"], initial="normal"),
    width=Spec("length", ["auto"], initial="auto"),
    height=Spec("length", ["auto"], initial="auto"),
    min_width=Spec("length", ["auto"], initial="auto"),
    min_height=Spec("length", ["auto"], initial="auto"),
    max_width=Spec("length", none=True, initial=None),
    max_height=Spec("length", none=True, initial=None),
    overflow=Spec(None, ["visible", "hidden", "scroll", "auto", I], initial="visible"),
    clip=Spec("rect", ["auto", I], initial="auto"),
    visibility=Spec(None, ["visible", "hidden", "collapse"], initial="visible"),
    quotes=Spec("quotes", ["initial", I], none=True, initial="initial"),
    page_break_before=Spec(None, ["auto", "always", "avoid", "left", "right", I], initial="auto"),
    page_break_after=Spec(None, ["auto", "always", "avoid", "left", "right", I], initial="auto"),
    page_break_inside=Spec(None, ["auto", "avoid", I], initial="auto"),
    orphans=Spec("integer", [I], initial=("int", 2)),
    widows=Spec("integer", [I], initial=("int", 2)),
    color=Spec("color", initial=("default",)),
    background_color=Spec("color", ["transparent"], initial=("default",)),
    text_indent=Spec("length", [I], initial=PX0),
    text_align=Spec(None, ["left", "right", "center", "justify", I], initial=("direction",)),
    text_decoration=Spec(None, ["underline", "overline", "line-through", "blink", I], none=True, initial=None),
    letter_spacing=Spec("length", ["normal", I], initial="normal"),
    word_spacing=Spec("length", ["normal", I], initial="normal"),
    text_transform=Spec(None, ["capitalize", "uppercase", "lowercase", I], none=True, initial=None),
    white_space=Spec(None, ["normal", "pre", "nowrap", "pre-wrap", "pre-line", I], initial="normal"),
    caption_side=Spec(None, ["top", "bottom", I], initial="top"),
    table_layout=Spec(None, ["auto", "fixed", I], initial="auto"),
    border_collapse=Spec(None, ["collapse", "separate", I], initial="separate"),
    border_spacing=Spec("spacing", [I], initial=("spacing", 0)),
    empty_cells=Spec(None, ["show", "hide", I], initial="show"),
    cursor=Spec("cursor", [I], initial=("cursor", "auto")),
    outline_width=Spec("length", ["thin", "medium", "thick", I], initial="medium"),
    outline_style=Spec(None, [*LINE, I], none=True, initial=None),
    outline_color=Spec("color", ["invert", I], initial="invert"),
)
DIRECTIONAL = {"margin": "margin_%s", "padding": "padding_%s", "border_width": "border_%s_width", "border_color": "border_%s_color", "border_style": "border_%s_style"}
SHORTHAND = {
    **{f"border_{s}": [f"border_{s}_width", f"border_{s}_style", f"border_{s}_color"] for s in SIDES},
    "border": ["border_width", "border_style", "border_color"],
    "outline": ["outline_color", "outline_style", "outline_width"],
}
LONGHANDS = tuple(PROPS)
ALL = tuple(PROPS) + tuple(DIRECTIONAL) + tuple(SHORTHAND)
KEYWORDS = sorted({w for s in PROPS.values() for w in s.words} | {"none"})


# -- the parsers, as callee contracts ------------------------------------------------
PREDICATE = {k: z3.Function(f"Is_{k}", S.STR, z3.BoolSort()) for k in ("length", "color", "rect", "quotes", "spacing", "cursor")}
PARSER = {"length": "units", "color": "color", "rect": "rect", "quotes": "quotes", "spacing": "border_spacing", "cursor": "cursor"}
RESULT = {"rect": "shapes.Rect", "quotes": "wrappers.Quotes", "spacing": "wrappers.BorderSpacing", "cursor": "wrappers.Cursor"}


class Parsed:
    """The result of a parser for an arbitrary text it accepts: a value of its own."""

    def __init__(self, name, cls):
        self.vc_name = name
        self.vc_cls = cls

    def vc_isinstance(self, classes):
        return any(issubclass(self.vc_cls, c) for c in classes if isinstance(c, type))

    def vc_type(self):
        return self.vc_cls

    def vc_str(self):
        return f"<{self.vc_name}>"

    vc_repr = vc_str

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, Parsed) and o.vc_cls is self.vc_cls:
            return SymBool(z3.Bool("EQ " + " ".join(sorted((self.vc_name, o.vc_name)))))
        return False

    def __ne__(self, o):
        return E.not_(self.__eq__(o))

    __hash__ = object.__hash__


def parsed(mk, lib, kind, v):
    """The one value that stands for the text v."""
    p = E.cur()
    key = ("parsed", kind, v.e.get_id())
    if key not in p.memo:
        p.keep.append(v.e)
        name = p.fresh(f"{kind} of text")
        if kind == "length":
            from ..harness import abs_unit

            p.memo[key] = abs_unit(lib)(name, None, mk)
        elif kind == "color":
            c = lib.get("colors.rgb")(*[mk.num(f"{name}.{x}", "int") for x in "rgb"])
            p.memo[key] = c
        else:
            p.memo[key] = Parsed(name, lib.get(RESULT[kind]))
    return p.memo[key]


def native_accepts(kind, text):
    """Is the (key)word accepted by the parser: facts about the predicates on the keywords."""
    from ..harness import native

    try:
        getattr(native().parser, PARSER[kind])(text)
        return True
    except ValueError:
        return False


def use_contracts(mk, lib, kinds=tuple(PARSER)):
    """Parsers are replaced by their contracts (for text; other values go to the real code)."""
    mk.contracts = set()
    for kind in kinds:
        real = lib.get("parser." + PARSER[kind])

        def stub(kind=kind, real=real, **a):
            (v,) = a.values()
            if not isinstance(v, S.SymStr):
                return real(v)
            if bool(SymBool(PREDICATE[kind](v.e))):
                return parsed(mk, lib, kind, v)
            raise ValueError("not a " + kind)

        params = list(__import__("inspect").signature(real).parameters)
        if len(params) == 1 and mk.stub("parser." + PARSER[kind], stub, params):
            mk.contracts.add(kind)


# -- the meaning of values ---------------------------------------------------------------
def text(v):
    return isinstance(v, (str, S.SymStr))


def number(v):
    return E.isnum(v)


def expect_length(mk, lib, v):
    Unit = lib.get("units.Unit")
    if text(v):
        if mk.symbolic and "length" in mk.contracts and isinstance(v, S.SymStr):
            if mk.known(SymBool(PREDICATE["length"](v.e))):
                u = parsed(mk, lib, "length", v)
                return lambda r: same(mk, r, u)
            return None
        for name in LENGTHS:
            ok, n = amount_before(mk, v, SUFFIX[name])
            if mk.known(ok):
                return lambda r: same_unit(lib, r, name) and exactly(mk, r.val, n)
        ok, n = finite(mk, v)
        if mk.known(ok):
            return lambda r: same_unit(lib, r, "px") and exactly(mk, r.val, n)
        return None
    if number(v):
        if isinstance(v, float) and not math.isfinite(v):
            return None
        return lambda r: same_unit(lib, r, "px") and exactly(mk, r.val, v)
    if isinstance(v, Unit):
        return lambda r: same(mk, r, v)
    return None


def exactly(mk, a, b):
    return mk.eq(a, b) if mk.symbolic else a == b


def same(mk, r, v):
    """The value itself or an equal one."""
    if r is v:
        return True
    if isinstance(v, (str, int)) or v is None or r is None or isinstance(r, str):
        return type(r) is type(v) and r == v
    c = v == r
    return c if isinstance(c, SymBool) else bool(c)


def expect_integer(mk, lib, v):
    if text(v):
        if isinstance(v, S.SymStr):
            S.num_facts(v.e)
            if mk.known(SymBool(S.IsInt(v.e))):
                n = SymNum(z3.ToReal(S.IVal(v.e)), True)
                return lambda r: number(r) and mk.and_(is_int(mk, r), mk.eq(r, n))
            return None
        try:
            n = int(v)
        except ValueError:
            return None
        return lambda r: type(r) is int and r == n
    if number(v):
        if isinstance(v, SymNum):
            n = E.trunc(v)
            return lambda r: number(r) and mk.and_(is_int(mk, r), mk.eq(r, n))
        if isinstance(v, float) and not math.isfinite(v):
            return None
        n = math.trunc(v)
        return lambda r: number(r) and mk.and_(is_int(mk, r), r == n)
    return None


def is_int(mk, r):
    if isinstance(r, SymNum):
        f = r.isint
        return f if isinstance(f, bool) else SymBool(f)
    return type(r) is int


def expect_parsed(kind):
    def expect(mk, lib, v):
        if mk.symbolic and kind in mk.contracts and isinstance(v, S.SymStr):
            if mk.known(SymBool(PREDICATE[kind](v.e))):
                x = parsed(mk, lib, kind, v)
                return lambda r: same(mk, r, x)
            return None
        from . import grammar

        return getattr(grammar, "expect_" + kind)(mk, lib, v)

    return expect


EXPECT = {
    "length": expect_length,
    "integer": expect_integer,
    "color": expect_parsed("color"),
    "rect": expect_parsed("rect"),
    "quotes": expect_parsed("quotes"),
    "spacing": expect_parsed("spacing"),
    "cursor": expect_parsed("cursor"),
}


def expect(mk, lib, prop, v):
    """None: refused.  SKIP: unspecified.  Otherwise a predicate on the stored value."""
    sp = PROPS[prop]
    if sp.kind:
        if mk.symbolic and isinstance(v, S.SymStr) and sp.kind in mk.contracts:
            keyword_facts(v, sp.kind)
        e = EXPECT[sp.kind](mk, lib, v)
        if e is not None or text(v) is False and isinstance(v, (list, tuple)):
            return e
    if sp.kind == "color" and sp.initial == ("default",) and v is lib.constants.default:
        return lambda r: r is v
    if v is None:
        return (lambda r: r is None) if sp.none else None
    if text(v):
        if sp.none and mk.known(v == "none"):
            return lambda r: r is None
        for w in sp.words:
            if mk.known(v == w):
                return lambda r: type(r) is str and r == w
    return None


def keyword_facts(v, kind):
    p = E.cur()
    key = ("keywords", kind, v.e.get_id())
    if key in p.defined:
        return
    p.defined.add(key)
    P = PREDICATE[kind]
    for w in KEYWORDS:
        p.add(z3.Implies(v.e == S.lit(w), P(v.e) == z3.BoolVal(native_accepts_cached(kind, w))))


_acc = {}


def native_accepts_cached(kind, w):
    if (kind, w) not in _acc:
        # (from the parsers' contracts: no keyword is the text of a value, but 'auto' and the
        # like are cursors)
        _acc[kind, w] = kind == "cursor" and w in CURSORS
    return _acc[kind, w]


def initial(mk, lib, css, prop):
    """Predicate on the value of a property that is not set."""
    i = PROPS[prop].initial
    if i is None:
        return lambda r: r is None
    if isinstance(i, str):
        return lambda r: type(r) is str and r == i
    if i[0] == "px":
        return lambda r: same_unit(lib, r, "px") and r.val == 0
    if i[0] == "int":
        return lambda r: type(r) is int and r == i[1]
    if i[0] == "default":
        return lambda r: r is lib.constants.default
    if i[0] == "property":
        return lambda r: r is getattr(css, i[1])
    if i[0] == "direction":
        want = {"ltr": "left", "rtl": "right"}[css.direction]
        return lambda r: r == want
    if i[0] == "spacing":
        return lambda r: isinstance(r, lib.get("wrappers.BorderSpacing")) and all(same_unit(lib, x, "px") and x.val == 0 for x in (r.horizontal, r.vertical))
    if i[0] == "cursor":
        return lambda r: isinstance(r, lib.get("wrappers.Cursor")) and list(r) == ["auto"]
    raise ValueError(i)


# -- arbitrary values ----------------------------------------------------------------------
class Thing:
    def __repr__(self):
        return "Thing()"


COLORS = ["red", "Red", "rebeccapurple", "#fff", "#FFF8", "#12345", "#123456", "#12345678", "rgb(1, 2, 3)", "rgb(1,2)", "rgba(1,2,3,0.5)", "hsl(10, 20%, 30%)",
          "hsla(400,5%,6%,.5)", "rgb(1,2,x)", "reddish", "#ggg", "hsl(10,20,30)", "rgba(1,2,3)", "rgb (1,2,3)", "#"]
TEXTS = {
    "length": gen_length,
    "color": lambda r: r.choice(COLORS),
    "integer": lambda r: r.choice(["1", "-5", "0", "+3", " 7 ", "1.5", "x", "", "1e3", "007", "1_0", "2px"]),
    "rect": lambda r: r.choice(["rect(1px, 2px, 3px, 4px)", "rect(1px 2px 3px 4px)", "rect(1px, 2px, 3px)", "rect()", "rect( 1px , 2, 3em,4%)", "rect(1px, 2px 3px 4px)", "1px 2px 3px 4px", "rect(a,b,c,d)"]),
    "quotes": lambda r: r.choice(["'<' '>'", "'<' '>' '{' '}'", "'<'", "'' ''", "< >", "1 2", "'a' 5"]),
    "spacing": lambda r: r.choice(["1px", "1px 2px", "1 2", "1px 2px 3px", "", "x", "1px x", "  3em   4% "]),
    "cursor": lambda r: r.choice(["auto", "url(a.png), auto", "auto, url(a.png)", "url(a)", "auto, auto", "foo", "", "url(a), url('b'), help", "help"]),
}


def sample(prop):
    """A value for the property that is not its initial one."""
    sp = PROPS[prop]
    if sp.kind:
        return {"length": "7px", "color": "navy", "integer": 5, "rect": "rect(1px, 2px, 3px, 4px)", "quotes": "'<' '>'", "spacing": "3px 4px", "cursor": "help"}[sp.kind]
    return next(w for w in sp.words if w != sp.initial)


LISTS = {
    "quotes": [lambda: [("<", ">")], lambda: ("<<", ">>"), lambda: ["<"], lambda: [("<", 1)], lambda: [1, 2], lambda: [], lambda: [("a", "b"), ("", "d")]],
    "spacing": [lambda: (1, 2), lambda: ["3px"], lambda: ("1em", "x"), lambda: (1, 2, 3), lambda: (), lambda: [None]],
    "cursor": [lambda: ["auto"], lambda: ["url(a)", "help"], lambda: ("help", "url(a)"), lambda: ["help", "auto"], lambda: [1], lambda: ["x"]],
    "rect": [lambda: (1, 2, 3, 4), lambda: ["1px", "2px", "3px", "4px"]],
}


def gen_text(prop):
    sp = PROPS.get(prop)

    def gen(r):
        m = r.random()
        if sp is not None and sp.words and m < 0.35:
            return r.choice(sp.words)
        if sp is not None and sp.kind and m < 0.7:
            return TEXTS[sp.kind](r)
        if m < 0.9:
            w = r.choice(KEYWORDS)
            return w if r.random() < 0.8 else r.choice([w.upper(), w + " ", " " + w, w[:-1], w + "x"])
        return r.choice(["", " ", "none", "None", "0", "foo", "inherit", "5px", "red"])

    return gen


KINDS = ["text", "int", "float", "nonfinite", "length", "angle", "rgb", "hsl", "none", "bool", "default", "other"]


# enough to tell apart what is not text: every way to be zero, false or empty is among them
KINDS_BRIEF = ["text", "int", "float", "length", "bool", "other", "empty"]


def of_kind(mk, lib, kind, name):
    if kind in ("int", "float"):
        return mk.num(name, kind)
    if kind == "nonfinite":
        return mk.choice(name + " value", [math.inf, math.nan])
    if kind == "length":
        return mk.unit(name)
    if kind == "angle":
        return mk.num(name, "float") * lib.units.deg
    if kind == "rgb":
        return lib.get("colors.rgb")(*[mk.num(name + "." + x, "int") for x in "rgb"])
    if kind == "hsl":
        return lib.get("colors.hsl")(mk.num(name + ".h", "int"), 0.5, 0.5)
    if kind == "none":
        return None
    if kind == "bool":
        return mk.choice(name + " value", [True, False])
    if kind == "default":
        return lib.constants.default
    if kind == "empty":
        return mk.choice(name + " value", ["", (), [], {}])
    return mk.choice(name + " value", [Thing(), 3j, {}])


def any_value(mk, lib, prop, name="value"):
    """Any value at all that a user might assign."""
    lists = LISTS.get(PROPS[prop].kind) if prop in PROPS else None
    kinds = KINDS + (["list"] if lists else [])
    kind = mk.choice(name + " is", kinds if mk.symbolic else kinds + ["text"] * 6)
    if kind == "text":
        return mk.string(name, gen=gen_text(prop))
    if kind == "list":
        return mk.choice(name + " value", lists)
    return of_kind(mk, lib, kind, name)
