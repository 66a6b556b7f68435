"""C10, C11, C07: the properties of a style declaration.

Everything is observed through the documented interface of CSS: attributes, deletion, and the
dirtiness of the node's layout.
"""

import random

import z3

from .. import engine as E
from .. import strings as S
from ..engine import SymBool
from ..harness import Contract, Discard
from . import spec
from .grammar import SKIP
from .lengths import show
from .spec import LONGHANDS, PROPS


DEPENDS = {"direction": ["text_align"], "color": [f"border_{s}_color" for s in spec.SIDES]}
DEPENDANTS = [q for qs in DEPENDS.values() for q in qs]


class Layout:
    def __init__(self):
        self.dirty = None


class Node:
    def __init__(self):
        self.layout = Layout()


def declaration(mk, lib, prop, profile):
    """A declaration attached to a node with a layout, in some state."""
    node = Node()
    css = lib.get("declaration.CSS")().copy(node)
    for q in chosen(prop, profile):
        setattr(css, q, spec.sample(q))
    return css, node


def others(mk):
    """Which other properties are set."""
    return ["nothing set", "others"] + ([] if mk.symbolic else list(range(40)))


def chosen(prop, profile):
    qs = [q for q in LONGHANDS if q != prop]
    if isinstance(profile, int):
        r = random.Random(profile)
        return [q for q in qs if r.random() < 0.5]
    return qs if profile == "others" else [q for q in qs if q not in DEPENDANTS] if profile == "others, dependants unset" else []


def snapshot(css):
    return {q: getattr(css, q) for q in LONGHANDS}


def unspecified(mk):
    """The specification says nothing about these inputs."""
    if mk.symbolic:
        raise E.Pruned()
    raise Discard()


def same(a, b):
    if a is b:
        return True
    r = a == b
    return r if isinstance(r, SymBool) else bool(r)


def alike(a, b):
    """Equal, or built alike (values read twice from the same text)."""
    r = same(a, b)
    if r is not False or type(a) is not type(b):
        return r
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and E.and_(*[alike(x, y) for x, y in zip(a, b)])
    if type(a).__module__.startswith("colosseum") and getattr(a, "__dict__", None):
        return a.__dict__.keys() == b.__dict__.keys() and E.and_(*[alike(x, b.__dict__[k]) for k, x in a.__dict__.items()])
    return r


def unchanged(mk, before, after, but=()):
    return mk.all(same(after[q], before[q]) for q in LONGHANDS if q not in but)


# -- C10 -----------------------------------------------------------------------------------
def accepts(prop):
    kinds = (PROPS[prop].kind,) if PROPS[prop].kind in spec.PARSER else ()

    def contract(mk, lib):
        spec.use_contracts(mk, lib, kinds)
        profile = mk.choice("state", ["this set", *others(mk)])
        css, node = declaration(mk, lib, prop, profile)
        if profile == "this set":
            w = spec.any_value(mk, lib, prop, "old")
            st, r = mk.call(lambda: setattr(css, prop, w))
            if st != "ok":
                unspecified(mk)  # (covered by the other state)
        before = getattr(css, prop)
        v = spec.any_value(mk, lib, prop)
        st, r = mk.call(lambda: setattr(css, prop, v))
        e = spec.expect(mk, lib, prop, v)
        if e is SKIP:
            unspecified(mk)
        if e is None:
            mk.ensure("a value outside the definition is refused with ValueError", st == "raise" and isinstance(r, ValueError), f"{st} {show(mk, r)}")
            mk.ensure("a refused value leaves the property alone", same(getattr(css, prop), before))
        else:
            mk.ensure("a value of the definition is accepted", st == "ok", show(mk, r))
            if st == "ok":
                got = getattr(css, prop)
                mk.ensure("the property then has that value", e(got), show(mk, got))

    return contract


ACCEPT = {
    p: Contract(f"values of {p}", accepts(p), ["declaration.validated_property", "constants.Choices.validate", "validators.is_length"], runs=250, weight=3)
    for p in LONGHANDS
}


# -- callers of the validation, against its contract ------------------------------------------
class Token:
    """What validation made of some text it accepts; validating it again changes nothing."""

    def __init__(self, name, choices):
        self.vc_name = name
        self.vc_choices = choices

    def vc_isinstance(self, classes):
        return object in classes

    def vc_str(self):
        return f"<{self.vc_name}>"

    vc_repr = vc_str
    __str__ = vc_str

    def __eq__(self, o):
        if self is o:
            return True
        if callable(getattr(o, "value", None)):
            return False  # a relative initial value is not a value
        if (o is None or isinstance(o, str)) and not self.vc_may_be(o):
            return False
        other = o.vc_name if isinstance(o, Token) else ident(o)
        E.cur().keep.append(o)
        return SymBool(z3.Bool("EQ " + " ".join(sorted((self.vc_name, other)))))

    def __ne__(self, o):
        return E.not_(self.__eq__(o))

    def vc_is(self, o):
        """Keywords (and None) are kept as the constants they are."""
        return True if self is o else self.__eq__(o) if o is None or isinstance(o, str) else False

    def __bool__(self):
        """Of values read from text only None and, for integers, 0 are false."""
        false = self.__eq__(None)
        if self.vc_integers is None:
            try:
                self.vc_integers = type(self.vc_real(self.vc_choices, "0")) is int
            except ValueError:
                self.vc_integers = False
        if self.vc_integers:
            false = E.or_(false, self.__eq__(0))
        return bool(E.not_(false))

    def vc_may_be(self, word):
        """Whether the word (None: none) is itself a value of the property."""
        try:
            return self.vc_real(self.vc_choices, "none" if word is None else str(word)) == word
        except ValueError:
            return False

    vc_integers = None
    __hash__ = object.__hash__


def ident(o):
    """A name for an ordinary value; equal values have the same name."""
    if o is None or isinstance(o, (str, int, float)):
        return repr(int(o) if isinstance(o, bool) else o)
    d = getattr(o, "__dict__", {})
    if "suffix" in d and type(d.get("val")) in (int, float):
        return f"{d['val']:g} {d['suffix']}"
    if isinstance(o, (list, tuple)):
        return f"{type(o).__name__}[{', '.join(ident(x) for x in o)}]"
    if getattr(o, "e", None) is not None and hasattr(o.e, "sexpr"):
        return o.e.sexpr()
    if type(o).__module__.startswith("colosseum") and d:
        return f"{type(o).__name__}({', '.join(k + '=' + ident(d[k]) for k in sorted(d))})"
    return f"{type(o).__name__}@{id(o)}"


def accepts_text(choices, v):
    """The condition that the text v is accepted."""
    return SymBool(z3.Function(f"Accepts_{id(choices)}", S.STR, z3.BoolSort())(v.e))


def token(choices, v):
    p = E.cur()
    key = ("token", id(choices), v.e.get_id())
    if key not in p.memo:
        p.keep.append(v.e)
        p.memo[key] = Token(p.fresh("value"), choices)
    return p.memo[key]


def use_validation_contract(mk, lib, seen=None):
    """Choices.validate: a function of its argument that raises ValueError or returns a value
    that validates to itself (text only; anything else goes to the real code)."""
    if not mk.symbolic:
        return False
    real = lib.get("constants.Choices").__dict__.get("validate")

    Token.vc_real = staticmethod(real)

    def validate(self, value):
        if seen is not None:
            seen.append(self)
        if isinstance(value, Token):
            if value.vc_choices is self:
                return value
            raise E.Unsupported("a validated value meets another validation")
        if not isinstance(value, S.SymStr):
            return real(self, value)
        if bool(accepts_text(self, value)):
            return token(self, value)
        raise ValueError()

    return mk.stub("constants.Choices.validate", validate, ["self", "value"])


def validation_of(mk, lib, prop):
    """The Choices object that validates the property (found by using it)."""
    seen = []
    if not use_validation_contract(mk, lib, seen):
        return None
    css = lib.get("declaration.CSS")()
    try:
        setattr(css, prop, spec.sample(prop))
    except ValueError:
        pass
    mk.unstub()
    return seen[-1] if seen else None



def text_value(mk, prop, name):
    return mk.string(name, gen=spec.gen_text(prop))


def brief_value(mk, lib, prop, name):
    """Text, or a value of another kind."""
    kind = mk.choice(name + " is", spec.KINDS_BRIEF if mk.symbolic else spec.KINDS_BRIEF + ["text"] * 6)
    return text_value(mk, prop, name) if kind == "text" else spec.of_kind(mk, lib, kind, name)


def variable(prop, dirt):
    """C11 (dirt: C07): the property as a variable with an initial value."""

    def contract(mk, lib):
        if prop != "direction":
            use_validation_contract(mk, lib)
        profile = mk.choice("others", others(mk) + ["others, dependants unset"] * (prop in DEPENDS or prop in DEPENDANTS))
        css, node = declaration(mk, lib, prop, profile)
        is_set = mk.choice("the property", ["is unset", "is set"]) == "is set"
        if is_set:
            st, r = mk.call(lambda: setattr(css, prop, brief_value(mk, lib, prop, "old")))
            if st != "ok":
                unspecified(mk)
        before = snapshot(css)
        if not is_set and not dirt:
            mk.ensure("a property that is not set has its initial value", spec.initial(mk, lib, css, prop)(before[prop]), show(mk, before[prop]))
        node.layout.dirty = None
        op = mk.choice("operation", ["set", "delete"])
        if op == "set":
            v = brief_value(mk, lib, prop, "value")
            st, r = mk.call(lambda: setattr(css, prop, v))
        else:
            st, r = mk.call(lambda: delattr(css, prop))
        after = snapshot(css)
        dirty = node.layout.dirty
        relative = not is_set and isinstance(PROPS[prop].initial, tuple) and PROPS[prop].initial[0] in ("property", "direction")
        if dirt:
            if st == "raise":
                mk.ensure("a refused value does not invalidate the layout", dirty is None)
            else:
                eq = same(after[prop], before[prop])
                mk.ensure("a change of the value invalidates the layout", mk.or_(eq, dirty is True), show(mk, after[prop]))
                if op == "set" and not relative:
                    mk.ensure("setting an equal value leaves the layout alone", mk.or_(mk.not_(eq), dirty is None), show(mk, after[prop]))
                if op == "delete" and not is_set:
                    mk.ensure("deleting an unset property leaves the layout alone", dirty is None)
            return
        but = [prop]
        if st == "raise":
            mk.ensure("an operation fails only with ValueError, for a value", op == "set" and isinstance(r, ValueError), show(mk, r))
            but = []
        elif op == "delete":
            mk.ensure("a deleted property has its initial value", spec.initial(mk, lib, css, prop)(after[prop]), show(mk, after[prop]))
        elif mk.symbolic and isinstance(v, S.SymStr) and prop != "direction" and "constants.Choices.validate" in mk.ex.stubs_used:
            t = [x for x in E.cur().memo.values() if isinstance(x, Token) and x.vc_choices is not None]
            mk.ensure("a property that was set has the value", mk.or_(*[same(x, after[prop]) for x in t[-1:]]), show(mk, after[prop]))
        else:
            e = spec.expect(mk, lib, prop, v)
            if e is SKIP:
                unspecified(mk)
            got = after[prop]
            if isinstance(got, Token):  # (it was equal to the value that some text stands for)
                fresh = lib.get("declaration.CSS")()
                mk.call(lambda: setattr(fresh, prop, v))
                got = getattr(fresh, prop)
                mk.ensure("a property that was set has the value", same(after[prop], got), show(mk, got))
            mk.ensure("a property that was set has the value", e is not None and e(got), show(mk, got))
        if st == "ok":
            keys = chosen(prop, profile)
            for q in DEPENDS.get(prop, ()):
                if q in keys:
                    continue
                but.append(q)
                mk.ensure(f"{q} follows {prop}", spec.initial(mk, lib, css, q)(after[q]), show(mk, after[q]))
        mk.ensure("no other property is affected", unchanged(mk, before, after, but), str([q for q in LONGHANDS if q not in but and after[q] is not before[q]]))

    return contract


def function(prop):
    """The contract of validation that stands in for it: raises ValueError or returns, the same
    every time; what a shorthand hands on validates to itself."""
    kinds = (PROPS[prop].kind,) if PROPS[prop].kind in spec.PARSER else ()
    again = PROPS[prop].kind in (None, "length", "color", "integer")

    def contract(mk, lib):
        c = validation_of(mk, lib, prop) if mk.symbolic else None
        spec.use_contracts(mk, lib, kinds)
        v = text_value(mk, prop, "text")

        def validate(x):
            if c is not None:
                return mk.call(lambda: c.validate(x))
            css = lib.get("declaration.CSS")()
            st, r = mk.call(lambda: setattr(css, prop, x))
            return (st, getattr(css, prop)) if st == "ok" else (st, r)

        one, two = validate(v), validate(v)
        mk.ensure("validation fails with ValueError", one[0] == "ok" or isinstance(one[1], ValueError), show(mk, one[1]))
        mk.ensure("validation is a function", one[0] == two[0] and (one[0] == "raise" or alike(one[1], two[1])), show(mk, two[1]))
        if one[0] == "ok" and again:
            st, r = validate(one[1])
            mk.ensure("a validated value is valid", st == "ok", show(mk, r))
            if st == "ok":
                mk.ensure("validating a value again changes nothing", alike(r, one[1]), show(mk, r))

    return contract


FUNCTION = [Contract(f"validation of {p}", function(p), ["constants.Choices.validate"], runs=60) for p in LONGHANDS]
FUNCS = ["declaration.validated_property", "declaration.CSS.dirty"]
VARIABLE = [Contract(f"{p} as a variable", variable(p, False), FUNCS, runs=120) for p in LONGHANDS]
DIRT = [Contract(f"{p} and the layout", variable(p, True), FUNCS, runs=120) for p in LONGHANDS]

CONTRACTS = FUNCTION + VARIABLE + DIRT + list(ACCEPT.values())
