"""C12: every way to reach a property is the same property; copies; listings; text."""

from .. import engine as E
from .. import strings as S
from ..harness import Contract
from . import spec
from .lengths import show
from .style import Node, alike, chosen, declaration, others, same, snapshot, text_value, unchanged, unspecified, use_validation_contract
from .spec import ALL, LONGHANDS, PROPS

NEAR = ["widht", "margin_middle", "node", "_node", "dirty", "engine", "update", "copy", "items", "keys", "", "-", "_", "border_middle", "top_", "-top", "border--top", "Width", "font",
        "border_top_radius", "z index", "__dict__", "__class__", "margin top", "min_widths", "overflow_x"]


def gen_value(name):
    prop = name if name in PROPS else {"margin": "margin_top", "padding": "padding_top", "outline": "outline_width"}.get(name, "border_top_width")
    return spec.gen_text(prop)


def value(mk, name, which="value", lib=None):
    """Text; with lib, any value at all but None."""
    if lib is not None:
        kind = mk.choice(which + " is", spec.KINDS_BRIEF if mk.symbolic else spec.KINDS_BRIEF + ["text"] * 6)
        if kind != "text":
            return spec.of_kind(mk, lib, kind, which)
    return mk.string(which, gen=gen_value(name))


def same_state(mk, a, b):
    return mk.all(alike(a[q], b[q]) for q in LONGHANDS)


def routes(name):
    def contract(mk, lib):
        if name != "direction":
            use_validation_contract(mk, lib)
        profile = mk.choice("others", others(mk))
        was_set = mk.choice("the property", ["is unset", "is set"]) == "is set"
        old = value(mk, name, "old") if was_set else None
        pair = []
        for _ in range(2):
            css, node = declaration(mk, lib, name if name in PROPS else None, profile)
            if was_set and mk.call(lambda: setattr(css, name, old))[0] != "ok":
                unspecified(mk)
            pair.append(css)
            node.layout.dirty = None
        one, two = pair
        key = mk.choice("spelling", [name, name.replace("_", "-")] if "_" in name else [name])
        route = mk.choice("route", ["get", "set item", "delete item", "update", "update None", "new", "set item None"])
        if route == "get":
            st, r = mk.call(lambda: one[key])
            mk.ensure("reading an item is reading the attribute", st == "ok" and alike(r, getattr(two, name)), show(mk, r))
            mk.ensure("reading changes nothing", same_state(mk, snapshot(one), snapshot(two)))
            return
        if route in ("set item None", "delete item", "update None"):
            v = None
        else:
            v = value(mk, name, lib=lib)
        if route in ("set item", "set item None"):
            got = mk.call(lambda: one.__setitem__(key, v))
            want = mk.call(lambda: setattr(two, name, v))
        elif route == "delete item":
            got = mk.call(lambda: one.__delitem__(key))
            want = mk.call(lambda: delattr(two, name))
        elif route == "update":
            got = mk.call(lambda: one.update(**{key: v}))
            want = mk.call(lambda: setattr(two, name, v))
        elif route == "update None":
            got = mk.call(lambda: one.update(**{key: None}))
            want = mk.call(lambda: delattr(two, name))
        else:
            CSS = lib.get("declaration.CSS")
            got = mk.call(lambda: CSS(**{key: v}))
            two = CSS()
            want = mk.call(lambda: setattr(two, name, v))
            if got[0] == "ok":
                one = got[1]
            else:
                one = two
        mk.ensure(f"{route}: succeeds exactly as the attribute does", got[0] == want[0] and (got[0] == "ok" or type(got[1]) is type(want[1])), f"{got[0]} {want[0]}")
        mk.ensure(f"{route}: has the effect of the attribute", same_state(mk, snapshot(one), snapshot(two)))
        if route != "new":
            mk.ensure(f"{route}: invalidates the layout as the attribute does", one._node.layout.dirty is two._node.layout.dirty if hasattr(one, "_node") else True)

    return contract


def delegates(name):
    """Shorthands: the routes are the attribute operation (whose own contract is in C13)."""
    relational = routes(name)

    def contract(mk, lib):
        if not mk.symbolic:
            return relational(mk, lib)
        CSS = lib.get("declaration.CSS")
        log = []
        sentinel = object()

        def get(self):
            log.append(("get", self, None))
            return sentinel

        mk.patch(CSS, name, property(get, lambda self, v: log.append(("set", self, v)), lambda self: log.append(("delete", self, None))))
        css, node = declaration(mk, lib, None, mk.choice("others", others(mk)))
        state = snapshot(css)
        del log[:]
        key = mk.choice("spelling", [name, name.replace("_", "-")] if "_" in name else [name])
        route = mk.choice("route", ["get", "set item", "delete item", "update", "update None", "new", "set item None"])
        v = value(mk, name, lib=lib)
        f, want = {
            "get": (lambda: css[key], ("get", None)),
            "set item": (lambda: css.__setitem__(key, v), ("set", v)),
            "set item None": (lambda: css.__setitem__(key, None), ("set", None)),
            "delete item": (lambda: css.__delitem__(key), ("delete", None)),
            "update": (lambda: css.update(**{key: v}), ("set", v)),
            "update None": (lambda: css.update(**{key: None}), ("delete", None)),
            "new": (lambda: CSS(**{key: v}), ("set", v)),
        }[route]
        st, r = mk.call(f)
        mk.ensure(f"{route}: succeeds if the attribute does", st == "ok", show(mk, r))
        if st != "ok":
            return
        if len(log) != 1:
            raise E.Unsupported("not through the attribute")
        op, obj, x = log[0]
        mk.ensure(f"{route}: is the operation on the attribute", op == want[0] and x is want[1] and obj is (r if route == "new" else css), op)
        if route == "get":
            mk.ensure("get: gives the attribute", r is sentinel)
        if route != "new":
            mk.ensure(f"{route}: does nothing else", unchanged(mk, state, snapshot(css)))

    return contract


def unknown(mk, lib):
    """Names that are no property."""
    name = mk.string("name", gen=lambda r: r.choice(NEAR) if r.random() < 0.7 else S.random_text(r))
    norm = name.replace("-", "_")
    if mk.known(mk.or_(*[norm == x for x in ALL])):
        unspecified(mk)
    css, node = declaration(mk, lib, None, "others")
    before = snapshot(css)
    node.layout.dirty = None
    route = mk.choice("route", ["get", "set item", "delete item"] + ([] if mk.symbolic else ["update", "new"]))
    f = {
        "get": lambda: css[name],
        "set item": lambda: css.__setitem__(name, "auto"),
        "delete item": lambda: css.__delitem__(name),
        "update": lambda: css.update(**{name: "auto"}),
        "new": lambda: lib.get("declaration.CSS")(**{name: "auto"}),
    }[route]
    st, r = mk.call(f)
    want = NameError if route in ("update", "new") else KeyError
    mk.ensure(f"{route}: an unknown name is refused", st == "raise" and isinstance(r, want), show(mk, r))
    mk.ensure(f"{route}: an unknown name changes nothing", unchanged(mk, before, snapshot(css)))
    mk.ensure(f"{route}: an unknown name leaves the layout alone", node.layout.dirty is None)


def unknown_update(mk, lib):
    """update() with a list of near misses (keyword names are concrete)."""
    name = mk.choice("name", NEAR)
    css, node = declaration(mk, lib, None, mk.choice("others", others(mk)))
    before = snapshot(css)
    node.layout.dirty = None
    new = mk.choice("route", ["update", "new"]) == "new"
    v = mk.choice("value", ["auto", None])
    st, r = mk.call(lambda: lib.get("declaration.CSS")(**{name: v}) if new else css.update(**{name: v}))
    mk.ensure("update: an unknown name is refused with NameError", st == "raise" and isinstance(r, NameError), show(mk, r))
    mk.ensure("update: an unknown name changes nothing", unchanged(mk, before, snapshot(css)))


def stored(mk, lib, prop):
    """(css, node, names of the properties that are set) with an arbitrary value of prop."""
    profile = mk.choice("others", others(mk))
    css, node = declaration(mk, lib, prop, profile)
    names = chosen(prop, profile)
    if mk.choice("the property", ["is unset", "is set"]) == "is set":
        first = getattr(css, prop)
        st, r = mk.call(lambda: setattr(css, prop, text_value(mk, prop, "text")))
        if st != "ok" or mk.known(same(getattr(css, prop), first)):
            unspecified(mk)  # (whether an equal value is listed is left open)
        names.append(prop)
    return css, node, names


def text_of(mk, x):
    from ..hooks import HOOKS

    return HOOKS.call(str, x) if mk.symbolic else str(x)


def listing(prop):
    def contract(mk, lib):
        if prop != "direction":
            use_validation_contract(mk, lib)
        css, node, names = stored(mk, lib, prop)
        state = snapshot(css)
        st, ks = mk.call(lambda: css.keys())
        mk.ensure("keys: the properties that are set", st == "ok" and sorted(ks) == sorted(names), show(mk, ks))
        st, its = mk.call(lambda: css.items())
        its = list(its) if st == "ok" else []
        mk.ensure("items: the properties that are set, once each", st == "ok" and sorted(n for n, _ in its) == sorted(names), show(mk, its))
        mk.ensure("items: with their values", mk.all(same(v, state[n]) for n, v in its if n in state))
        st, s = mk.call(lambda: text_of(mk, css))
        parts = []
        for n in sorted(x.replace("_", "-") for x in names):
            parts.append(n + ": ")
            parts.append(text_of(mk, state[n.replace("-", "_")]))
            parts.append("; ")
        want = ""
        for x in parts[:-1]:
            want = want + x
        mk.ensure("text: name: value, sorted by name", st == "ok" and s == want, show(mk, s))
        mk.ensure("looking changes nothing", unchanged(mk, state, snapshot(css)))

    return contract


def copies(prop):
    def contract(mk, lib):
        if prop != "direction":
            use_validation_contract(mk, lib)
        css, node, names = stored(mk, lib, prop)
        state = snapshot(css)
        other = mk.choice("for", ["another node", "no node"])
        second = Node() if other == "another node" else None
        node.layout.dirty = None
        st, dup = mk.call(lambda: css.copy(second) if second else css.copy())
        mk.ensure("a declaration can be copied", st == "ok", show(mk, dup))
        if st != "ok":
            return
        mk.ensure("a copy is another declaration", dup is not css and isinstance(dup, lib.get("declaration.CSS")))
        mk.ensure("a copy has the values of the original", unchanged(mk, state, snapshot(dup)))
        mk.ensure("a copy sets what the original sets", sorted(dup.keys()) == sorted(names))
        mk.ensure("copying leaves the original alone", unchanged(mk, state, snapshot(css)))
        mk.ensure("copying leaves the layout of the original alone", node.layout.dirty is None)
        if second:
            mk.ensure("values copied to a node invalidate its layout", not names or second.layout.dirty is True)
            second.layout.dirty = None
        change = mk.choice("then", ["change the copy", "change the original"])
        a, b = (dup, css) if change == "change the copy" else (css, dup)
        an, bn = (second, node) if change == "change the copy" else (node, second)
        op = mk.choice("by", ["set", "delete"])
        v = text_value(mk, prop, "new")
        st, r = mk.call(lambda: setattr(a, prop, v) if op == "set" else delattr(a, prop))
        mk.ensure("copy and original are independent", unchanged(mk, state, snapshot(b)))
        mk.ensure("a change is reported to the node of the declaration that changed", bn is None or bn.layout.dirty is None)
        if an is not None and st == "ok":
            mk.ensure("a change invalidates the layout of its node", mk.or_(an.layout.dirty is True, same(getattr(a, prop), state[prop])))

    return contract


ROUTE_FUNCS = ["declaration.CSS.__getitem__", "declaration.CSS.__setitem__", "declaration.CSS.__delitem__", "declaration.CSS.update", "declaration.CSS.__init__"]
ROUTES = [Contract(f"routes to {n}", routes(n) if n in PROPS else delegates(n), ROUTE_FUNCS, runs=150) for n in ALL]
UNKNOWN = [Contract("unknown names", unknown, ROUTE_FUNCS, runs=400), Contract("unknown names in update", unknown_update, ROUTE_FUNCS, runs=100)]
LISTING = [Contract(f"listing of {p}", listing(p), ["declaration.CSS.keys", "declaration.CSS.items", "declaration.CSS.__str__"], runs=60) for p in LONGHANDS]
COPIES = [Contract(f"copies with {p}", copies(p), ["declaration.CSS.copy"], runs=60) for p in LONGHANDS]
CONTRACTS = ROUTES + UNKNOWN + LISTING + COPIES
