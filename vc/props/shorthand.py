"""C13: properties that stand for several others."""

from .. import engine as E
from .. import strings as S
from ..harness import Contract
from . import spec
from .grammar import SKIP
from .lengths import show
from .spec import DIRECTIONAL, LONGHANDS, PROPS, SHORTHAND, SIDES
from .style import accepts_text, brief_value, declaration, others, same, snapshot, token, unchanged, unspecified, use_validation_contract, validation_of

# index of the tuple element that a side takes, by length of the tuple
TAKES = {1: (0, 0, 0, 0), 2: (0, 1, 0, 1), 3: (0, 1, 2, 1), 4: (0, 1, 2, 3)}


class Reading:
    """What a value means for a longhand: symbolic text through the contract of validation,
    anything else through the specification."""

    def __init__(self, mk, lib, props):
        self.mk, self.lib = mk, lib
        self.choices = {p: validation_of(mk, lib, p) for p in props} if mk.symbolic else {}
        self.stubbed = use_validation_contract(mk, lib)
        self.facts = set()

    def accepts(self, prop, v):
        """Predicate on the stored value, or None."""
        mk = self.mk
        if self.stubbed and isinstance(v, S.SymStr):
            c = self.choices[prop]
            if c is None:
                raise E.Unsupported("no validation found")
            if not mk.known(accepts_text(c, v)):
                return None
            t = token(c, v)
            return lambda r: same(t, r)
        e = spec.expect(mk, self.lib, prop, v)
        if e is SKIP:
            unspecified(mk)
        return e

    def one_class(self, v, props):
        """Text belongs to one of the properties' values (apart from words they share)."""
        if not (self.stubbed and isinstance(v, S.SymStr)):
            return
        shared = [w for w in spec.KEYWORDS if sum(w in PROPS[p].words or (w == "none" and PROPS[p].none) for p in props) > 1]
        for w in shared:
            self.mk.assume(self.mk.not_(v == w))
        for i, p in enumerate(props):
            for q in props[i + 1:]:
                self.mk.assume(self.mk.not_(self.mk.and_(accepts_text(self.choices[p], v), accepts_text(self.choices[q], v))))


def text(mk, prop, name):
    return mk.string(name, gen=spec.gen_text(prop))


def directional(name):
    sides = [DIRECTIONAL[name] % s for s in SIDES]

    def contract(mk, lib):
        rd = Reading(mk, lib, sides)
        css, node = declaration(mk, lib, None, mk.choice("before", others(mk)))
        if not mk.symbolic and mk.choice("one side", ["no", "yes"]) == "yes":
            mk.call(lambda: setattr(css, mk.choice("side", sides), text(mk, sides[0], "old")))
        before = snapshot(css)
        node.layout.dirty = None
        n = mk.choice("value", ["single", 0, 1, 2, 3, 4, 5, "list"])
        if n == "single":
            vs = [brief_value(mk, lib, sides[0], "v") if mk.symbolic else spec.any_value(mk, lib, sides[0], "v")]
            v, take = vs[0], TAKES[1]
            if isinstance(v, tuple):
                unspecified(mk)
        elif n == "list":
            vs, v, take = [], [text(mk, sides[0], "v")], None
        elif 1 < n < 5 and mk.choice("values", ["any", "lengths"]) == "lengths":
            if PROPS[sides[0]].kind != "length":
                unspecified(mk)
            U = lib.units
            vs = [(mk.num(f"n{k}", "int") if mk.symbolic else mk.choice("n", [0, 1, 2, 2.5])) * mk.choice(f"u{k}", [U.px, U.em]) for k in range(n)]
            v, take = tuple(vs), TAKES[n]
        else:
            vs = [mk.num(f"n{k}", "int") if n <= 4 and mk.choice(f"v{k} is", ["text", "number"]) == "number" else text(mk, sides[0], f"v{k}") for k in range(n)]
            v, take = tuple(vs), TAKES.get(n)
        st, r = mk.call(lambda: setattr(css, name, v))
        after = snapshot(css)
        if take is None:
            mk.ensure("1 to 4 values are needed", st == "raise" and isinstance(r, ValueError), show(mk, r))
            mk.ensure("a refused value changes nothing", unchanged(mk, before, after))
            return
        es = [rd.accepts(sides[take.index(k)], x) for k, x in enumerate(vs)]
        if any(e is None for e in es):
            mk.ensure("values that a side refuses are refused", st == "raise" and isinstance(r, ValueError), show(mk, r))
            if es[0] is None:
                mk.ensure("a refused value changes nothing", unchanged(mk, before, after))
            mk.ensure("other properties are not affected", unchanged(mk, before, after, sides))
            return
        mk.ensure("values that the sides accept are accepted", st == "ok", show(mk, r))
        if st != "ok":
            return
        for s, k in zip(sides, take):
            mk.ensure(f"{n} values: the {s} takes value {k + 1}", es[k](after[s]), show(mk, after[s]))
        mk.ensure("other properties are not affected", unchanged(mk, before, after, sides))
        mk.ensure("a change invalidates the layout", mk.or_(node.layout.dirty is True, mk.all(same(after[s], before[s]) for s in sides)))
        got = getattr(css, name)
        mk.ensure("reading gives top, right, bottom, left", isinstance(got, tuple) and len(got) == 4 and mk.all(same(x, after[s]) for x, s in zip(got, sides)), show(mk, got))

    def delete(mk, lib):
        rd = Reading(mk, lib, sides)
        css, node = declaration(mk, lib, None, mk.choice("before", others(mk)))
        if mk.choice("one side", ["no", "yes"]) == "yes":
            s = mk.choice("side", sides)
            if mk.call(lambda: setattr(css, s, text(mk, s, "old")))[0] != "ok":
                unspecified(mk)
        before = snapshot(css)
        node.layout.dirty = None
        st, r = mk.call(lambda: delattr(css, name))
        after = snapshot(css)
        mk.ensure("deleting succeeds", st == "ok", show(mk, r))
        for s in sides:
            mk.ensure("deleting sets every side to its initial value", spec.initial(mk, lib, css, s)(after[s]), s)
        mk.ensure("other properties are not affected", unchanged(mk, before, after, sides))
        mk.ensure("a change invalidates the layout", mk.or_(node.layout.dirty is True, mk.all(same(after[s], before[s]) for s in sides)))

    return contract, delete


def symbolic_part(mk, kind, n, k):
    if n <= 4 and mk.choice(f"p{k} is", ["text", "number"]) == "number":
        return mk.num(f"n{k}", "int")
    return mk.string(f"p{k}", gen=spec.gen_text(kind))


def parts_of(name):
    """[(what a part may be, longhands it sets)]"""
    out = []
    for x in SHORTHAND[name]:
        out.append((DIRECTIONAL[x] % "top", [DIRECTIONAL[x] % s for s in SIDES]) if x in DIRECTIONAL else (x, [x]))
    return out


def gen_shorthand(kinds):
    def gen(r):
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 3, 4])
        ps = [spec.gen_text(r.choice(kinds))(r).replace(" ", "") for _ in range(n)]
        if r.random() < 0.6:
            good = {"length": ["1px", "2em", "0"], "color": ["red", "#fff"], None: []}
            ks = list(kinds)
            r.shuffle(ks)
            ps = [r.choice(list(PROPS[k].words) + good[PROPS[k].kind] + (["none"] if PROPS[k].none else [])) for k in ks[:n]]
        return r.choice([" ", "  ", "\t", " \n "]).join(ps)

    return gen


def shorthand(name):
    kinds = [k for k, _ in parts_of(name)]
    targets = dict(parts_of(name))
    all_ = [x for _, xs in parts_of(name) for x in xs]

    def contract(mk, lib):
        rd = Reading(mk, lib, kinds)
        css, node = declaration(mk, lib, None, mk.choice("before", others(mk)))
        before = snapshot(css)
        node.layout.dirty = None
        form = mk.choice("form", ["text", "sequence", "other"] if mk.symbolic else ["text", "text", "text", "sequence", "sequence", "other"])
        if form == "text":
            if mk.symbolic:
                n = mk.choice("words", [0, 1, 2, 3, 4, "more"])
                v, parts = S.words(4 if n == "more" else n, n == "more")
                parts = list(parts) + ([E.Seg("more parts", lambda: None)] if n == "more" else [])
                if n == 0 and mk.choice("empty", [False, True]):
                    v = ""
            else:
                v = mk.string("value", gen=gen_shorthand(kinds))
                parts = v.split()
            if len(parts) == 0 and not mk.known(v == ""):
                unspecified(mk)
        elif form == "sequence":
            n = mk.choice("n", [0, 1, 2, 3, 4, 5])
            seq = [symbolic_part(mk, kinds[k % 3], n, k) if mk.symbolic else spec.any_value(mk, lib, kinds[k % 3], f"p{k}") for k in range(n)]
            v = mk.choice("type", [list, tuple])(seq)
            parts = seq
        else:
            v = mk.choice("value", [None, 0, 5, 1.5, {}, spec.Thing()])
            parts = []
        st, r = mk.call(lambda: setattr(css, name, v))
        after = snapshot(css)
        more = bool(parts) and isinstance(parts[-1], E.Seg)
        if len(parts) > 3 or more or not parts:
            mk.ensure("between 1 and 3 parts are needed", st == "raise" and isinstance(r, ValueError), show(mk, r))
            mk.ensure("a refused value changes nothing", unchanged(mk, before, after))
            return
        given, bad = {}, False
        for p in parts:
            rd.one_class(p, kinds)
            es = [(k, e) for k, e in ((k, rd.accepts(k, p)) for k in kinds) if e is not None]
            if len(es) > 1:
                unspecified(mk)
            if not es or es[0][0] in given:
                bad = True
            else:
                given[es[0][0]] = es[0][1]
        if bad:
            mk.ensure("parts that fit no longhand, or the same one twice, are refused", st == "raise" and isinstance(r, ValueError), show(mk, r))
            mk.ensure("a refused value changes nothing", unchanged(mk, before, after))
            return
        mk.ensure("parts of different longhands are accepted in any order", st == "ok", show(mk, r))
        if st != "ok":
            return
        for k in kinds:
            for q in targets[k]:
                if k in given:
                    mk.ensure(f"{q} takes its part", given[k](after[q]), show(mk, after[q]))
                else:
                    mk.ensure(f"{q} without a part is reset", spec.initial(mk, lib, css, q)(after[q]), show(mk, after[q]))
        mk.ensure("other properties are not affected", unchanged(mk, before, after, all_))
        mk.ensure("a change invalidates the layout", mk.or_(node.layout.dirty is True, mk.all(same(after[s], before[s]) for s in all_)))

    def read(mk, lib):
        """Reading and deleting."""
        rd = Reading(mk, lib, all_)
        css, node = declaration(mk, lib, None, mk.choice("before", others(mk)))
        for q in all_[:3]:
            if len(all_) == 3 and mk.choice(q, ["as before", "is set"]) == "is set":
                if mk.call(lambda: setattr(css, q, text(mk, q, "value of " + q)))[0] != "ok":
                    unspecified(mk)
        before = snapshot(css)
        names = [q for q in all_ if q in css.keys()]
        if len(all_) == 3:
            got = getattr(css, name)
            if not names:
                mk.ensure("nothing set: reading gives nothing", not got, show(mk, got))
            else:
                mk.ensure("reading gives the longhands that are set", mk.all(same(getattr(got, q, None), before[q]) for q in names), str(names))
                mk.ensure("reading gives no other longhand", sorted(got.to_dict()) == sorted(names), str(names))
        node.layout.dirty = None
        st, r = mk.call(lambda: delattr(css, name))
        after = snapshot(css)
        mk.ensure("deleting succeeds", st == "ok", show(mk, r))
        for q in all_:
            mk.ensure("deleting resets every longhand", spec.initial(mk, lib, css, q)(after[q]), q)
        mk.ensure("other properties are not affected", unchanged(mk, before, after, all_))
        mk.ensure("a change invalidates the layout", mk.or_(node.layout.dirty is True, mk.all(same(after[s], before[s]) for s in all_)))

    return contract, read


DF = ["declaration.directional_property"]
SF = ["declaration.validated_shorthand_property", "parser.border", "parser.outline", "parser._parse_border_property_part", "parser._parse_outline_property_part", "wrappers.Shorthand"]
SETS, DELS = [], []
for d in DIRECTIONAL:
    a, b = directional(d)
    SETS.append(Contract(f"setting {d}", a, DF, runs=400, weight=3))
    DELS.append(Contract(f"deleting {d}", b, DF, runs=100))
for d in SHORTHAND:
    a, b = shorthand(d)
    SETS.append(Contract(f"setting {d}", a, SF, runs=800, weight=5, max_seconds=500))
    DELS.append(Contract(f"reading and deleting {d}", b, SF, runs=150))
CONTRACTS = SETS + DELS
