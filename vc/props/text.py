"""C15: lengths in text."""

import math

import z3

from .. import engine as E
from .. import strings as S
from ..engine import SymBool, SymNum
from ..harness import Contract
from .lengths import LENGTHS, ANGLES, SUFFIX, show

NUMBERS = ["0", "1", "5", "-3", "+7", "1.5", ".5", "5.", "1e3", "1e-2", " 4", "4 ", "\t2", "1_000", "00", "-0", "1e400", "inf", "nan", "-inf", "Infinity",
           "", " ", "x", "0x10", "1,5", "--1", "1 2", "e", "1e", "\u0663", "5p", "5v", "5vm", "a", "p", "\u00bd", "1__0", "_1", "+", ".", "1.5.2"]


def gen_length(r):
    n = r.choice(NUMBERS) if r.random() < 0.8 else str(r.choice([r.randint(-500, 500), round(r.uniform(-50, 50), r.randint(0, 6))]))
    s = r.choice([SUFFIX[u] for u in (*LENGTHS, *ANGLES)] + ["", "", "x", "PX", "q", "rem", "Em", " px", "px "])
    return n + s + (r.choice([" ", ";", "m", "px"]) if r.random() < 0.05 else "")


def finite(mk, s):
    """(is s the text of a finite number, that number)"""
    if isinstance(s, S.SymStr):
        S.num_facts(s.e)
        return SymBool(S.Fin(s.e)), SymNum(S.FVal(s.e), False)
    try:
        x = float(s)
    except ValueError:
        return False, None
    return math.isfinite(x), x


def amount_before(mk, v, suffix):
    """(is v a finite number followed by suffix, the number)"""
    if isinstance(v, S.SymStr):
        x = z3.SubString(v.e, 0, z3.Length(v.e) - len(suffix))
        ok, n = finite(mk, S.SymStr(x))
        return mk.and_(SymBool(z3.SuffixOf(S.lit(suffix), v.e)), ok), n
    if not v.endswith(suffix):
        return False, None
    return finite(mk, v[: len(v) - len(suffix)])


def same_unit(lib, r, name):
    u = getattr(lib.units, name)
    return isinstance(r, lib.get("units.Unit")) and type(r) is type(u) and r.suffix == u.suffix


def text(mk, lib):
    """units(v) for every text v."""
    v = mk.string("text", gen=gen_length)
    st, r = mk.call(lambda: lib.parser.units(v))
    if st == "raise":
        mk.ensure("what is not a length is refused with ValueError", isinstance(r, ValueError), type(r).__name__)
        for u in LENGTHS:
            ok, _ = amount_before(mk, v, SUFFIX[u])
            mk.ensure(f"a number with the suffix {SUFFIX[u]} is a length", mk.not_(ok))
        ok, _ = finite(mk, v)
        mk.ensure("a number without suffix is a length", mk.not_(ok))
        return
    mk.ensure("the result is a length", isinstance(r, lib.get("units.Unit")), show(mk, r))
    if not isinstance(r, lib.get("units.Unit")):
        return
    name = next((u for u in LENGTHS if same_unit(lib, r, u)), None)
    mk.ensure("the result is of one of the length units", name is not None, r.suffix)
    if name is None:
        return
    ok, n = amount_before(mk, v, SUFFIX[name])
    if name == "px":
        ok2, n2 = finite(mk, v)
        if not mk.symbolic:
            ok, n = (ok, n) if ok else (ok2, n2)
        else:
            n = mk.ite(ok, n, n2)
            ok = mk.or_(ok, ok2)
    mk.ensure(f"{name}: only a finite number with this suffix", ok, show(mk, r))
    mk.ensure(f"{name}: the amount is the number", mk.implies(ok, mk.eq(r.val, n)) if mk.symbolic else (not ok or r.val == n), show(mk, r))


def nothing(mk, lib):
    """Values that are no text."""
    deg = lib.units.deg

    class Thing:
        pass

    kind = mk.choice("kind", ["int", "float", "nonfinite", "length", "angle", "unit", "other", "bool"])
    if kind in ("int", "float"):
        v = mk.num("number", kind)
    elif kind == "nonfinite":
        v = mk.choice("value", [math.inf, -math.inf, math.nan])
    elif kind == "bool":
        v = mk.choice("value", [True, False])
    elif kind == "length":
        v = mk.num("number", "float") * getattr(lib.units, mk.choice("unit", list(LENGTHS)))
    elif kind == "unit":
        v = getattr(lib.units, mk.choice("unit", list(LENGTHS)))
    elif kind == "angle":
        v = mk.num("number", "float") * deg
    else:
        v = mk.choice("value", [None, (), [], (1,), {}, b"5px", 3j, Thing()])
    st, r = mk.call(lambda: lib.parser.units(v))
    if kind in ("int", "float", "bool"):
        mk.ensure("a number is a length", st == "ok", show(mk, r))
        if st == "ok":
            mk.ensure("a number is a length in px", same_unit(lib, r, "px"), show(mk, r))
            mk.ensure("a number is that many px", mk.eq(r.val, v), show(mk, r))
    elif kind in ("length", "unit"):
        mk.ensure("a length is itself", st == "ok" and r is v, show(mk, r))
    else:
        mk.ensure("anything else is refused with ValueError", st == "raise" and isinstance(r, ValueError), show(mk, r))


def round_trip(name):
    def contract(mk, lib):
        n = mk.num("n", mk.choice("kind", ["int", "float"]))
        u = n * getattr(lib.units, name)
        st, s = mk.call(lambda: lib.package and text_of(mk, u))
        mk.ensure(f"{name}: a length has a text", st == "ok", show(mk, s))
        if st != "ok":
            return
        mk.ensure(f"{name}: the text ends with the suffix", s.endswith(SUFFIX[name]), show(mk, s))
        st, r = mk.call(lambda: lib.parser.units(s))
        mk.ensure(f"{name}: the text of a length is a length", st == "ok", show(mk, r))
        if st != "ok":
            return
        mk.ensure(f"{name}: the text reads back as the same unit", same_unit(lib, r, name), show(mk, r))
        mk.ensure(f"{name}: the text reads back as the same amount", mk.eq(r.val, u.val) if mk.symbolic else r.val == u.val, show(mk, r))
        eq = mk.call(lambda: r == u)
        mk.ensure(f"{name}: the text reads back as an equal length", eq[0] == "ok" and eq[1])

    return contract


def text_of(mk, u):
    from ..hooks import HOOKS

    return HOOKS.call(str, u) if mk.symbolic else str(u)


TEXT = Contract("units of text", text, ["parser.units"], runs=6000, max_seconds=400)
OTHER = Contract("units of other values", nothing, ["parser.units"], runs=600)
ROUND = [Contract(f"{u}: text and back", round_trip(u), ["units.BaseUnit.__repr__", "units.BaseUnit.__str__", "parser.units"]) for u in LENGTHS]
CONTRACTS = [TEXT, OTHER] + ROUND
