"""C14: what a length is in pixels; arithmetic and equality of units."""

import math
from fractions import Fraction

from .. import engine as E
from ..engine import SymBool, SymNum
from ..harness import Contract

EPS = Fraction(1, 10**6)

# unit -> (kind, amount): the meaning of each unit, CSS 2.1 S4.3.2 / CSS3 values S5-6
ABSOLUTE = {
    "pt": Fraction(1),
    "pc": Fraction(12),
    "inch": Fraction(72),
    "cm": Fraction(7200, 254),
    "mm": Fraction(720, 254),
}
FONT = ("em", "ex", "ch")
VIEWPORT = ("vw", "vh", "vmin", "vmax")
LENGTHS = ("px", *FONT, *ABSOLUTE, *VIEWPORT, "percent")
ANGLES = {"deg": Fraction(1), "grad": Fraction(9, 10), "rad": Fraction(180 / math.pi), "turn": Fraction(360)}
SUFFIX = {u: {"inch": "in", "percent": "%"}.get(u, u) for u in (*LENGTHS, *ANGLES)}


class Bag:
    """An object with exactly these attributes."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("vc_"):
            raise AttributeError(name)
        if E.CURRENT is not None:
            raise E.Unsupported(f"attribute {name}")
        raise AttributeError(name)


def show(mk, x):
    return None if mk.symbolic else repr(x)


def isint(x):
    if isinstance(x, SymNum):
        f = x.isint
        return f if isinstance(f, bool) else SymBool(f)
    return isinstance(x, int) and not isinstance(x, bool)


def real(x):
    """A number as an exact value (natively a Fraction: the spec is not subject to rounding)."""
    if isinstance(x, SymNum):
        return x
    return Fraction(x)


def context(mk):
    display = Bag(dpi=mk.num("dpi", "num", gt=0), content_width=mk.num("dw", "num", lo=0), content_height=mk.num("dh", "num", lo=0))
    font = Bag(em=mk.num("em", "num"), ex=mk.num("ex", "num"), ch=mk.num("ch", "num"))
    size = mk.num("size", "num")
    return display, font, size


def exact(mk, name, v, display, font, size):
    """The length in pixels, before rounding."""
    v = real(v)
    if name == "px":
        return v
    if name in FONT:
        return v * real(getattr(font, name)) * real(display.dpi) / 72
    if name in ABSOLUTE:
        return v * ABSOLUTE[name] * real(display.dpi) / 72
    if name == "percent":
        return v * real(size) / 100
    w, h = real(display.content_width), real(display.content_height)
    ref = {"vw": w, "vh": h, "vmin": mk.min(w, h), "vmax": mk.max(w, h)}[name]
    return v * ref / 100


def absval(mk, x):
    return mk.ite(x >= 0, x, -x)


def px_contract(name):
    def contract(mk, lib):
        unit = getattr(lib.units, name)
        v = mk.num("amount", mk.choice("kind", ["int", "float"]))
        display, font, size = context(mk)
        # what a unit does not need may be missing
        ctx = {
            "display": display if name in ABSOLUTE or name in FONT or name in VIEWPORT else mk.choice("display", [None, display]),
            "font": font if name in FONT else mk.choice("font", [None, font]),
            "size": size if name == "percent" else mk.choice("size?", [None, size]),
        }
        st, u = mk.call(lambda: v * unit)
        mk.ensure(f"{name}: a number times a unit is a length", st == "ok" and isinstance(u, lib.get("units.Unit")), show(mk, u))
        if st != "ok":
            return
        st, r = mk.call(lambda: u.px(**ctx))
        mk.ensure(f"{name}: the conversion completes", st == "ok", show(mk, r))
        if st != "ok":
            return
        mk.ensure(f"{name}: the result is a number", E.isnum(r), show(mk, r))
        if not E.isnum(r):
            return
        want = 64 * exact(mk, name, v, display, font, size)
        k = 64 * real(r)
        mk.ensure(f"{name}: the result is a multiple of 1/64 px", mk.eq(k, math.floor(k)))
        tol = Fraction(1, 2) + EPS
        if name in ("cm", "mm"):
            # the centimetre is given to six digits
            tol = tol + absval(mk, want) * Fraction(3, 10**6)
        else:
            tol = tol + absval(mk, want) * Fraction(1, 10**12)
        mk.ensure(f"{name}: the pixel value, to the nearest 1/64 px", mk.and_(k - want <= tol, want - k <= tol))
        whole = mk.eq(real(r), math.floor(real(r))) if mk.symbolic else r == math.floor(r)
        mk.ensure(f"{name}: whole pixel values are ints", mk.implies(whole, isint(r)))

    return contract


def angle_contract(name):
    def contract(mk, lib):
        unit = getattr(lib.units, name)
        v = mk.num("amount", mk.choice("kind", ["int", "float"]))
        st, u = mk.call(lambda: v * unit)
        mk.ensure(f"{name}: a number times a unit is an angle", st == "ok" and isinstance(u, lib.get("units.AngleUnit")), show(mk, u))
        if st != "ok":
            return
        mk.ensure(f"{name}: an angle is not a length", not isinstance(u, lib.get("units.Unit")))
        st, r = mk.call(lambda: u.deg())
        mk.ensure(f"{name}: the conversion completes", st == "ok" and E.isnum(r), show(mk, r))
        if st != "ok":
            return
        want = real(v) * ANGLES[name]
        d = real(r) - want
        tol = absval(mk, want) * Fraction(1, 10**12)
        mk.ensure(f"{name}: the angle in degrees", mk.and_(d <= tol, -d <= tol))
        whole = mk.eq(real(r), math.floor(real(r))) if mk.symbolic else r == math.floor(r)
        mk.ensure(f"{name}: whole angles are ints", mk.implies(whole, isint(r)))

    return contract


def amount(u):
    return u.val


def arithmetic(name):
    """n * unit, -unit: new values of the same unit; nothing else changes."""

    def contract(mk, lib):
        unit = getattr(lib.units, name)
        registry = lib.get("units.BaseUnit").UNITS
        before = list(registry)
        n, m = (mk.num(x, mk.choice(x + " is", ["int", "float"])) for x in "nm")
        st, u = mk.call(lambda: n * unit)
        mk.ensure(f"{name}: n * unit completes", st == "ok", show(mk, u))
        if st != "ok":
            return
        mk.ensure(f"{name}: n * unit is n units", mk.eq(amount(u), n))
        mk.ensure(f"{name}: n * unit has the unit's suffix", u.suffix == SUFFIX[name], u.suffix)
        st, w = mk.call(lambda: m * u)
        mk.ensure(f"{name}: m * (n * unit) completes", st == "ok" and type(w) is type(unit), show(mk, w))
        if st != "ok":
            return
        mk.ensure(f"{name}: m * (n * unit) is m*n units", mk.eq(amount(w), m * n))
        st, w2 = mk.call(lambda: -u)
        mk.ensure(f"{name}: -(n * unit) completes", st == "ok" and type(w2) is type(unit), show(mk, w2))
        if st != "ok":
            return
        mk.ensure(f"{name}: -(n * unit) is -n units", mk.eq(amount(w2), -n))
        for x, what in ((u, "n * unit"), (w, "m * (n * unit)"), (w2, "-unit")):
            mk.ensure(f"{name}: {what} is of the same unit", x.suffix == SUFFIX[name] and type(x) is type(unit))
            mk.ensure(f"{name}: {what} measures like the unit", same_scale(x, unit))
        mk.ensure(f"{name}: scaling leaves the operand alone", mk.eq(amount(u), n))
        mk.ensure(f"{name}: scaling leaves the unit alone", unit.val == 1)
        mk.ensure(f"{name}: scaling does not register units", len(registry) == len(before) and all(a is b for a, b in zip(registry, before)))
        del registry[len(before):]

    return contract


def same_scale(a, b):
    x, y = getattr(a, "scale", None), getattr(b, "scale", None)
    return x is y or x == y


def equality(mk, lib):
    """Two values are equal exactly if unit and amount are."""
    names = (*LENGTHS, *ANGLES)
    i = mk.choice("first", list(range(len(names))))
    j = mk.choice("second", list(range(len(names))))
    a, b = names[i], names[j]
    x, y = mk.num("x", "num"), mk.num("y", "num")
    if not mk.symbolic and mk.rng.random() < 0.5:
        y = x
    u, v = x * getattr(lib.units, a), y * getattr(lib.units, b)
    st, r = mk.call(lambda: u == v)
    mk.ensure("equality completes", st == "ok", show(mk, r))
    if st != "ok":
        return
    r = mk.known(r)
    if a != b:
        mk.ensure(f"values of different units are not equal", not r, (a, b))
    else:
        mk.ensure(f"{a}: equal exactly if the amounts are", mk.eq(x, y) if r else mk.not_(mk.eq(x, y)))
    st, q = mk.call(lambda: u != v)
    mk.ensure("inequality is the opposite of equality", st == "ok" and mk.known(q) == (not r))


def pixels_and_ints(mk, lib):
    n = mk.num("n", "num")
    k = mk.num("k", "int")
    if not mk.symbolic and mk.rng.random() < 0.5:
        n = k
    u = n * lib.units.px
    st, r = mk.call(lambda: u == k)
    mk.ensure("px == int completes", st == "ok", show(mk, r))
    if st == "ok":
        mk.ensure("pixels equal the int of the same amount, and only it", mk.eq(n, k) if mk.known(r) else mk.not_(mk.eq(n, k)))


def registry(mk, lib):
    """Every length unit is known to the parser under its suffix, once."""
    reg = lib.get("units.BaseUnit").UNITS
    for name in (*LENGTHS, *ANGLES):
        u = getattr(lib.units, name)
        hits = [x for s, x in reg if s == SUFFIX[name]]
        mk.ensure(f"{name}: registered once under its suffix", len(hits) == 1 and hits[0] is u, repr(hits))
        mk.ensure(f"{name}: its suffix", u.suffix == SUFFIX[name])


U = "units."
CLS = {**{n: "FontUnit" for n in FONT}, **{n: "AbsoluteUnit" for n in ABSOLUTE}, **{n: "ViewportUnit" for n in VIEWPORT},
       **{n: "AngleUnit" for n in ANGLES}, "px": "PixelUnit", "percent": "Percent"}
PX = [Contract(f"{n}: pixels", px_contract(n), [f"{U}{CLS[n]}.lu" if n != "px" else "units.Unit.lu", "units.Unit.px", f"{U}{CLS[n]}.dup", "units.BaseUnit.__rmul__"]) for n in LENGTHS]
ANGLE = [Contract(f"{n}: degrees", angle_contract(n), ["units.AngleUnit.deg", "units.AngleUnit.dup"]) for n in ANGLES]
ARITH = [Contract(f"{n}: arithmetic", arithmetic(n), [f"{U}{CLS[n]}.dup", "units.BaseUnit.__rmul__", "units.BaseUnit.__neg__", "units.BaseUnit.__init__"]) for n in (*LENGTHS, *ANGLES)]
EQUAL = [Contract("units: equality", equality, sorted({f"{U}{c}.__eq__" for c in CLS.values()}), runs=2000),
         Contract("px: equality with ints", pixels_and_ints, ["units.PixelUnit.__eq__"]),
         Contract("units: registry", registry, ["units.BaseUnit.__init__"])]
CONTRACTS = PX + ANGLE + ARITH + EQUAL
