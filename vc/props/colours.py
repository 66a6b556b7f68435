"""C16: colours."""

import z3

from .. import engine as E
from .. import strings as S
from ..engine import SymBool, SymNum
from ..harness import Contract
from . import grammar, spec
from .grammar import NAMED, SKIP
from .lengths import show
from .style import unspecified

HEX = "0123456789abcdefABCDEF"


def gen_hex(r):
    n = r.choice([3, 4, 6, 8, 3, 4, 6, 8, 0, 1, 2, 5, 7, 9, 12])
    s = "".join(r.choice(HEX) for _ in range(n))
    if n and r.random() < 0.25:
        k = r.randrange(n)
        s = s[:k] + r.choice("gGxX+-_ .#%zZ\u0661\n") + s[k + 1:]
    return "#" + s


NUMS = ["0", "1", "255", "256", "-5", " 7", "12 ", "128", "1.5", "", "x", "3%", "100%", "50", "0x10", "1e2", "1_0"]
ALPHAS = ["0", "1", "0.5", ".25", "1.0", " 0.75 ", "50%", "x", "", "2", "-1"]


def gen_function(r):
    f = r.choice(["rgb", "rgba", "hsl", "hsla"])
    n = (4 if f.endswith("a") else 3) if r.random() < 0.8 else r.choice([0, 1, 2, 3, 4, 5])
    parts = []
    good = r.random() < 0.7
    for k in range(n):
        if not good:
            parts.append(r.choice(NUMS + ALPHAS))
        elif k == 3:
            parts.append(r.choice(["0", "1", "0.5", " .25", "1.0", "0.125 "]))
        elif f.startswith("hsl") and k:
            parts.append(f"{r.choice(['', ' '])}{r.randint(0, 100)}%{r.choice(['', ' '])}")
        else:
            parts.append(f"{r.choice(['', ' '])}{r.randint(-20, 400)}{r.choice(['', ' '])}")
    s = f + "(" + ",".join(parts) + ")"
    m = r.random()
    if m < 0.06:
        return s[:-1]
    if m < 0.12:
        return s.replace("(", r.choice(["", "[", " (", "(("]))
    if m < 0.16:
        return r.choice([s.upper(), " " + s, s + " ", s + ";"])
    return s


def gen_name(r):
    w = r.choice(list(NAMED))
    m = r.random()
    if m < 0.4:
        return w
    if m < 0.6:
        return "".join(c.upper() if r.random() < 0.4 else c for c in w)
    if m < 0.8:
        k = r.randrange(len(w))
        return r.choice([w[:k] + w[k + 1:], w[:k] + r.choice("aeghlr ") + w[k:], w + " ", " " + w, w + "1"])
    return r.choice(spec.KEYWORDS + ["", " ", "transparent", "currentcolor", "invert", "5", "rgb", "hsl"])


def check(mk, v, e, st, r):
    """e: the reading of v (None: refused)."""
    if e is SKIP:
        unspecified(mk)
    if e is None:
        mk.ensure("what is no colour is refused with ValueError", st == "raise" and isinstance(r, ValueError), show(mk, r))
        return
    mk.ensure("a colour is accepted", st == "ok", show(mk, r))
    if st == "ok":
        mk.ensure("the colour has the components that were written", e(r), show(mk, r))


def close(mk, a, b):
    return mk.eq(a, b) if mk.symbolic else abs(a - b) < 1e-9


def is_rgb(mk, lib, r, g, b, a):
    def e(c):
        if not isinstance(c, lib.get("colors.rgb")):
            return False
        return mk.and_(mk.eq(c.r, r), mk.eq(c.g, g), mk.eq(c.b, b), near(mk, c.a, a))

    return e


def near(mk, x, a):
    """Equal up to the rounding of a division."""
    d = x - a
    return mk.and_(d <= 1e-9, d >= -1e-9)


def pounds(n):
    def contract(mk, lib):
        if mk.symbolic:
            if n is None:
                x = S.fresh("digits")
                mk.assume(mk.all(SymBool(z3.Length(x.e) != k) for k in (3, 4, 6, 8)))
                v = "#" + x
                S.record("text", v)
                st, r = mk.call(lambda: lib.parser.color(v))
                check(mk, v, None, st, r)
                return
            cs = [S.char(f"digit {k}") for k in range(n)]
            v = S.build(["#"] + [c.e for c in cs])
            S.record("text", v)
            st, r = mk.call(lambda: lib.parser.color(v))
            digits = [S.hex_digit(c.e) for c in cs]
            if not mk.known(SymBool(z3.And(*[ok for _, ok in digits]))):
                check(mk, v, None, st, r)
                return
            d = [SymNum(z3.ToReal(x), True) for x, _ in digits]
            c = [17 * x for x in d] if n < 5 else [16 * d[k] + d[k + 1] for k in range(0, n, 2)]
            check(mk, v, is_rgb(mk, lib, c[0], c[1], c[2], c[3] / 255 if len(c) == 4 else 1), st, r)
            return
        v = mk.string("text", gen=gen_hex)
        st, r = mk.call(lambda: lib.parser.color(v))
        check(mk, v, grammar.expect_color(mk, lib, v), st, r)

    return contract


def whole(mk, x):
    """(is x the text of a whole number, that number)"""
    if isinstance(x, S.SymStr):
        S.num_facts(x.e)
        return SymBool(S.IsInt(x.e)), SymNum(z3.ToReal(S.IVal(x.e)), True)
    try:
        return True, int(x)
    except ValueError:
        return False, None


def function(f):
    def contract(mk, lib):
        if not mk.symbolic:
            v = mk.string("text", gen=gen_function)
            st, r = mk.call(lambda: lib.parser.color(v))
            check(mk, v, grammar.expect_color(mk, lib, v), st, r)
            return
        want = 4 if f.endswith("a") else 3
        n = mk.choice("parts", [1, 2, 3, 4, "more"])
        if n != want:
            x, _ = S.items(4 if n == "more" else n, ",", n == "more")
            v = f + "(" + x + ")"
            S.record("text", v)
            st, r = mk.call(lambda: lib.parser.color(v))
            check(mk, v, None, st, r)
            return
        parts, nums, good = [], [], []
        for k in range(want):
            x = S.piece(f"part {k}", ",")
            if k == 3:
                S.num_facts(x.e)
                good.append(SymBool(S.Fin(x.e)))
                mk.assume(SymBool(z3.Not(S.NonFin(x.e))))  # (an alpha of inf or nan is left open)
                nums.append(SymNum(S.FVal(x.e), False))
                parts.append([x.e])
            elif f.startswith("hsl") and k > 0:
                # (gap) x % (gap); without a % it is left open, unless it is no number either
                form = mk.choice(f"part {k} is", ["n%", "x%y%", "x%y", "x"])
                lead, trail = S.gap("gap", False), S.gap("gap", False)
                x = S.piece(f"part {k}", ",%")
                S.edges(x.e, lead=S.SPACES)
                if form == "n%":
                    ok, m = whole(mk, x)
                    good.append(ok)
                    nums.append(m)
                    parts.append([lead, x.e, "%", trail])
                elif form == "x":
                    S.edges(x.e, lead=S.SPACES, trail=S.SPACES)
                    if mk.known(whole(mk, x)[0]):
                        unspecified(mk)
                    good.append(False)
                    nums.append(None)
                    parts.append([lead, x.e, trail])
                else:
                    y = S.piece(f"part {k} end", ",%", nonempty=True)
                    S.edges(y.e, trail=S.SPACES)
                    good.append(False)
                    nums.append(None)
                    parts.append([lead, x.e, "%", y.e] + (["%"] if form == "x%y%" else []) + [trail])
            else:
                ok, m = whole(mk, x)
                good.append(ok)
                nums.append(m)
                parts.append([x.e])
        ps = [f + "("]
        for k, x in enumerate(parts):
            ps += ([","] if k else []) + x
        v = S.build(ps + [")"])
        S.record("text", v)
        st, r = mk.call(lambda: lib.parser.color(v))
        if not mk.known(mk.all(good)):
            check(mk, v, None, st, r)
            return
        a = nums[3] if want == 4 else 1
        if f.startswith("rgb"):
            check(mk, v, is_rgb(mk, lib, nums[0], nums[1], nums[2], a), st, r)
        else:
            def e(c):
                if not isinstance(c, lib.get("colors.hsl")):
                    return False
                return mk.and_(mk.eq(c.h, nums[0]), near(mk, c.s, nums[1] / 100), near(mk, c.l, nums[2] / 100), near(mk, c.a, a))

            check(mk, v, e, st, r)

    return contract


def names(mk, lib):
    """Everything else: one of the names, in any case, or no colour."""
    v = mk.string("text", gen=gen_name)
    if mk.symbolic:
        # (the other contracts are about these)
        mk.assume(mk.not_(v.startswith("#")))
        for f in ("rgba(", "rgb(", "hsla(", "hsl("):
            mk.assume(mk.not_(mk.and_(v.startswith(f), v.endswith(")"))))
    st, r = mk.call(lambda: lib.parser.color(v))
    if not mk.symbolic:
        check(mk, v, grammar.expect_color(mk, lib, v), st, r)
        return
    low = v.lower()
    if st == "raise":
        mk.ensure("a text that is no colour is refused with ValueError", isinstance(r, ValueError), show(mk, r))
        mk.ensure("every name of a colour, in any case, is accepted", mk.all(mk.not_(low == w) for w in NAMED))
        return
    fits = [low == w for w, h in NAMED.items() if E.tobool(is_rgb(mk, lib, *[int(h[k:k + 2], 16) for k in (0, 2, 4)], 1)(r)) is True]
    mk.ensure("only the names of colours are accepted, with the colour they name", mk.or_(*fits) if fits else False)


def others(mk, lib):
    kind = mk.choice("value", ["rgb", "hsl", "int", "float", "length", "none", "bool", "other"])
    if kind == "rgb":
        v = lib.get("colors.rgb")(*[mk.num(x, "int") for x in "rgb"], mk.num("a", "float"))
    elif kind == "hsl":
        v = lib.get("colors.hsl")(mk.num("h", "int"), mk.num("s", "float"), mk.num("l", "float"))
    elif kind in ("int", "float"):
        v = mk.num("n", kind)
    elif kind == "length":
        v = mk.unit("length")
    elif kind == "bool":
        v = mk.choice("v", [True, False])
    else:
        v = None if kind == "none" else mk.choice("v", [(), [], (1, 2, 3), {}, b"red", 3j, spec.Thing()])
    st, r = mk.call(lambda: lib.parser.color(v))
    if kind in ("rgb", "hsl"):
        mk.ensure("a colour is itself", st == "ok" and r is v, show(mk, r))
        mk.ensure("its rgb is a colour", isinstance(v.rgb, lib.get("colors.rgb")))
    else:
        check(mk, v, None, st, r)


def components(mk, lib):
    """rgb and hsl hold what they are given; their text."""
    cls = mk.choice("class", ["rgb", "hsl"])
    xs = [mk.num(f"c{k}", mk.choice(f"c{k} is", ["int", "float"]) if not mk.symbolic else "int") for k in range(3)]
    a = mk.num("a", "float")
    give = mk.choice("alpha", ["given", "default", "named"])
    C = lib.get("colors." + cls)
    c = C(*xs, a) if give == "given" else C(*xs, a=a) if give == "named" else C(*xs)
    got = [getattr(c, n) for n in cls]
    mk.ensure("components are kept", mk.all(g is x or g == x for g, x in zip(got, xs)))
    mk.ensure("alpha is kept, 1 if not given", mk.eq(c.a, 1 if give == "default" else a))
    if cls == "rgb":
        mk.ensure("the rgb of an rgb colour is itself", c.rgb is c)
        if all(type(x) is int or mk.symbolic for x in xs):
            st, s = mk.call(lambda: spec_text(mk, c))
            mk.ensure("a colour has a text", st == "ok", show(mk, s))
            if st != "ok":
                return
            st, d = mk.call(lambda: lib.parser.color(s))
            mk.ensure("the text of an rgb colour is a colour", st == "ok", show(mk, d))
            if st == "ok":
                mk.ensure("the text of an rgb colour reads back as the same colour", is_rgb(mk, lib, *xs, c.a)(d), show(mk, d))


def spec_text(mk, x):
    from .access import text_of

    return text_of(mk, x)


def conversion(sector):
    """hsl -> rgb, CSS Color 3, section 4.2.4."""

    def contract(mk, lib):
        mk.exact()
        s, l = mk.num("s", "float", lo=0, hi=1), mk.num("l", "float", lo=0, hi=1)
        a = mk.num("a", "float", lo=0, hi=1)
        turns = mk.num("turns", "int", lo=-1000, hi=1000)
        f = mk.num("f", mk.choice("hue", ["int", "float"]), lo=0, lt=60)
        if not mk.symbolic:
            mk.assume(f < 60)
        h = 360 * turns + 60 * sector + f
        st, c = mk.call(lambda: lib.get("colors.hsl")(h, s, l, a).rgb)
        mk.ensure("every hsl colour has an rgb colour", st == "ok" and isinstance(c, lib.get("colors.rgb")), show(mk, c))
        if st != "ok":
            return
        m2 = l * (s + 1) if mk.known(l <= 0.5) else l + s - l * s
        m1 = l * 2 - m2
        up = m1 + (m2 - m1) * f / 60
        down = m2 - (m2 - m1) * f / 60
        want = [(m2, up, m1), (down, m2, m1), (m1, m2, up), (m1, down, m2), (up, m1, m2), (m2, m1, down)][sector]
        for n, w in zip("rgb", want):
            d = getattr(c, n) - 255 * w
            mk.ensure(f"{n} is the nearest whole value", mk.and_(d <= 0.5 + 1e-6, d >= -0.5 - 1e-6), show(mk, getattr(c, n)))
            g = getattr(c, n)
            mk.ensure(f"{n} is whole", spec.is_int(mk, g) if isinstance(g, SymNum) else float(g).is_integer(), show(mk, g))
        mk.ensure("alpha is kept", mk.eq(c.a, a))

    return contract


PF = ["parser.color", "parser.pound_sign_color"]
HASH = [Contract(f"# and {n} characters", pounds(n), PF, runs=1000) for n in (3, 4, 6, 8)] + [Contract("# and any other number of characters", pounds(None), PF, runs=200)]
FUNCTIONS = [Contract(f"{f}()", function(f), ["parser.color"], runs=1500) for f in ("rgb", "rgba", "hsl", "hsla")]
NAMES = Contract("names of colours", names, ["parser.color", "colors.NAMED_COLOR"], runs=2500, max_seconds=400)
OTHERS = Contract("colours of other values", others, ["parser.color"], runs=300)
COMPONENTS = Contract("components of colours", components, ["colors.rgb", "colors.hsl", "parser.color"], runs=300)
CONVERT = [Contract(f"conversion of hues from {60 * k} to {60 * k + 60}", conversion(k), ["colors.hsl.rgb"], runs=400, max_seconds=300) for k in range(6)]
CONTRACTS = HASH + FUNCTIONS + [NAMES, OTHERS, COMPONENTS] + CONVERT
