"""C17: compound values - URIs, cursors, quotes, spacings, rectangles - and the objects that hold
them."""

import z3

from .. import engine as E
from .. import strings as S
from ..engine import SymBool
from ..harness import Contract
from . import grammar, spec
from .access import text_of
from .grammar import CURSORS, SKIP
from .lengths import show
from .style import alike, unspecified

IsUri = z3.Function("IsUri", S.STR, z3.BoolSort())


def check(mk, what, e, st, r):
    if e is SKIP:
        unspecified(mk)
    if e is None:
        mk.ensure(f"what is no {what} is refused with ValueError", st == "raise" and isinstance(r, ValueError), show(mk, r))
        return
    mk.ensure(f"a {what} is accepted", st == "ok", show(mk, r))
    if st == "ok":
        mk.ensure(f"the {what} is the one that was written", e(r), show(mk, r))


def parse(mk, lib, name, v):
    return mk.call(lambda: getattr(lib.parser, name)(v))


def eq(a, b):
    return True if a is b else a == b


def thing(mk):
    return mk.choice("other", [None, 5, 1.5, True, {}, 3j, {"a"}, spec.Thing()])


# -- URIs ----------------------------------------------------------------------------------
URLS = ["a.png", "http://x.org/a?b=c", "", "a b", "'", '"', "'a'", '"a"', "'a", 'a"', "a'b", "(x)", "url(a)", " ", "'a'b'"]


def gen_uri(r):
    g = lambda: r.choice(["", "", " ", "  ", "\t", "\n"])
    u = r.choice(URLS)
    q = r.choice(["", "'", '"'])
    s = g() + "url(" + g() + q + u + q + g() + ")" + g()
    m = r.random()
    if m < 0.2:
        k = r.randrange(len(s) + 1)
        s = s[:k] + s[k + 1:]
    return s


def uri_is(lib, u):
    return lambda r: eq(r.url, u) if isinstance(r, lib.get("wrappers.Uri")) else False


def uris(mk, lib):
    if not mk.symbolic:
        v = mk.string("text", gen=gen_uri) if mk.choice("kind", ["text"] * 9 + ["other"]) == "text" else thing(mk)
        st, r = parse(mk, lib, "uri", v)
        check(mk, "uri", grammar.expect_uri(mk, lib, v), st, r)
        return
    form = mk.choice("form", ["'", '"', "bare", "'bare", '"bare', "empty", "no uri", "blank", "other"])
    lead, trail, a, b = S.gap("lead", False), S.gap("trail", False), S.gap("gap", False), S.gap("gap", False)
    if form == "other":
        st, r = parse(mk, lib, "uri", thing(mk))
        check(mk, "uri", None, st, r)
        return
    if form in ("no uri", "blank"):
        # (every other text, without the white space around it)
        x = S.fresh("text")
        S.edges(x.e, S.SPACES, S.SPACES)
        v = S.build([lead, x.e, trail]) if form == "no uri" else S.build([lead])
        if form == "no uri":
            mk.assume(mk.not_(mk.and_(SymBool(z3.PrefixOf(S.lit("url("), x.e)), SymBool(z3.SuffixOf(S.lit(")"), x.e)))))
        S.record("text", v)
        st, r = parse(mk, lib, "uri", v)
        check(mk, "uri", None, st, r)
        return
    u = S.fresh("url")
    S.record("url", u)
    want = u
    if form in ("'", '"'):
        core = [form, u.e, form]
    elif form == "bare":
        # does not start with a quote
        mk.assume(SymBool(z3.Length(u.e) > 0))
        E.cur().memo[("nonempty", u.e.get_id())] = True
        S.edges(u.e, S.SPACES + ["'", '"'], S.SPACES)
        core = [u.e]
    elif form == "empty":
        core, want = [], ""
    else:
        # starts with a quote, does not end with it
        mk.assume(SymBool(z3.Length(u.e) > 0))
        E.cur().memo[("nonempty", u.e.get_id())] = True
        S.edges(u.e, "", S.SPACES + [form[0]])
        core, want = [form[0], u.e], form[0] + u
    v = S.build([lead, "url(", a, *core, b, ")", trail])
    S.record("text", v)
    st, r = parse(mk, lib, "uri", v)
    check(mk, "uri", uri_is(lib, want), st, r)


def uri_text(mk, lib):
    u = mk.string("url", gen=lambda r: r.choice(URLS))
    c = lib.get("wrappers.Uri")(u)
    mk.ensure("a uri keeps its url", eq(c.url, u))
    st, s = mk.call(lambda: text_of(mk, c))
    mk.ensure("a uri has a text", st == "ok", show(mk, s))
    if st != "ok":
        return
    mk.ensure("the text of a uri is url(...)", mk.and_(s.startswith("url("), s.endswith(")")), show(mk, s))
    st, r = parse(mk, lib, "uri", s)
    mk.ensure("the text of a uri reads back as that uri", st == "ok" and uri_is(lib, u)(r), show(mk, r))


# -- cursors ---------------------------------------------------------------------------------
def use_uri_contract(mk, lib):
    if not mk.symbolic:
        return
    real = lib.get("parser.uri")

    def stub(**a):
        (v,) = a.values()
        if not isinstance(v, S.SymStr):
            return real(v)
        if bool(SymBool(IsUri(v.e))):
            return uri_of(lib, v)
        raise ValueError("not a uri")

    params = list(__import__("inspect").signature(real).parameters)
    if len(params) == 1:
        mk.stub("parser.uri", stub, params)


def uri_of(lib, v):
    p = E.cur()
    key = ("uri", v.e.get_id())
    if key not in p.memo:
        p.keep.append(v.e)
        p.memo[key] = lib.get("wrappers.Uri")("<url of text>")
    return p.memo[key]


def reading_of_cursor(mk, lib, parts):
    es = []
    for k, x in enumerate(parts):
        if not isinstance(x, S.SymStr):
            e = grammar.expect_cursor(mk, lib, [x])
            if e is None or e is SKIP:
                return e
            if k < len(parts) - 1 and x in CURSORS:
                return None
            es.append(lambda r, e=e: e(lib.get("wrappers.Cursor")([r])))
            continue
        word = mk.or_(*[x == w for w in CURSORS])
        for w in CURSORS:  # (what the contract of uri says about them)
            mk.assume(mk.implies(x == w, SymBool(z3.Not(IsUri(x.e)))))
        mk.assume(mk.implies(x == "", SymBool(z3.Not(IsUri(x.e)))))
        if mk.known(word):
            if k < len(parts) - 1:
                return None
            es.append(lambda r, x=x: eq(r, x) if isinstance(r, (str, S.SymStr)) else False)
        elif mk.known(SymBool(IsUri(x.e))):
            es.append(lambda r, x=x: r is uri_of(lib, x))
        else:
            return None

    def e(r):
        if not isinstance(r, lib.get("wrappers.Cursor")) or len(r) != len(es):
            return False
        return mk.all(e(x) for e, x in zip(es, r))

    return e


def gen_cursor(r):
    n = r.choice([1, 1, 2, 2, 3, 4, 6])
    xs = [r.choice(["url(a)", "url('b.png')", 'url( "c" )', "url(d)", "url()"]) for _ in range(n)]
    if r.random() < 0.6:
        xs[-1] = r.choice(CURSORS)
    if r.random() < 0.3:
        xs[r.randrange(n)] = r.choice(CURSORS + ["foo", "", "AUTO", "url(", "default x"])
    return r.choice(["", " "]) + r.choice([",", ", ", " , ", ",\n"]).join(xs) + r.choice(["", " "])


def cursors(mk, lib):
    use_uri_contract(mk, lib)
    if not mk.symbolic:
        kind = mk.choice("kind", ["text"] * 6 + ["sequence"] * 3 + ["other"])
        if kind == "other":
            v = thing(mk)
        else:
            v = mk.string("text", gen=gen_cursor)
            if kind == "sequence":
                v = mk.choice("type", [list, tuple])(x.strip() for x in v.split(","))
                if mk.choice("odd", [False] * 9 + [True]):
                    v = type(v)([*v, mk.choice("odd one", [None, 5, b"auto", ["auto"]])])
        st, r = parse(mk, lib, "cursor", v)
        check(mk, "cursor", grammar.expect_cursor(mk, lib, v), st, r)
        return
    kind = mk.choice("kind", ["text", "list", "tuple", "other"])
    if kind == "other":
        st, r = parse(mk, lib, "cursor", thing(mk))
        check(mk, "cursor", None, st, r)
        return
    n = mk.choice("parts", [1, 2, 3, 4])
    parts = []
    for k in range(n):
        if kind != "text" and mk.choice(f"part {k} is", ["text", "other"]) == "other":
            parts.append(mk.choice("odd one", [None, 5, b"auto"]))
            continue
        x = S.piece(f"part {k}", "," if kind == "text" else "")
        S.edges(x.e, S.SPACES, S.SPACES)
        parts.append(x)
    if kind == "text":
        ps = []
        for k, x in enumerate(parts):
            ps += ([","] if k else []) + [S.gap("gap", False), x.e, S.gap("gap", False)]
        v = S.build(ps)
        S.record("text", v)
    else:
        v = parts if kind == "list" else tuple(parts)
    st, r = parse(mk, lib, "cursor", v)
    check(mk, "cursor", reading_of_cursor(mk, lib, parts), st, r)


def cursor_lists(mk, lib):
    """Lists and texts of any number of parts: what comes first decides.

    Every list is some uris, and then nothing, a keyword, something that is neither, or a keyword
    and more; parts around that are segments of any length.
    """
    if not mk.symbolic:
        return
    use_uri_contract(mk, lib)
    kind = mk.choice("kind", ["text", "list"])
    last = []

    def some(name):
        x = S.piece(name, "," if kind == "text" else "")
        S.edges(x.e, S.SPACES, S.SPACES)
        mk.assume(mk.implies(mk.or_(x == "", *[x == w for w in CURSORS]), SymBool(z3.Not(IsUri(x.e)))))
        if kind == "list":
            return x
        return x

    def padded(x):
        return x if kind == "list" else S.build([S.gap("gap", False), x.e, S.gap("gap", False)])

    def a_uri():
        x = some("uri")
        mk.assume(SymBool(IsUri(x.e)))
        last.append(x)
        return padded(x)

    def image(e):
        x = e.strip() if kind == "text" else e
        return uri_of(lib, x)

    uris = E.Seg("uris", a_uri)
    uris.image = image
    rest = E.Seg("more parts", lambda: padded(some("any part")))
    case = mk.choice("case", ["uris", "keyword", "neither", "keyword and more"])
    parts = [uris]
    word = None
    if case in ("keyword", "keyword and more"):
        word = some("word")
        mk.assume(mk.or_(*[word == w for w in CURSORS]))
        parts.append(padded(word))
    if case == "uris" and kind == "text":  # (a text has at least one part)
        uris.maybe_empty = False
    if case in ("neither", "keyword and more"):
        x = some("part")
        if case == "neither":
            mk.assume(mk.not_(mk.or_(SymBool(IsUri(x.e)), *[x == w for w in CURSORS])))
        parts += [padded(x), rest]
    v = E.VCList(parts) if kind == "list" else S.joined("text", ",", parts)
    st, r = parse(mk, lib, "cursor", v)
    if case in ("neither", "keyword and more"):
        mk.ensure("a list of parts that is no cursor is refused", st == "raise" and isinstance(r, ValueError), show(mk, r))
        return
    mk.ensure("a list of uris, and at most one keyword after them, is a cursor", st == "ok" and isinstance(r, lib.get("wrappers.Cursor")), show(mk, r))
    if st != "ok":
        return
    items = E.raw(r)
    if not items and case == "uris":
        return
    n = 2 if case == "keyword" else 1
    ok = len(items) in (n, n - 1)
    if ok and len(items) == n:
        s = items[0]
        if isinstance(s, E.Seg):
            if s.name.endswith("*"):
                raise E.Unsupported("a list of parts built in an unknown way")
            ok = s.root is uris and not s.name.endswith("?")
            if ok:
                y = s.make()
                ok = y is uri_of(lib, last[-1])
    if ok and case == "keyword":
        ok = not isinstance(items[-1], E.Seg) and eq(items[-1], word)
    mk.ensure("a cursor holds the parts in the order written", ok)


# -- border spacing ---------------------------------------------------------------------------
def reading_of_spacing(mk, lib, parts):
    if len(parts) not in (1, 2):
        return None
    es = [spec.expect_length(mk, lib, x) for x in parts]
    if None in es:
        return None

    def e(r):
        if not isinstance(r, lib.get("wrappers.BorderSpacing")):
            return False
        return mk.and_(es[0](r.horizontal), es[-1](r.vertical))

    return e


def gen_words(r):
    from .text import gen_length

    ws = [gen_length(r) if r.random() < 0.3 else r.choice(["1px", "2em", "5%", "0", "3.5mm"]) for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3, 4]))]
    return r.choice(["", " "]) + r.choice([" ", "  ", "\t", " \n"]).join(ws) + r.choice(["", " "])


def element(mk, lib, name):
    kind = mk.choice(name + " is", ["text", "number", "length", "other"])
    if kind == "text":
        return mk.string(name, gen=lambda r: r.choice(["1px", "2em", "x", "5", "", "3 4", "2%"]))
    if kind == "number":
        return mk.num(name, "float")
    if kind == "length":
        return mk.unit(name)
    return mk.choice(name + " odd", [None, (), [1], spec.Thing()])


def spacings(mk, lib):
    spec.use_contracts(mk, lib, ("length",)) if mk.symbolic else None
    kind = mk.choice("kind", ["text", "list", "tuple", "number", "other"])
    if kind == "other":
        v = thing(mk)
        if type(v) in (int, float, bool):
            unspecified(mk)
        parts = []
    elif kind == "number":
        v = mk.num("number", mk.choice("number is", ["int", "float"]))
        parts = [v]
    elif kind == "text":
        if mk.symbolic:
            n = mk.choice("words", [0, 1, 2, 3, 4, "more"])
            v, parts = S.words(4 if n == "more" else n, n == "more")
            if n == 0 and mk.choice("empty", [False, True]):
                v = ""
            S.record("text", v)
        else:
            v = mk.string("text", gen=gen_words)
            parts = v.split()
    else:
        n = mk.choice("n", [0, 1, 2, 3, 4])
        parts = [element(mk, lib, f"part {k}") for k in range(n)]
        v = parts if kind == "list" else tuple(parts)
    st, r = parse(mk, lib, "border_spacing", v)
    check(mk, "spacing", reading_of_spacing(mk, lib, parts), st, r)


def spacing_text(mk, lib):
    spec.use_contracts(mk, lib, ()) if mk.symbolic else None
    units = [mk.choice(f"unit {k}", ["px", "em", "pt", "vmin", "percent", "inch"] if not mk.symbolic else ["px", "vmin"]) for k in range(2)]
    h, v = [mk.num(f"n{k}", "int") * getattr(lib.units, u) for k, u in enumerate(units)]
    B = lib.get("wrappers.BorderSpacing")
    one = mk.choice("one", [True, False])
    b = B(h) if one else B(h, v)
    mk.ensure("the horizontal spacing is the first", b.horizontal is h)
    mk.ensure("the vertical spacing is the second, or the first", b.vertical is (h if one else v))
    st, s = mk.call(lambda: text_of(mk, b))
    mk.ensure("a spacing has a text", st == "ok", show(mk, s))
    if st != "ok":
        return
    st, c = parse(mk, lib, "border_spacing", s)
    mk.ensure("the text of a spacing is a spacing", st == "ok" and isinstance(c, B), show(mk, c))
    if st == "ok" and isinstance(c, B):
        mk.ensure("the text of a spacing reads back as the same", mk.and_(eq(c.horizontal, b.horizontal), eq(c.vertical, b.vertical)))


# -- rectangles ---------------------------------------------------------------------------------
def reading_of_rect(mk, lib, parts):
    es = []
    for x in parts:
        es.append(spec.expect_length(mk, lib, x))
        if es[-1] is None:
            return None
    if len(es) != 4:
        return None

    def e(r):
        if not isinstance(r, lib.get("shapes.Rect")):
            return False
        return mk.all(e(x) for e, x in zip(es, (r.top, r.right, r.left, r.bottom)))

    return e


def gen_rect(r):
    from .text import gen_length

    g = lambda: r.choice(["", "", " ", "  ", "\n"])
    ws = [gen_length(r) if r.random() < 0.15 else r.choice(["1px", "2em", "5%", "0", "-3.5mm", "1 px"]) for _ in range(r.choice([4, 4, 4, 4, 4, 3, 5, 1, 0]))]
    sep = r.choice([None, None, " "])
    inner = (g() + "," + g() if sep is None else r.choice([" ", "  ", "\t"])).join(ws)
    if r.random() < 0.1:
        inner = inner.replace(",", " ", 1)
    s = g() + "rect(" + g() + inner + g() + ")" + g()
    if r.random() < 0.15:
        k = r.randrange(len(s) + 1)
        s = r.choice([s[:k] + s[k + 1:], s[:k] + r.choice("(),r") + s[k:], s + "rect()", "rect(" + s])
    return s


def native_rect(mk, lib):
    v = mk.string("text", gen=gen_rect) if mk.choice("kind", ["text"] * 9 + ["other"]) == "text" else thing(mk)
    st, r = parse(mk, lib, "rect", v)
    check(mk, "rectangle", grammar.expect_rect(mk, lib, v), st, r)


def word(name):
    """Text without white space, commas and brackets, not empty."""
    return S.piece(name, ",()", nonempty=True, ws=False)


def rects(mk, lib):
    """rect(part, part, part, part) with one word (or two) in every part."""
    if not mk.symbolic:
        return native_rect(mk, lib)
    spec.use_contracts(mk, lib, ("length",))
    double = mk.choice("two words in part", [None, 0, 3])
    ps, parts = [S.gap("gap", False), "rect("], []
    for k in range(4):
        ps += [","] if k else []
        w = word(f"part {k}")
        ps += ([S.gap("gap", False)] if double is None else [" "] if k == 1 else []) + [w.e]
        if k == double:
            x = word(f"part {k} more")
            ps += [S.gap("gap"), x.e]
            w = S.build([w.e, " ", x.e])
        ps += [S.gap("gap", False)] if double is None or k == double else [" "] if k == 2 else []
        parts.append(w)
    v = S.build(ps + [")", S.gap("gap", False)])
    S.record("text", v)
    st, r = parse(mk, lib, "rect", v)
    check(mk, "rectangle", reading_of_rect(mk, lib, parts), st, r)


def rects_words(mk, lib):
    """rect(word word word word), and other numbers of words."""
    if not mk.symbolic:
        return native_rect(mk, lib)
    spec.use_contracts(mk, lib, ("length",))
    n = mk.choice("words", [0, 1, 2, 3, 4, 5, 6])
    parts = [word(f"part {k}") for k in range(n)]
    ps = [S.gap("gap", False), "rect("]
    for k, w in enumerate(parts):
        ps += [S.gap("gap", k > 0), w.e]
    v = S.build(ps + [S.gap("gap", False), ")", S.gap("gap", False)])
    S.record("text", v)
    st, r = parse(mk, lib, "rect", v)
    check(mk, "rectangle", reading_of_rect(mk, lib, parts) if n == 4 else None, st, r)


def rects_commas(mk, lib):
    """Other numbers of parts."""
    if not mk.symbolic:
        return native_rect(mk, lib)
    spec.use_contracts(mk, lib, ("length",))
    n = mk.choice("parts", [2, 3, 5, 6])
    ps = ["rect("]
    for k in range(n):
        ps += ([","] if k else []) + [word(f"part {k}").e]
        if mk.choice(f"another word in {k}", [False, True]):
            ps += [" ", word("more").e]
    v = S.build(ps + [")"])
    S.record("text", v)
    st, r = parse(mk, lib, "rect", v)
    check(mk, "rectangle", None, st, r)


def rects_not(mk, lib):
    """Texts that are not rect( ... ), or have more brackets."""
    if not mk.symbolic:
        return native_rect(mk, lib)
    spec.use_contracts(mk, lib, ("length",))
    form = mk.choice("form", ["other", "one word", "before", "after", "twice", "unclosed", "unopened", "blank"])
    if form == "other":
        st, r = parse(mk, lib, "rect", mk.choice("other", [None, 5, 1.5, (), [], (1, 2, 3, 4), {}, b"rect(1,2,3,4)", spec.Thing()]))
        check(mk, "rectangle", None, st, r)
        return
    inner = "1px,2px,3px,4px"
    w = word("word")
    v = {
        "one word": lambda: w,
        "before": lambda: w + mk.choice("space", ["", " "]) + f"rect({inner})",
        "after": lambda: f"rect({inner})" + mk.choice("space", ["", " "]) + w,
        "twice": lambda: f"rect({inner})" + mk.choice("space", ["", " "]) + f"rect({inner})" + w,
        "unclosed": lambda: f"rect({inner}" + w,
        "unopened": lambda: w + f"{inner})",
        "blank": lambda: S.build([S.gap("gap", False)]),
    }[form]()
    S.record("text", v)
    st, r = parse(mk, lib, "rect", v)
    check(mk, "rectangle", None, st, r)


def rect_object(mk, lib):
    R = lib.get("shapes.Rect")
    xs = [mk.num(f"n{k}", "int") * lib.units.px for k in range(4)]
    ys = [mk.num(f"m{k}", "int") * getattr(lib.units, mk.choice(f"unit {k}", ["px", "em"])) for k in range(4)]
    a, b = R(*xs), R(*ys)
    mk.ensure("a rectangle keeps its sides", a.top is xs[0] and a.right is xs[1] and a.left is xs[2] and a.bottom is xs[3])
    same = mk.all(eq(x, y) for x, y in zip(xs, ys))
    r = a == b
    mk.ensure("rectangles are equal exactly if their sides are", mk.and_(mk.implies(r, same), mk.implies(same, r)))
    mk.ensure("a rectangle is equal to nothing else", mk.not_(a == tuple(xs)))
    s = text_of(mk, a)
    st, c = parse(mk, lib, "rect", s)
    mk.ensure("the text of a rectangle reads back as an equal rectangle", st == "ok" and (a == c), show(mk, c))


# -- quotes ---------------------------------------------------------------------------------------
def quotes_are(mk, lib, xs):
    def e(r):
        if not isinstance(r, lib.get("wrappers.Quotes")) or len(r) != len(xs) // 2:
            return False
        return mk.all(mk.and_(eq(r.opening(k), xs[2 * k]), eq(r.closing(k), xs[2 * k + 1])) for k in range(len(r)))

    return e


def gen_quotes(r):
    n = r.choice([2, 2, 4, 4, 6, 8, 10, 1, 3, 5, 7, 9, 0])
    toks = []
    for _ in range(n):
        q = r.choice("'\"")
        toks.append(q + r.choice(["<", ">", "<<", "«", "»", "{", "\"" if q == "'" else "'", "ab", "(", "x"]) + q)
    if n and r.random() < 0.25:
        toks[r.randrange(n)] = r.choice(["''", "<", "5", "None", "'a", "['a']", "{[]:1}", "b'a'", "'a'5", "('a')", "-"])
    return r.choice(["", " "]) + r.choice([" ", "  ", "\t"]).join(toks)


def gen_quote(r):
    return r.choice(["<", ">", "<<", "«", "{", "'", '"', "\\", "a b", "", "x", "\n", "'\""])


def quotes_text(mk, lib):
    if not mk.symbolic:
        v = mk.string("text", gen=gen_quotes) if mk.choice("kind", ["text"] * 9 + ["other"]) == "text" else thing(mk)
        st, r = parse(mk, lib, "quotes", v)
        check(mk, "list of quotes", grammar.expect_quotes(mk, lib, v), st, r)
        return
    n = mk.choice("words", [0, 1, 2, 3, 4, 5, 6, 7, 8])
    ps, xs, odd = [], [], False
    for k in range(n):
        ps.append(S.gap("gap", k > 0))
        kinds = ["'", '"', "''", "no quote"] if n in (2,) else ["'", "no quote"] if n == 4 else ["'"]
        kind = mk.choice(f"word {k} is", kinds)
        if kind in ("'", '"'):
            u = S.piece(f"quote {k}", kind + "\\\0", nonempty=True, ws=False)
            ps += [kind, u.e, kind]
            xs.append(u)
        elif kind == "''":
            ps += [mk.choice("empty", ["''", '""'])]
            odd = True
        else:
            w = S.piece(f"word {k}", nonempty=True, ws=False)
            ps += [w.e]
            xs.append(w)
            odd = odd or w
    ps.append(S.gap("gap", False))
    v = S.build(ps)
    S.record("text", v)
    st, r = parse(mk, lib, "quotes", v)
    if odd is not False:
        # words that are not quoted: refused unless they are some other literal of a text
        if any(E.cur().memo.get(("literal", x.e.get_id())) == "text" for x in xs if isinstance(x, S.SymStr)):
            unspecified(mk)
        check(mk, "list of quotes", None, st, r)
        return
    check(mk, "list of quotes", quotes_are(mk, lib, xs) if n and n % 2 == 0 else None, st, r)


SHAPES = [
    "", "s", "ss", "sss", "ssss", "(ss)", "(ss)(ss)", "(ss)(ss)(ss)", "(sss)", "(ssss)", "(s)(s)", "ss(ss)", "(s)", "()", "(ss)()", "sx", "xs", "x", "(sx)", "(xs)(ss)", "(ss)(sx)", "ssssss", "sssss", "sssssss", "(ss)(ss)s", "(sss)(ss)",
]


def quotes_sequence(mk, lib):
    shape = mk.choice("shape", SHAPES)
    outer, inner = mk.choice("outer", [list, tuple]), mk.choice("inner", [list, tuple])
    items, flat, odd, group = [], [], False, None
    for c in shape:
        if c == "(":
            group = []
        elif c == ")":
            items.append(inner(group))
            group = None
        else:
            if c == "s":
                x = mk.string(f"quote {len(flat)}", gen=gen_quote)
            else:
                x = mk.choice("odd", [5, None, 1.5, b"a"] if group is not None else [5, None, 1.5])
                odd = True
            flat.append(x)
            (items if group is None else group).append(x)
    st, r = parse(mk, lib, "quotes", outer(items))
    if odd or not flat or len(flat) % 2:
        check(mk, "list of quotes", None, st, r)
        return
    if not mk.known(mk.all(mk.not_(x == "") for x in flat)):
        check(mk, "list of quotes", None, st, r)
        return
    check(mk, "list of quotes", quotes_are(mk, lib, flat), st, r)


def quotes_object(mk, lib):
    Q = lib.get("wrappers.Quotes")
    n, m = mk.choice("n", [0, 1, 2, 3]), mk.choice("m", [0, 1, 2, 3])
    gen = lambda r: r.choice(["<", ">", "«", "{", "}"])
    xs = [(mk.string(f"open {k}", gen=gen), mk.string(f"close {k}", gen=gen)) for k in range(n)]
    ys = [(mk.string(f"other open {k}", gen=gen), mk.string(f"other close {k}", gen=gen)) for k in range(m)]
    a, b = Q(xs), Q(ys)
    mk.ensure("as many levels as pairs", len(a) == n)
    for k, (o, c) in enumerate(xs):
        mk.ensure("opening quote of a level", eq(a.opening(k), o))
        mk.ensure("closing quote of a level", eq(a.closing(k), c))
    for f in (a.opening, a.closing):
        level = mk.num("level", "int")
        mk.assume(level >= n)
        st, r = mk.call(lambda: f(level))
        mk.ensure("levels that do not exist raise IndexError", st == "raise" and isinstance(r, IndexError), show(mk, r))
    same = n == m and mk.all(mk.and_(eq(x[0], y[0]), eq(x[1], y[1])) for x, y in zip(xs, ys))
    r = a == b
    mk.ensure("quotes are equal exactly if their pairs are", mk.and_(mk.implies(r, same), mk.implies(same, r)))
    mk.ensure("quotes are equal to nothing else", mk.not_(a == xs))


# -- immutable lists --------------------------------------------------------------------------------
MUTATORS = {
    "append": (1,), "clear": (), "extend": ([1],), "insert": (0, 1), "pop": (), "pop last": (-1,), "remove": ("url",), "reverse": (), "sort": (),
    "__setitem__": (0, 1), "__delitem__": (0,), "__iadd__": ([1],), "__imul__": (2,), "set slice": (slice(None), []), "delete slice": (slice(0, 1),),
}
OPERATOR = {"pop last": "pop", "set slice": "__setitem__", "delete slice": "__delitem__"}


def immutable(cls):
    def contract(mk, lib):
        C = lib.get("wrappers." + cls)
        n = mk.choice("n", [0, 1, 2, 3])
        xs = [mk.string(f"item {k}", gen=lambda r: r.choice(["a", "b", "url"])) for k in range(n)]
        c = C(list(xs))
        op = mk.choice("operation", sorted(MUTATORS))
        st, r = mk.call(lambda: getattr(c, OPERATOR.get(op, op))(*MUTATORS[op]))
        mk.ensure(f"{op}: refused with TypeError", st == "raise" and isinstance(r, TypeError), show(mk, r))
        mk.ensure(f"{op}: changes nothing", len(c) == n and mk.all(eq(c[k], x) for k, x in enumerate(xs)))
        mk.ensure("items can be read", mk.all(eq(y, x) for y, x in zip(c, xs)))
        if n:
            mk.ensure("items can be read from the end", eq(c[-1], xs[-1]))
        st, r = mk.call(lambda: c[n])
        mk.ensure("items that do not exist raise IndexError", st == "raise" and isinstance(r, IndexError), show(mk, r))
        d = c.copy()
        mk.ensure("a copy is an equal immutable list", type(d) is C and len(d) == n and mk.all(eq(y, x) for y, x in zip(d, xs)))
        m = mk.choice("m", [n, 2, 3] if op == "append" else [n])
        ys = [mk.string(f"other item {k}", gen=lambda r: r.choice(["a", "b", "url"])) for k in range(m)]
        st, r = mk.call(lambda: c == C(list(ys)))
        want = m == n and mk.all(eq(x, y) for x, y in zip(xs, ys))
        mk.ensure("lists are equal exactly if their items are, in order", st == "ok" and mk.known(want) == bool(r), show(mk, r))
        if not mk.symbolic:
            mk.ensure("equal lists have equal hashes", hash(c) == hash(d) and c == d)
        st, s = mk.call(lambda: text_of(mk, c))
        want = ""
        for k, x in enumerate(xs):
            want = want + (", " if k else "") + x
        mk.ensure("the text lists the items", st == "ok" and eq(s, want), show(mk, s))

    return contract


# -- shorthand objects --------------------------------------------------------------------------------
def keys_of(name):
    return spec.SHORTHAND[name]


WRAPPERS = {"Outline": "outline", "BorderTop": "border_top", "BorderRight": "border_right", "BorderBottom": "border_bottom", "BorderLeft": "border_left", "Border": "border"}


def shorthand_object(cls):
    keys = set(keys_of(WRAPPERS[cls]))

    def contract(mk, lib):
        C = lib.get("wrappers." + cls)
        mk.ensure("the keys are the properties it stands for", set(C.VALID_KEYS) == keys and len(C.VALID_KEYS) == len(keys), str(C.VALID_KEYS))
        gen = lambda r: r.choice(["a", "b", "1px"])
        a = {k: mk.string("a " + k, gen=gen) for k in sorted(keys) if mk.choice("a has " + k, [True, False])}
        b = {k: mk.string("b " + k, gen=gen) for k in sorted(keys) if mk.choice("b has " + k, [True, False])}
        st, x = mk.call(lambda: C(**a))
        mk.ensure("any of the keys may be given", st == "ok", show(mk, x))
        if st != "ok":
            return
        y = C(**b)
        mk.ensure("values are kept", mk.all(eq(getattr(x, k), v) for k, v in a.items()))
        mk.ensure("only what was given is listed", dict(x.to_dict()).keys() == a.keys() and mk.all(eq(x.to_dict()[k], v) for k, v in a.items()))
        same = a.keys() == b.keys() and mk.all(eq(v, b[k]) for k, v in a.items())
        r = x == y
        mk.ensure("equal exactly if the values are", mk.and_(mk.implies(r, same), mk.implies(same, r)))
        mk.ensure("equal to nothing else", mk.not_(x == a))
        s = text_of(mk, x)
        want = ""
        for k in C.VALID_KEYS:
            if k in a:
                want = want + (" " if not (isinstance(want, str) and want == "") else "") + a[k]
        mk.ensure("the text lists the values", eq(s, want), show(mk, s))
        bad = mk.choice("key", ["color", "border", "outline", "width", "border_top_style" if cls != "BorderTop" else "outline_color"])
        st, r = mk.call(lambda: C(**{bad: "x"}, **a))
        mk.ensure("other keys are refused with ValueError", st == "raise" and isinstance(r, ValueError), show(mk, r))

    return contract


# -- numeric validators ---------------------------------------------------------------------------------
def numeric(fn, typ):
    def contract(mk, lib):
        f = lib.get("validators." + fn)
        lo = mk.choice("min", ["none", "some"]) == "some"
        hi = mk.choice("max", ["none", "some"]) == "some"
        a, b = mk.num("min_value", "int"), mk.num("max_value", "int")
        k = {}
        if lo:
            k["min_value"] = a
        if hi:
            k["max_value"] = b
        kind = mk.choice("value is", ["int", "float", "text", "other"] + ([] if mk.symbolic else ["int", "int"]))
        if kind in ("int", "float"):
            v = mk.num("value", kind)
        elif kind == "text":
            v = mk.string("value", gen=lambda r: r.choice(["1", "-5", "0", "2.5", "x", "", " 7 ", "100"]))
        else:
            v = mk.choice("other", [None, [], {}, spec.Thing(), 3j])
        st, r = mk.call(lambda: f(**k)(v) if k else f(v))
        if typ == "integer":
            e = spec.expect_integer(mk, lib, v)
            n = whole_value(mk, v, e)
        else:
            from .text import finite

            if kind == "text":
                ok, n = finite(mk, v)
                if mk.symbolic:
                    mk.assume(SymBool(z3.Not(S.NonFin(v.e))))
                n = n if mk.known(ok) else None
                e = None if n is None else (lambda r: mk.eq(r, n))
            elif kind in ("int", "float"):
                n, e = v, (lambda r: mk.eq(r, v))
            else:
                n = e = None
        inside = e is not None and mk.and_(n >= a if lo else True, n <= b if hi else True)
        if not mk.known(inside):
            mk.ensure("numbers out of range and other values are refused with ValidationError", st == "raise" and isinstance(r, lib.get("exceptions.ValidationError")), show(mk, r))
            return
        mk.ensure("numbers in the range are accepted", st == "ok", show(mk, r))
        if st == "ok":
            mk.ensure("the result is the number", e(r), show(mk, r))

    return contract


def whole_value(mk, v, e):
    if e is None:
        return None
    if isinstance(v, S.SymStr):
        return E.SymNum(z3.ToReal(S.IVal(v.e)), True)
    if isinstance(v, E.SymNum):
        return E.trunc(v)
    return int(v)


def percentages(mk, lib):
    u = mk.choice("unit", ["percent", "px", "em", "vw", "number", "text", "angle", "other"])
    n = mk.num("n", "float")
    spec.use_contracts(mk, lib, ()) if mk.symbolic else None
    if u == "number":
        v, ok = n, False
    elif u == "text":
        if mk.symbolic:
            v = text_of(mk, n) + "%"
        else:
            v = f"{n}%"
        ok = n >= 0
    elif u == "other":
        v, ok = mk.choice("other", [None, [], spec.Thing(), "x", "5px"]), False
    elif u == "angle":
        v, ok = n * lib.units.deg, False
    else:
        v = n * getattr(lib.units, u)
        ok = u == "percent" and n >= 0
    st, r = mk.call(lambda: lib.get("validators.is_percentage")(v))
    if not mk.known(ok):
        mk.ensure("negative percentages and other values are refused with ValidationError", st == "raise" and isinstance(r, lib.get("exceptions.ValidationError")), show(mk, r))
    else:
        mk.ensure("percentages are accepted", st == "ok", show(mk, r))
        if st == "ok":
            mk.ensure("the result is the percentage", mk.and_(isinstance(r, lib.get("units.Percent")), mk.eq(r.val, n)), show(mk, r))


URI = [Contract("uris", uris, ["parser.uri"], runs=3000), Contract("uri objects", uri_text, ["wrappers.Uri", "parser.uri"], runs=100)]
CURSOR = [Contract("cursors", cursors, ["parser.cursor"], runs=3000, max_seconds=300), Contract("cursors of any number of parts", cursor_lists, ["parser.cursor"], native_ok=False)]
SPACING = [Contract("border spacings", spacings, ["parser.border_spacing"], runs=2000), Contract("border spacing objects", spacing_text, ["wrappers.BorderSpacing", "parser.border_spacing"], runs=200)]
RECT = [
    Contract("rectangles of four parts", rects, ["parser.rect"], runs=3000, max_seconds=400, weight=5),
    Contract("rectangles of words", rects_words, ["parser.rect"], runs=300),
    Contract("rectangles of other numbers of parts", rects_commas, ["parser.rect"], runs=300),
    Contract("texts that are no rectangle", rects_not, ["parser.rect"], runs=300),
    Contract("rectangle objects", rect_object, ["shapes.Rect", "parser.rect"], runs=200),
]
QUOTES = [
    Contract("quotes in text", quotes_text, ["parser.quotes"], runs=3000),
    Contract("quotes in sequences", quotes_sequence, ["parser.quotes"], runs=1000),
    Contract("quotes objects", quotes_object, ["wrappers.Quotes"], runs=300),
]
LISTS = [Contract(f"immutable lists: {c}", immutable(c), ["wrappers.ImmutableList", "wrappers.Cursor"], runs=400) for c in ("ImmutableList", "Cursor")]
OBJECTS = [Contract(f"shorthand objects: {c}", shorthand_object(c), ["wrappers.Shorthand"], runs=150) for c in WRAPPERS]
NUMERIC = [
    Contract("is_integer", numeric("is_integer", "integer"), ["validators.is_integer", "validators._numeric_validator"], runs=500),
    Contract("is_number", numeric("is_number", "number"), ["validators.is_number", "validators._numeric_validator"], runs=500),
    Contract("is_percentage", percentages, ["validators.is_percentage"], runs=300),
]
CONTRACTS = URI + CURSOR + SPACING + RECT + QUOTES + LISTS + OBJECTS + NUMERIC
