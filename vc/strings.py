"""Symbolic text: z3 sequences.

Numbers in text are uninterpreted: Fin(s)/NonFin(s)/FVal(s) stand for float(s), IsInt(s)/IVal(s)
for int(s), NumText(x) for the text of a number.  What is assumed about them:

* float(s) is a finite number only if the last character of s is not an ASCII letter or one of
  %'"(),;#  (digits, '.', '_'-free ends and white space remain), int(s) likewise;
* float(s) is not finite only for text that ends (before white space) in f, n or y;
* every text int() accepts is accepted by float(), with the same value;
* the text of a number reads back as that number, and is made of  0-9 + - . e  only.
"""

import collections.abc as cabc
import math
import re
import string as _string

import z3

from . import engine as E
from . import hooks as H
from .engine import Seg, Sym, SymBool, SymNum, Unsupported, VCList

STR = z3.StringSort()
Fin = z3.Function("Fin", STR, z3.BoolSort())
NonFin = z3.Function("NonFin", STR, z3.BoolSort())
FVal = z3.Function("FVal", STR, z3.RealSort())
IsInt = z3.Function("IsInt", STR, z3.BoolSort())
IVal = z3.Function("IVal", STR, z3.IntSort())
IsHex = z3.Function("IsHex", STR, z3.BoolSort())
HexVal = z3.Function("HexVal", STR, z3.IntSort())
Lower = z3.Function("Lower", STR, STR)
Upper = z3.Function("Upper", STR, STR)
NumText = z3.Function("NumText", z3.RealSort(), z3.BoolSort(), STR)

SPACES = [c for c in map(chr, range(0x3001)) if c.isspace()]
PARTS = 4  # parts of a split that are told apart; beyond that "more"


def lit(s):
    out = []
    for ch in s:
        out.append(ch if 32 <= ord(ch) < 127 and ch != "\\" else "\\u{%x}" % ord(ch))
    return z3.StringVal("".join(out))


def rng(a, b):
    return z3.Range(lit(a), lit(b))


_ws = None


def ws():
    global _ws
    if _ws is None:
        runs, k = [], 0
        cs = [ord(c) for c in SPACES]
        while k < len(cs):
            j = k
            while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
                j += 1
            runs.append(rng(chr(cs[k]), chr(cs[j])))
            k = j + 1
        _ws = z3.Union(*runs)
    return _ws


_letter_end = None


def ends_like_no_number():
    """Text whose last character cannot end a finite number."""
    global _letter_end
    if _letter_end is None:
        last = z3.Union(rng("a", "z"), rng("A", "Z"), *[z3.Re(lit(c)) for c in "%'\"(),;#"])
        _letter_end = z3.Concat(z3.Star(z3.AllChar(z3.ReSort(STR))), last)
    return _letter_end


def const(e):
    e = z3.simplify(e)
    return E.z3_unescape(e.as_string()) if z3.is_string_value(e) else None


def ex(x):
    if isinstance(x, SymStr):
        return x.e
    if isinstance(x, str):
        return lit(x)
    raise Unsupported(f"text expected: {type(x).__name__}")


def mk(e):
    s = const(e)
    return s if s is not None else SymStr(e)


def num_facts(e):
    p = E.cur()
    key = ("num", e.get_id())
    if key in p.defined:
        return
    p.defined.add(key)
    p.keep.append(e)
    bad = z3.InRe(e, ends_like_no_number())
    p.add(z3.Implies(z3.Or(Fin(e), IsInt(e)), z3.And(z3.Length(e) > 0, z3.Not(bad))))
    p.add(z3.Implies(NonFin(e), z3.Not(z3.Or(Fin(e), IsInt(e)))))
    p.add(z3.Implies(IsInt(e), z3.And(Fin(e), FVal(e) == z3.ToReal(IVal(e)))))
    if any(isinstance(x, str) and any(c in NO_NUMBER for c in x) for x in flatten(e)):
        p.add(z3.Not(z3.Or(Fin(e), NonFin(e), IsInt(e))))


# -- texts put together from known pieces ---------------------------------------------
# A text is a concatenation of literals and unknown pieces.  Where an operation can be decided
# from the literals and from characters that the pieces are known to be free of, it is; the
# operations on texts nothing is known about go to the solver.
NO_NUMBER = set("%'\"(),;#")  # (never part of a number)
NUMCHARS = set("0123456789+-.e")


def flatten(e):
    """Literals (str) and unknown pieces (z3) of e, in order; no two literals adjacent."""
    if z3.is_string_value(e):
        return [E.z3_unescape(e.as_string())]
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for k in range(e.num_args()):
            for x in flatten(e.arg(k)):
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != "" if isinstance(x, str) else True:
                    out.append(x)
        return out
    return [e]


def build(pieces):
    out = [lit(x) if isinstance(x, str) else x for x in pieces if not (isinstance(x, str) and x == "")]
    if not out:
        return ""
    return mk(z3.Concat(*out)) if len(out) > 1 else mk(out[0])


def set_free(e, chars):
    """Record (the caller adds the constraint) that e contains none of the characters."""
    p = E.cur()
    p.keep.append(e)
    p.memo[("free", e.get_id())] = p.memo.get(("free", e.get_id()), frozenset()) | frozenset(chars)


def free(e, ch):
    if z3.is_app(e) and e.decl().eq(NumText):
        return ch not in NUMCHARS
    if is_gap(e) and not ch.isspace():
        return True
    return ch in E.cur().memo.get(("free", e.get_id()), ())


def free_ws(e):
    return all(free(e, c) for c in SPACES)


def nonempty(e):
    if z3.is_app(e) and e.decl().eq(NumText):
        return True
    return ("nonempty", e.get_id()) in E.cur().memo


def is_empty(e):
    """Decide (fork) whether the piece is empty."""
    if nonempty(e):
        return False
    p = E.cur()
    key = ("empty", e.get_id())
    if key not in p.memo:
        p.memo[key] = bool(SymBool(z3.Length(e) == 0))
        p.keep.append(e)
    return p.memo[key]


def piece(name, exclude="", nonempty=False, ws=True, gen=None):
    """An arbitrary text without the excluded characters (and white space, if not ws)."""
    x = fresh(name)
    p = E.cur()
    # (that the characters are missing is recorded, not asserted: asserting less is sound)
    if nonempty:
        p.add(z3.Length(x.e) > 0)
    set_free(x.e, list(exclude) + ([] if ws else SPACES))
    if nonempty:
        p.memo[("nonempty", x.e.get_id())] = True
    return x


def gap(name, some=True):
    """White space (at least one character, if some)."""
    p = E.cur()
    x = z3.String(p.fresh(name))
    if some:  # (that it is white space is recorded, not asserted: asserting less is sound)
        p.add(z3.Length(x) > 0)
    p.memo[("gap", x.get_id())] = True
    p.keep.append(x)
    if some:
        p.memo[("nonempty", x.get_id())] = True
    return x


def words(n, more=False, name="word"):
    """An arbitrary text of n words (and possibly more), and the words."""
    p = E.cur()
    ps = []
    for _ in range(n):
        x = fresh(name)
        p.add(z3.Length(x.e) > 0)
        p.memo[("nonempty", x.e.get_id())] = True
        set_free(x.e, SPACES)
        ps.append(x)
    out = []
    for k, x in enumerate(ps):
        out.append(gap("gap", k > 0))
        out.append(x.e)
    if more:
        r = z3.String(p.fresh("more words"))
        p.memo[("words", r.get_id())] = True
        p.keep.append(r)
        out += [gap("gap"), r]
    out.append(gap("gap", n == 0))
    return build(out), ps


def char(name):
    """One arbitrary character."""
    p = E.cur()
    x = fresh(name)
    p.add(z3.Length(x.e) == 1)
    p.memo[("nonempty", x.e.get_id())] = True
    p.memo[("length", x.e.get_id())] = 1
    p.keep.append(x.e)
    return x


def size(x):
    """Length of a piece, if known."""
    return len(x) if isinstance(x, str) else E.cur().memo.get(("length", x.get_id()))


def items(n, sep, more=False, name="part"):
    """An arbitrary text of n parts between separators (or more), and the parts."""
    p = E.cur()
    ps, out = [], []
    for k in range(n):
        x = fresh(name)
        set_free(x.e, sep)
        ps.append(x)
        out += [sep] * (k > 0) + [x.e]
    if more:
        r = z3.String(p.fresh("more parts"))
        p.memo[("items", r.get_id())] = sep
        p.keep.append(r)
        out += [sep, r]
    return build(out), ps


def is_items(e, sep):
    return E.cur().memo.get(("items", e.get_id())) == sep


def edges(e, lead="", trail=""):
    """Record that e neither starts nor ends with these characters (when it is not empty)."""
    p = E.cur()
    p.keep.append(e)
    p.memo[("lead", e.get_id())] = frozenset(lead)
    p.memo[("trail", e.get_id())] = frozenset(trail)


def is_gap(e):
    return ("gap", e.get_id()) in E.cur().memo


def is_words(e):
    return ("words", e.get_id()) in E.cur().memo


def occurrences(ps, sep):
    """[(index of the literal, offset)] of every non-overlapping occurrence; None: unknown."""
    syms = [x for x in ps if not isinstance(x, str)]
    anchors = [c for c in sep if all(free(x, c) for x in syms)]
    if not anchors:
        return None
    k = sep.index(anchors[0])
    out = []
    for i, x in enumerate(ps):
        if not isinstance(x, str):
            continue
        pos, last = 0, 0
        while True:
            j = x.find(anchors[0], pos)
            if j < 0:
                break
            pos = j + 1
            a = j - k
            if a < last and a >= 0:
                continue
            got = x[max(a, 0):a + len(sep)]
            want = sep[max(-a, 0):max(-a, 0) + len(got)]
            if got != want:
                continue
            if a < 0 or a + len(sep) > len(x):
                edge_left, edge_right = a < 0 and i > 0, a + len(sep) > len(x) and i + 1 < len(ps)
                if a < 0 and i == 0 or a + len(sep) > len(x) and i + 1 == len(ps):
                    continue
                if edge_left and free(ps[i - 1], sep[-a - 1]) and (i == 1 or nonempty(ps[i - 1])):
                    continue
                if edge_right and free(ps[i + 1], sep[len(x) - a]) and (i + 2 == len(ps) or nonempty(ps[i + 1])):
                    continue
                return None
            out.append((i, a))
            last = a + len(sep)
    return out


def cut(ps, occ, n):
    """The pieces between the occurrences (of length n)."""
    parts, cur, start, o = [], [], (0, 0), list(occ)
    for i, x in enumerate(ps):
        if not isinstance(x, str):
            cur.append(x)
            continue
        pos = 0
        while o and o[0][0] == i:
            a = o.pop(0)[1]
            cur.append(x[pos:a])
            parts.append(cur)
            cur = []
            pos = a + n
        cur.append(x[pos:])
    parts.append(cur)
    return parts


def struct_split(e, sep):
    ps = flatten(e)
    if len(ps) == 1 and not isinstance(ps[0], str):
        x = ps[0]
        if sep is None:
            if is_gap(x):
                return []
            return ([] if is_empty(x) else [SymStr(x)]) if free_ws(x) else None
        return [SymStr(x)] if any(free(x, c) for c in sep) else None
    if sep is not None:
        more = not isinstance(ps[-1], str) and is_items(ps[-1], sep)
        occ = occurrences(ps[:-1] if more else ps, sep)
        if occ is None:
            return None
        if not more:
            return [build(q) for q in cut(ps, occ, len(sep))]
        if not occ or (occ[-1][0], occ[-1][1] + len(sep)) != (len(ps) - 2, len(ps[-2])):
            return None
        out = [build(q) for q in cut(ps[:-1], occ, len(sep))[:-1]]

        def another():
            x = z3.String(E.cur().fresh("part"))
            set_free(x, sep)
            return SymStr(x)

        return out + [Seg("more parts", another, maybe_empty=False)]
    if not all(free_ws(x) or is_gap(x) or is_words(x) for x in ps if not isinstance(x, str)):
        return None
    words, cur = [], []
    for k, x in enumerate(ps):
        if not isinstance(x, str):
            if is_gap(x):
                if cur and k + 1 < len(ps) and not nonempty(x) and is_empty(x):
                    continue
                words.append(cur)
                cur = []
            elif is_words(x):
                if cur or any(not is_gap(y) for y in ps[k + 1:]):
                    return None
                words.append(x)
                break
            else:
                cur.append(x)
            continue
        run = ""
        for ch in x:
            if ch.isspace():
                cur.append(run)
                run = ""
                words.append(cur)
                cur = []
            else:
                run += ch
        cur.append(run)
    words.append(cur)
    out = []
    for w in words:
        if not isinstance(w, list):
            def more():
                return SymStr(z3.String(E.cur().fresh("word")))

            out.append(Seg("more parts", more))
            continue
        if all(is_empty(x) if not isinstance(x, str) else x == "" for x in w):
            continue
        out.append(build(w))
    return out


def struct_strip(e, chars, left, right):
    ps = flatten(e)
    cs = SPACES if chars is None else list(chars)

    def side(ps, first):
        ps = list(ps)
        while ps:
            x = ps[0] if first else ps[-1]
            if isinstance(x, str):
                y = (x.lstrip(chars) if first else x.rstrip(chars))
                if y:
                    if first:
                        ps[0] = y
                    else:
                        ps[-1] = y
                    return ps
                ps = ps[1:] if first else ps[:-1]
            elif is_gap(x) and chars is None:
                ps = ps[1:] if first else ps[:-1]
            elif all(free(x, c) or c in E.cur().memo.get(("lead" if first else "trail", x.get_id()), ()) for c in cs):
                if len(ps) == 1 or not is_empty(x):
                    return ps
                ps = ps[1:] if first else ps[:-1]
            else:
                return None
        return ps

    if left:
        ps = side(ps, True)
    if ps is not None and right:
        ps = side(ps, False)
    return None if ps is None else build(ps)


def drop(ps, n):
    """The pieces without their first n characters; None: unknown."""
    ps = list(ps)
    while n and ps:
        k = size(ps[0])
        if k is None:
            return None
        if k > n:
            if not isinstance(ps[0], str):
                return None
            ps[0] = ps[0][n:]
            n = 0
        else:
            n -= k
            ps = ps[1:]
    return ps


def drop_end(ps, n):
    ps = list(ps)
    while n and ps:
        k = size(ps[-1])
        if k is None:
            return None
        if k > n:
            if not isinstance(ps[-1], str):
                return None
            ps[-1] = ps[-1][:-n]
            n = 0
        else:
            n -= k
            ps = ps[:-1]
    return ps


def struct_slice(e, a, b):
    """e[a:b] for constants, where it only cuts known characters; None: unknown."""
    ps = flatten(e)
    sizes = [size(x) for x in ps]
    if None not in sizes:
        a, b, _ = slice(a, b).indices(sum(sizes))
        ps = drop_end(ps, sum(sizes) - b)
        ps = ps if ps is None else drop(ps, a)
        return None if ps is None else build(ps) if a < b else ""
    if len(ps) == 1:
        return None
    a = a or 0
    if b is not None and b >= 0 or a < 0:
        if b is not None and a >= 0:  # a prefix of known length?
            n, out = 0, []
            for x, k in zip(ps, sizes):
                if k is None or n >= b:
                    break
                out.append(x)
                n += k
            if n < b:
                return None
            out = drop_end(out, n - b)
            out = out if out is None else drop(out, a)
            return None if out is None else build(out) if a < b else ""
        return None
    # (cutting both ends must not meet: the unknown piece in between stays)
    ps = drop(ps, a)
    if ps and b is not None:
        if not any(size(x) is None for x in ps):
            return None
        ps = drop_end(ps, -b)
    return None if ps is None else build(ps)


def struct_starts(e, p, first):
    """Does e start (end) with the literal p: True, False, or None (unknown)."""
    ps = flatten(e)
    if not first:
        ps = [x[::-1] if isinstance(x, str) else x for x in ps[::-1]]
        p = p[::-1]
    x = ps[0]
    if p == "":
        return True
    if isinstance(x, str):
        if len(x) >= len(p) or len(ps) == 1:
            return x.startswith(p)
        if p[:len(x)] != x:
            return False
        return None
    c = p[0]
    if (free(x, c) or c in E.cur().memo.get(("lead" if first else "trail", x.get_id()), ())) and (nonempty(x) or len(ps) == 1):
        return False
    for k, c in enumerate(p):
        # where is the first c?
        if p.index(c) != k:
            continue
        low = 0  # characters that must come before
        for y in ps:
            if isinstance(y, str):
                if c in y:
                    if low + y.index(c) > k:
                        return False
                    break
                low += len(y)
            elif free(y, c):
                low += size(y) if size(y) is not None else 1 if nonempty(y) else 0
            else:
                break
        else:
            return False
        if low > k:
            return False
    return None




def literal_eval(v):
    """ast.literal_eval of text: the text between simple quotes, the text repr() was taken of; of
    other texts some text, another value, or an error."""
    p = E.cur()
    got = p.memo.get(("repr of", v.e.get_id()))
    if got is not None:
        return got
    ps = flatten(v.e)
    if isinstance(ps[0], str) and isinstance(ps[-1], str) and ps[0][0] in "'\"" and ps[-1][-1] == ps[0][0] and len(ps) > 1:
        q = ps[0][0]
        inner = [ps[0][1:], *ps[1:-1], ps[-1][:-1]]
        if all((q not in x and "\\" not in x and "\n" not in x) if isinstance(x, str) else all(free(x, c) for c in (q, "\\", "\n", "\r", "\0")) for x in inner):
            return build(inner)
    key = ("literal", v.e.get_id())
    p.keep.append(v.e)
    k = ["text", "value", SyntaxError, ValueError, TypeError][p.choose(5)]
    p.memo[key] = k if isinstance(k, str) else "error"
    if k == "text":
        return fresh("literal")
    if k == "value":
        return [5, None, ("a",), b"a"][p.choose(4)]
    raise k("malformed node or string")


def trimmed(e):
    """Without white space at the ends that is known to be there (numbers are read the same)."""
    ps = flatten(e)
    if len(ps) < 2:
        return e
    while ps and (ps[0].isspace() if isinstance(ps[0], str) else is_gap(ps[0])):
        ps = ps[1:]
    while ps and (ps[-1].isspace() if isinstance(ps[-1], str) else is_gap(ps[-1])):
        ps = ps[:-1]
    if ps and isinstance(ps[0], str):
        ps[0] = ps[0].lstrip()
    if ps and isinstance(ps[-1], str):
        ps[-1] = ps[-1].rstrip()
    return ex(build(ps))


def within(a, b):
    """a in b, for a literal b."""
    if not isinstance(a, SymStr):
        raise TypeError("'in <string>' requires string as left operand")
    if z3.is_const(a.e) and size(a.e) == 1:
        return E.or_(*[SymBool(a.e == lit(c)) for c in sorted(set(b)) if not free(a.e, c)])
    return SymBool(z3.Contains(lit(b), a.e))


class SymStr(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    # -- protocol of the hooks ------------------------------------------------
    def vc_isinstance(self, classes):
        return any(c in (str, object, cabc.Sequence, cabc.Iterable, cabc.Collection, cabc.Container, cabc.Hashable, cabc.Sized, cabc.Reversible) for c in classes)

    def vc_type(self):
        return str

    def vc_str(self):
        return self

    def vc_repr(self):
        p = E.cur()
        r = z3.String(p.fresh("repr"))
        p.memo[("repr of", r.get_id())] = self
        p.keep.append(r)
        return SymStr(r)

    def vc_len(self):
        ks = [size(x) for x in flatten(self.e)]
        if None not in ks:
            return sum(ks)
        return SymNum(z3.ToReal(z3.Length(self.e)), True)

    def vc_contains(self, x):
        if isinstance(x, str) and x:
            occ = occurrences(flatten(self.e), x)
            if occ is not None:
                return bool(occ)
        return SymBool(z3.Contains(self.e, ex(x)))

    def vc_iter(self):
        out = []
        for x in flatten(self.e):
            if isinstance(x, str):
                out += x
            elif size(x) == 1:
                out.append(SymStr(x))
            else:
                def one(x=x):
                    c = char("char")
                    p = E.cur()
                    p.add(z3.Contains(x, c.e))
                    set_free(c.e, p.memo.get(("free", x.get_id()), ()))
                    return c

                out.append(Seg("characters", one))
        return VCList(out)

    def __iter__(self):
        return iter(self.vc_iter())

    def vc_float(self):
        e = trimmed(self.e)
        num_facts(e)
        if bool(SymBool(Fin(e))):
            return SymNum(FVal(e), False)
        if bool(SymBool(NonFin(e))):
            return [math.inf, -math.inf, math.nan][E.cur().choose(3)]
        raise ValueError("could not convert string to float")

    def vc_int(self, base=None):
        e = trimmed(self.e)
        if base in (None, 10):
            num_facts(e)
            if bool(SymBool(IsInt(e))):
                return SymNum(z3.ToReal(IVal(e)), True)
            raise ValueError("invalid literal for int()")
        if base == 16:
            hex_facts(e)
            if bool(SymBool(IsHex(e))):
                return SymNum(z3.ToReal(HexVal(e)), True)
            raise ValueError("invalid literal for int() with base 16")
        raise Unsupported("int() with a base")

    def vc_getitem(self, i):
        n = z3.Length(self.e)
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("text slice with a step")
            if not isinstance(i.start, Sym) and not isinstance(i.stop, Sym):
                r = struct_slice(self.e, i.start, i.stop)
                if r is not None:
                    return r

            def at(k, dflt):
                if k is None:
                    return dflt
                if isinstance(k, SymNum):
                    w = E.whole(z3.simplify(k.e))
                    if w is None:
                        raise Unsupported("symbolic slice")
                    return z3.If(w >= 0, z3.If(w > n, n, w), z3.If(w + n < 0, z3.IntVal(0), w + n))
                if k >= 0:
                    return z3.If(n < k, n, z3.IntVal(k)) if k else z3.IntVal(0)
                return z3.If(n + k < 0, z3.IntVal(0), n + k)

            a, b = at(i.start, z3.IntVal(0)), at(i.stop, n)
            return mk(z3.SubString(self.e, a, b - a))
        if isinstance(i, SymNum):
            raise Unsupported("symbolic text index")
        r = struct_slice(self.e, i, i + 1 if i != -1 else None)
        if isinstance(r, str) and r == "":
            raise IndexError("string index out of range")
        if r is not None:
            return r
        if not bool(SymBool(n > i if i >= 0 else n >= -i)):
            raise IndexError("string index out of range")
        return mk(z3.SubString(self.e, i if i >= 0 else n + i, 1))

    __getitem__ = vc_getitem

    # -- comparison ----------------------------------------------------------------
    def __eq__(self, o):
        if isinstance(o, SymStr):
            return True if self.e.eq(o.e) else SymBool(self.e == o.e)
        if isinstance(o, str):
            lower_facts(self.e, o)
            return SymBool(self.e == lit(o))
        if isinstance(o, Sym):
            return NotImplemented
        if type(o).__module__.startswith("colosseum_vc"):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else E.not_(r)

    def __lt__(self, o):
        return SymBool(self.e < ex(o))

    def __le__(self, o):
        return SymBool(self.e <= ex(o))

    def __gt__(self, o):
        return SymBool(ex(o) < self.e)

    def __ge__(self, o):
        return SymBool(ex(o) <= self.e)

    def __bool__(self):
        return bool(SymBool(z3.Length(self.e) > 0))

    def __hash__(self):
        raise E.Unsupported("a symbolic text used as a dictionary key or set member")

    def __add__(self, o):
        return mk(z3.Concat(self.e, ex(o)))

    def __radd__(self, o):
        return mk(z3.Concat(ex(o), self.e))

    def __mul__(self, n):
        if isinstance(n, int) and 0 <= n <= 8:
            return mk(z3.Concat(*[self.e] * n)) if n > 1 else (self if n else "")
        raise Unsupported("text repetition")

    __rmul__ = __mul__

    def __mod__(self, o):
        return SymStr(z3.String(E.cur().fresh("text")))

    # -- methods ---------------------------------------------------------------
    def startswith(self, p, *a):
        if a:
            return self.vc_getitem(slice(*a)).startswith(p)
        if isinstance(p, tuple):
            return E.or_(*[self.startswith(x) for x in p])
        if isinstance(p, str):
            r = struct_starts(self.e, p, True)
            if r is not None:
                return r
        return SymBool(z3.PrefixOf(ex(p), self.e))

    def endswith(self, p, *a):
        if a:
            return self.vc_getitem(slice(*a)).endswith(p)
        if isinstance(p, tuple):
            return E.or_(*[self.endswith(x) for x in p])
        if isinstance(p, str):
            r = struct_starts(self.e, p, False)
            if r is not None:
                return r
        return SymBool(z3.SuffixOf(ex(p), self.e))

    def removeprefix(self, p):
        return self.vc_getitem(slice(len(p), None)) if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return self.vc_getitem(slice(None, -len(p))) if p and bool(self.endswith(p)) else self

    def _strip(self, chars, left, right):
        p = E.cur()
        r = struct_strip(self.e, chars, left, right)
        if r is not None:
            return r
        key = ("strip", self.e.get_id(), chars, left, right)
        if key in p.memo:
            return p.memo[key]
        p.keep.append(self.e)
        r = z3.String(p.fresh("strip"))
        cls = ws() if chars is None else (z3.Union(*[z3.Re(lit(c)) for c in chars]) if len(chars) > 1 else z3.Re(lit(chars)))
        anyc = z3.Star(z3.AllChar(z3.ReSort(STR)))
        pieces = []
        if left:
            a = z3.String(p.fresh("strip"))
            p.add(z3.InRe(a, z3.Star(cls)))
            p.add(z3.Not(z3.InRe(r, z3.Concat(cls, anyc))))
            pieces.append(a)
        pieces.append(r)
        if right:
            b = z3.String(p.fresh("strip"))
            p.add(z3.InRe(b, z3.Star(cls)))
            p.add(z3.Not(z3.InRe(r, z3.Concat(anyc, cls))))
            pieces.append(b)
        p.add(self.e == z3.Concat(*pieces))
        # (a number is read the same with the white space around it)
        if chars is None:
            num_facts(self.e)
            num_facts(r)
            p.add(Fin(r) == Fin(self.e))
            p.add(NonFin(r) == NonFin(self.e))
            p.add(IsInt(r) == IsInt(self.e))
            p.add(FVal(r) == FVal(self.e))
            p.add(IVal(r) == IVal(self.e))
        p.memo[key] = SymStr(r)
        return p.memo[key]

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def lower(self):
        return SymStr(Lower(self.e))

    casefold = lower

    def upper(self):
        return SymStr(Upper(self.e))

    def split(self, sep=None, maxsplit=-1):
        if maxsplit == 1 and sep is not None:
            r = first_cut(self.e, sep)
            return VCList([self] if r is None else list(r))
        if maxsplit != -1:
            raise Unsupported("split with a limit")
        known = E.cur().memo.get(("parts", self.e.get_id(), sep))
        if known is not None:
            return VCList(known)
        return VCList(split_parts(self.e, sep))

    def count(self, sub):
        parts = split_parts(self.e, sub)
        if parts and isinstance(parts[-1], Seg):
            return H.m_len(H.HOOKS, VCList(parts)) - 1
        return len(parts) - 1

    def replace(self, old, new, n=-1):
        if n != -1 or isinstance(old, Sym):
            raise Unsupported("replace with a limit")
        p = E.cur()
        key = ("replace", self.e.get_id(), old, new)
        if key not in p.memo:
            p.keep.append(self.e)
            p.memo[key] = join(new, split_parts(self.e, old)) if bool(self.vc_contains(old)) else self
        return p.memo[key]

    def find(self, sub, *a):
        if a:
            raise Unsupported("find with bounds")
        return SymNum(z3.ToReal(z3.IndexOf(self.e, ex(sub), 0)), True)

    def index(self, sub, *a):
        if not bool(self.vc_contains(sub)):
            raise ValueError("substring not found")
        return self.find(sub, *a)

    def partition(self, sep):
        r = first_cut(self.e, sep)
        return (self, "", "") if r is None else (r[0], sep, r[1])

    def format(self, *a, **k):
        s = const(self.e)
        if s is not None:
            return braces(s, a, k)
        return unknown_text()

    def encode(self, *a):
        raise Unsupported("encode")

    def __getattr__(self, name):
        if name.startswith("vc_") or name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            raise Unsupported(f"str.{name}")
        raise AttributeError(name)

    def __str__(self):
        return "<text>"

    def __repr__(self):
        return f"<text {self.e}>"

    def __format__(self, spec):
        return "<text>"


def lower_facts(e, o):
    """e is Lower(x) and is compared with the text o."""
    if z3.is_app(e) and e.decl().eq(Lower) and o == o.lower():
        p = E.cur()
        x = e.arg(0)
        p.add(z3.Implies(x == lit(o), e == lit(o)))


def split_parts(e, sep):
    p = E.cur()
    if isinstance(sep, Sym):
        raise Unsupported("split at symbolic text")
    key = ("split", e.get_id(), sep)
    if key in p.memo:
        return list(p.memo[key])
    p.keep.append(e)
    s = const(e)
    if s is not None:
        return s.split(sep)
    r = struct_split(e, sep)
    if r is not None:
        p.memo[key] = r
        return list(r)
    low = 0 if sep is None else 1
    n = p.choose(PARTS - low + 2) + low  # PARTS + 1: more
    more = n > PARTS

    def part():
        x = z3.String(p.fresh("part"))
        if sep is None:
            p.add(z3.InRe(x, z3.Plus(z3.Diff(z3.AllChar(z3.ReSort(STR)), ws()))))
            set_free(x, SPACES)
            p.memo[("nonempty", x.get_id())] = True
        else:
            p.add(z3.Not(z3.Contains(x, lit(sep))))
            if len(sep) == 1:
                set_free(x, sep)
            if len(sep) > 1:
                raise_if_overlapping(sep)
        return x

    xs = [part() for _ in range(n)]
    pieces = []
    for i, x in enumerate(xs):
        if sep is None:
            w = z3.String(p.fresh("gap"))
            p.add(z3.InRe(w, z3.Plus(ws()) if i else z3.Star(ws())))
            pieces.append(w)
        elif i:
            pieces.append(lit(sep))
        pieces.append(x)
    if sep is None:
        w = z3.String(p.fresh("gap"))
        p.add(z3.InRe(w, z3.Star(ws())))
        pieces.append(w)
    if more:
        # at least one more part may follow
        rest = z3.String(p.fresh("rest"))
        if sep is None:
            p.add(z3.Implies(z3.Length(rest) > 0, z3.Length(w) > 0))
        else:
            p.add(z3.Or(z3.Length(rest) == 0, z3.PrefixOf(lit(sep), rest)))
        pieces.append(rest)
    p.add(e == (z3.Concat(*pieces) if len(pieces) > 1 else pieces[0]))
    out = [SymStr(x) for x in xs]
    if more:
        out.append(Seg("more parts", lambda: SymStr(part())))
    if not p.feasible():
        raise E.Pruned()
    p.memo[key] = out
    return list(out)


def raise_if_overlapping(sep):
    for k in range(1, len(sep)):
        if sep.startswith(sep[k:]):
            raise Unsupported("self-overlapping separator")


_digit = None


def hex_digit(c):
    """Value of the one-character text c as a hexadecimal digit, and whether it is one."""
    k = z3.StrToCode(c)
    dig = z3.And(k >= 48, k <= 57)
    low = z3.And(k >= 97, k <= 102)
    up = z3.And(k >= 65, k <= 70)
    return z3.If(dig, k - 48, z3.If(low, k - 87, k - 55)), z3.Or(dig, low, up)


def hex_facts(e):
    """int(e, 16) of one or two ASCII hexadecimal digits; otherwise unknown."""
    p = E.cur()
    key = ("hex", e.get_id())
    if key in p.defined:
        return
    p.defined.add(key)
    p.keep.append(e)
    n = z3.Length(e)
    a, b = z3.SubString(e, 0, 1), z3.SubString(e, 1, 1)
    (va, oka), (vb, okb) = hex_digit(a), hex_digit(b)
    p.add(z3.Implies(z3.And(n == 2, oka, okb), z3.And(IsHex(e), HexVal(e) == 16 * va + vb)))
    p.add(z3.Implies(z3.And(n == 1, oka), z3.And(IsHex(e), HexVal(e) == va)))
    # letters and punctuation that are no part of a number
    bad = z3.Union(rng("g", "w"), rng("G", "W"), rng("y", "z"), rng("Y", "Z"), *[z3.Re(lit(c)) for c in "#%(),.;:'\"/!$&*<=>?@[]^`{|}~"])
    anyc = z3.Star(z3.AllChar(z3.ReSort(STR)))
    p.add(z3.Implies(IsHex(e), z3.And(n > 0, z3.Not(z3.InRe(e, z3.Concat(anyc, bad, anyc))))))


# -- text of values ----------------------------------------------------------------
def concat(parts):
    out = []
    for x in parts:
        if isinstance(x, (SymStr, str)):
            out.append(ex(x))
        else:
            return unknown_text()
    return (mk(z3.Concat(*out)) if len(out) > 1 else mk(out[0])) if out else ""


def unknown_text():
    """Some text (of a value whose text is not modelled)."""
    return SymStr(z3.String(E.cur().fresh("text")))


def first_cut(e, sep):
    """(text before, text after) the first occurrence of sep; None: there is none."""
    p = E.cur()
    if isinstance(sep, Sym) or not sep:
        raise Unsupported("partition at symbolic text")
    s = const(e)
    if s is not None:
        a, m, b = s.partition(sep)
        return (a, b) if m else None
    ps = flatten(e)
    if len(sep) == 1:
        before = []
        for i, x in enumerate(ps):
            if isinstance(x, str):
                j = x.find(sep)
                if j >= 0:
                    return build(before + [x[:j]]), build([x[j + 1:]] + ps[i + 1:])
            elif not free(x, sep):
                break
            before.append(x)
        else:
            return None
    else:
        occ = occurrences(ps, sep)
        if occ is not None:
            if not occ:
                return None
            a, b = cut(ps, occ[:1], len(sep))
            return build(a), build(b)
        raise_if_overlapping(sep)
    key = ("cut", e.get_id(), sep)
    if key not in p.memo:
        p.keep.append(e)
        if not bool(SymBool(z3.Contains(e, lit(sep)))):
            p.memo[key] = None
        else:
            a, b = z3.String(p.fresh("before")), z3.String(p.fresh("after"))
            p.add(z3.Not(z3.Contains(a, lit(sep))))
            if len(sep) == 1:
                set_free(a, sep)
            p.add(e == z3.Concat(a, lit(sep), b))
            p.memo[key] = (SymStr(a), SymStr(b))
    return p.memo[key]


def percent(a, b):
    """a % b with symbolic operands: %s, %r, %d (of whole numbers) and %%."""
    items = list(b) if isinstance(b, tuple) else [b]
    out = []
    for k, t in enumerate(re.split(r"(%(?:\([^)]*\))?[^a-zA-Z%]*[a-zA-Z%])", a)):
        if k % 2 == 0:
            out.append(t)
            continue
        if t == "%%":
            out.append("%")
        elif t[1] == "(" and t.endswith((")s", ")r")) and isinstance(b, dict):
            v = b[t[2:-2]]
            out.append(H.HOOKS.call(str if t[-1] == "s" else repr, v))
        elif t in ("%s", "%r", "%d"):
            if not items:
                raise TypeError("not enough arguments for format string")
            v = items.pop(0)
            if t == "%d" and not (isinstance(v, int) or isinstance(v, SymNum) and bool(E.not_(E.not_(v.isint)))):
                raise Unsupported("%d of a symbolic value")
            out.append(H.HOOKS.call(repr if t == "%r" else str, v))
        else:
            raise Unsupported(f"format {t}")
    if items and not isinstance(b, dict):
        raise TypeError("not all arguments converted during string formatting")
    return concat([x for x in out if not (isinstance(x, str) and x == "")])


def braces(s, a, k):
    """s.format(*a, **k) with symbolic operands and no format specifications."""
    out, auto = [], 0
    for text, field, spec, conv in _string.Formatter().parse(s):
        if text:
            out.append(text)
        if field is None:
            continue
        if spec or not re.fullmatch(r"\w*", field):
            raise Unsupported("format specification")
        if field == "":
            v, auto = a[auto], auto + 1
        else:
            v = a[int(field)] if field.isdigit() else k[field]
        out.append(H.HOOKS.call(repr if conv == "r" else str, v))
    return concat(out)


def join(sep, items):
    if isinstance(sep, Sym):
        raise Unsupported("join with symbolic separator")
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(lit(sep))
        if isinstance(x, Seg):
            out.append(z3.String(E.cur().fresh("joined")))
        elif isinstance(x, (SymStr, str)):
            out.append(ex(x))
        else:
            raise TypeError("sequence item: expected str instance")
    if not out:
        return ""
    return mk(z3.Concat(*out)) if len(out) > 1 else mk(out[0])


def text_of(x):
    if isinstance(x, SymNum):
        p = E.cur()
        fl = E.zb(x.isint)
        e = NumText(z3.simplify(x.e), fl)
        key = ("text", e.get_id())
        if key not in p.defined:
            p.defined.add(key)
            p.keep.append(e)
            num_facts(e)
            p.add(z3.And(Fin(e), FVal(e) == x.e, z3.Length(e) > 0))
            p.add(z3.Implies(fl, IsInt(e)))
            chars = z3.Union(rng("0", "9"), *[z3.Re(lit(c)) for c in "+-.e"])
            p.add(z3.InRe(e, z3.Plus(chars)))
        return SymStr(e)
    return unknown_text()


def lift(s):
    return SymStr(lit(s))


def fresh(name, **k):
    p = E.cur()
    v = p.fresh(name)
    e = z3.String(v)
    p.strs[v] = e
    return SymStr(e)


WORDS = ["auto", "none", "inherit", "initial", "thin", "red", "solid", "px", "em", "%", "5", "1.5", "-3", "in", "vmin", "e", "inf", "nan", "", " ", "bold", "1e3", "0", "#", "rgb("]


def random_text(rng_):
    n = rng_.choice([0, 1, 1, 1, 2, 2, 3])
    return "".join(rng_.choice(WORDS) for _ in range(n))


import sys

H.HOOKS.strings = sys.modules[__name__]
E.Path.memo = E.Path.keep = None
_init = E.Path.__init__


def _path_init(self, explorer, prefix):
    _init(self, explorer, prefix)
    self.memo = {}
    self.keep = []


E.Path.__init__ = _path_init


def record(name, v):
    """The counterexample shows v under this name."""
    E.cur().strs[name] = ex(v)


def joined(name, sep, parts):
    """A text that split(sep) takes apart into these parts (none of which contains sep)."""
    p = E.cur()
    x = z3.String(p.fresh(name))
    p.keep.append(x)
    p.memo[("parts", x.get_id(), sep)] = list(parts)
    return SymStr(x)
