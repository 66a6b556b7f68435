"""The operations of the instrumented code (``__vc__``).

With no path active every hook is the native operation.  With a path active it
is still the native operation unless a symbolic value, a lazily split field or a
list with summarised segments is involved.
"""

import ast
import builtins
import math
import operator
import sys
from fractions import Fraction

import z3

from . import engine as E
from .engine import (
    Lazy,
    Opaque,
    Poison,
    Pruned,
    Seg,
    Sym,
    SymBool,
    SymNum,
    Unsupported,
    VCList,
    has_seg,
    raw,
)

AUG = {
    "Add": operator.iadd,
    "Sub": operator.isub,
    "Mult": operator.imul,
    "Div": operator.itruediv,
    "FloorDiv": operator.ifloordiv,
    "Mod": operator.imod,
    "Pow": operator.ipow,
    "BitOr": operator.ior,
    "BitAnd": operator.iand,
    "BitXor": operator.ixor,
    "LShift": operator.ilshift,
    "RShift": operator.irshift,
    "MatMult": operator.imatmul,
}


def unlazy(obj, name, v):
    if isinstance(v, Lazy):
        v = v.resolve()
        d = getattr(obj, "__dict__", None)
        if d is not None and isinstance(d.get(name), Lazy):
            d[name] = v
    return v


class Done:
    __slots__ = ()

    def done(self):
        pass


class PlainLoop:
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def done(self):
        pass


def tag_of(v, elem):
    if isinstance(v, Poison):
        return "poison"
    if v is None:
        return "none"
    if isinstance(v, (bool, str)):
        return ("const", v)
    if isinstance(v, SymBool):
        return "bool"
    if isinstance(v, (int, float, SymNum)):
        p = E.cur()
        nn = E.tobool(SymNum.of(v) >= 0)
        if nn is True:
            return "num+"
        if nn is False:
            return "num"
        p.ex.checks += 1
        p.flush()
        if p.solver.check(z3.Not(nn)) == z3.unsat:
            return "num+"
        return "num"
    if elem is not None:
        if v is elem:
            return "elem"
        d = getattr(elem, "__dict__", {})
        for k, x in d.items():
            if x is v and k not in ("parent", "style", "intrinsic"):
                return ("elemattr", k)
    return "poison"


def entry_tag(v):
    """Of the value a loop starts with: an object is itself until an iteration changes that."""
    t = tag_of(v, None)
    return "entry" if t == "poison" and not isinstance(v, Poison) else t


def norm_tags(tags):
    tags = set(tags)
    if "num" in tags:
        tags.discard("num+")
    if "poison" in tags:
        return {"poison"}
    return tags


def value_of(tags, seg, what, entry=None):
    p = E.cur()
    tags = sorted(norm_tags(tags), key=repr)
    if not tags:
        return Poison(what)
    i = p.choose(len(tags))
    t = tags[i]
    if t == "none":
        return None
    if t == "entry":
        return entry
    if t == "poison":
        return Poison(what)
    if t == "bool":
        return SymBool(z3.Bool(p.fresh("havoc_b")))
    if t in ("num", "num+"):
        x = SymNum(z3.Real(p.fresh("havoc")), False)
        if t == "num+":
            p.assume(x >= 0)
        return x
    if t == "elem" or (isinstance(t, tuple) and t[0] == "elemattr"):
        mk = getattr(seg, "make_done", None)
        if mk is None:
            return Poison(what)
        e = mk()
        if t == "elem":
            return e
        v = getattr(e, t[1])
        if v is None:
            raise Pruned()  # (that is a case of its own)
        return v
    if isinstance(t, tuple) and t[0] == "const":
        return t[1]
    return Poison(what)


class SegLoop:
    def __init__(self, it, lid, carried, reads, getters, setters, exits, in_func):
        self.items = raw(it)
        self.lid = lid
        self.carried = carried
        self.reads = reads
        self.getters = dict(zip(tuple(carried) + tuple(reads), getters))
        self.setters = dict(zip(carried, setters))
        self.exits = exits
        self.in_func = in_func
        self.stage = None
        self.exc0 = sys.exc_info()[1]
        self.depth = len(E.cur().active)

    def get(self, name):
        try:
            return self.getters[name]()
        except NameError:
            return E._UNSET

    def join(self, key, tag):
        p = E.cur()
        s = p.ex.loop_types.setdefault(key, set())
        before = norm_tags(s)
        s.add(tag)
        if norm_tags(s) != before:
            p.ex.dirty = True

    def __iter__(self):
        p = E.cur()
        for pos, piece in enumerate(self.items):
            if not isinstance(piece, Seg):
                yield piece
                continue
            p.active.append((self.lid, piece))
            yield from self.segment(p, pos, piece)
            p.active.pop()
            if self.lid in p.ex.loop_types.get(("processed",), ()):
                piece.root.laid = True

    def segment(self, p, pos, piece):
        """Zero or more iterations, summarised.

        The state a loop iteration can start from is over-approximated (what an iteration
        changes is found by fixpoint and havocked); then either the code after the segment is
        checked from such a state, or one arbitrary iteration is, or one that leaves the loop.
        """
        if not self.in_func:
            raise Unsupported("summarised loop outside a function")
        p.abstract = True
        key = (self.lid, pos, piece.name)
        cells = p.ex.loop_types.setdefault(("cells",) + key, {})
        scenario = p.choose(3 if self.exits else 2)
        # -- havoc: only what an iteration changes
        start = {}
        for n in self.carried:
            v = self.get(n)
            if p.ex.loop_types.get(key + (n,)):
                self.join(key + (n,), "unbound" if v is E._UNSET else entry_tag(v))
                tags = p.ex.loop_types[key + (n,)] - {"unbound"}
                v = value_of(tags, piece, f"{n} in {self.lid}", v)
                self.setters[n](v)
            start[n] = v
        for cell, (obj, attr) in list(cells.items()):
            o = p.tracked.get(cell[0])
            if o is None:
                continue
            self.join(key + cell, tag_of(getattr(o, attr), None))
            tags = p.ex.loop_types[key + cell]
            o.__dict__[attr] = value_of(tags, piece, f"{cell} in {self.lid}")
            p.writes.append((o, attr))
        # -- lists the loop appends to
        lists = {}
        for n in self.reads:
            v = self.get(n)
            if isinstance(v, list):
                lists[n] = v
                self.append_summary(p, key, n, v, piece)
        if scenario == 0:
            return
        # -- one arbitrary iteration
        e = piece.make()
        owned = {id(o) for o in owned_of(e)}
        snaps = {}
        for n in self.reads:
            v = self.get(n)
            if isinstance(v, list):
                snaps[n] = (v, raw(v))
            elif isinstance(v, dict):
                snaps[n] = (v, dict(v))
            elif isinstance(v, set):
                snaps[n] = (v, set(v))
        mark = len(p.writes)
        self.stage = "exit" if scenario == 2 else "noexit"
        yield e
        if self.stage == "exit":
            raise Pruned()
        self.stage = None
        # -- its effects
        for n, (v, old) in snaps.items():
            if isinstance(v, list):
                new = raw(v)
                if len(new) == len(old) and all(x is y for x, y in zip(new, old)):
                    out = "none"
                elif (
                    len(new) == len(old) + 1
                    and all(x is y for x, y in zip(new, old))
                    and new[-1] is e
                ):
                    out = "elem"
                elif (
                    len(new) == len(old) + 1
                    and all(x is y for x, y in zip(new, old))
                    and getattr(piece, "image", None) is not None
                    and new[-1] is piece.image(e)
                ):
                    out = "image"
                else:
                    out = "other"
                st = p.ex.loop_lists.setdefault(key + ("list", n), set())
                if out not in st:
                    st.add(out)
                    p.ex.dirty = True
            elif v != old:
                raise Unsupported(f"{n} mutated in summarised loop {self.lid}")
        names = {id(o): k for k, o in p.tracked.items()}
        before = {id(o) for o, _ in p.writes[:mark]}
        for o, attr in p.writes[mark:]:
            if id(o) in owned:
                continue
            if id(o) not in names:
                if id(o) not in before:
                    continue  # created by this iteration
                n = sum(1 for k in p.tracked if k.startswith("auto:" + type(o).__name__))
                nm = f"auto:{type(o).__name__}:{n}"
                p.tracked[nm] = o
                names[id(o)] = nm
            cell = (names[id(o)], attr)
            if attr not in o.__dict__:
                # a property: its storage is what matters, and is logged as well
                continue
            if cell not in cells:
                cells[cell] = (None, attr)
                p.ex.dirty = True
            self.join(key + cell, tag_of(o.__dict__.get(attr), e))
        for n in self.carried:
            v = self.get(n)
            if v is start[n] and not isinstance(v, Poison):
                continue
            self.join(key + (n,), "unbound" if v is E._UNSET else tag_of(v, e))
        raise Pruned()

    def append_summary(self, p, key, n, v, piece):
        kinds = p.ex.loop_lists.get(key + ("list", n), set()) - {"none"}
        if not kinds:
            return
        if kinds == {"elem"}:
            every = "none" not in p.ex.loop_lists[key + ("list", n)]
            q = Seg(piece.name + ("" if every else "?"), piece.make)
            q.maybe_empty = piece.maybe_empty or not every
            if every:
                q.size_of = piece.size_of
            q.root = piece.root
            q.make_done = getattr(piece, "make_done", None)
        elif kinds == {"image"}:
            every = "none" not in p.ex.loop_lists[key + ("list", n)]
            q = Seg(piece.name + ("" if every else "?"), lambda: piece.image(piece.make()))
            q.maybe_empty = piece.maybe_empty or not every
            if every:
                q.size_of = piece.size_of
            q.root = piece.root
        else:
            lid = self.lid

            def bad():
                raise Unsupported(f"element of list {n} built by {lid}")

            q = Seg(piece.name + "*", bad)
        list.append(v, q)

    def done(self):
        p = E.cur()
        if p is not None:
            del p.active[self.depth :]
        if self.stage == "noexit" and self.exits:
            if sys.exc_info()[1] is self.exc0:
                self.stage = None
                raise Pruned()
        self.stage = None


def owned_of(e):
    out = [e]
    f = getattr(type(e), "vc_owned", None)
    if f is not None:
        out += list(f(e))
    return out


def symbolic(x):
    return isinstance(x, (Sym, Lazy)) or has_seg(x)


class Hooks:
    """Instance is injected as ``__vc__`` in the twin modules."""

    strings = None  # set by strings.py

    # -- identity and membership ----------------------------------------
    def is_(self, a, b):
        if E.CURRENT is not None:
            if isinstance(a, Sym) or isinstance(b, Sym):
                return identical(a, b)
            for x, y in ((a, b), (b, a)):
                if hasattr(type(x), "vc_is"):
                    return x.vc_is(y)
        return a is b

    def is_not(self, a, b):
        r = self.is_(a, b)
        return E.not_(r) if isinstance(r, SymBool) else not r

    def in_(self, a, b):
        if E.CURRENT is not None:
            if hasattr(type(b), "vc_contains"):
                return b.vc_contains(a)
            if isinstance(a, Sym) or symbolic(b) or (
                isinstance(b, (list, tuple, set, frozenset, dict))
                and any(isinstance(x, Sym) for x in (raw(b) if isinstance(b, list) else b))
            ):
                if isinstance(b, str):
                    return self.strings.within(a, b)
                if has_seg(b):
                    for x in raw(b):
                        if isinstance(x, Seg):
                            raise Unsupported("membership in a list with segments")
                items = raw(b) if isinstance(b, list) else list(b)
                for x in items:
                    if x is a:
                        return True
                conds = []
                for x in items:
                    c = a == x
                    if isinstance(c, SymBool):
                        conds.append(c)
                    elif c:
                        return True
                return E.or_(*conds) if conds else False
        return a in b

    def not_in(self, a, b):
        r = self.in_(a, b)
        return E.not_(r) if isinstance(r, SymBool) else not r

    def lst(self, items):
        return VCList(items) if E.CURRENT is not None else items

    # -- attributes --------------------------------------------------------
    def attr(self, obj, name):
        v = getattr(obj, name)
        if E.CURRENT is not None and isinstance(v, Lazy):
            return unlazy(obj, name, v)
        return v

    def store(self, value, obj, name):
        if E.CURRENT is not None:
            E.CURRENT.writes.append((obj, name))
        setattr(obj, name, value)

    def aug(self, obj, name, op, thunk):
        cur = self.attr(obj, name)
        new = AUG[op](cur, thunk())
        if E.CURRENT is not None:
            E.CURRENT.writes.append((obj, name))
        setattr(obj, name, new)

    # -- subscripts ----------------------------------------------------------
    def slice(self, a, b, c):
        return builtins.slice(a, b, c)

    def getitem(self, x, i):
        if E.CURRENT is not None:
            if hasattr(type(x), "vc_getitem"):
                return x.vc_getitem(i)
            if has_seg(x):
                return seg_getitem(x, i)
            if isinstance(i, Sym):
                return sym_getitem(x, i)
            v = x[i]
            if isinstance(v, Lazy):
                v = v.resolve()
                x[i] = v
            return v
        return x[i]

    # -- strings ---------------------------------------------------------------
    def fstr(self, *parts):
        if E.CURRENT is None:
            return "".join(
                p if isinstance(p, str) else fmt(*p) for p in parts
            )
        if all(isinstance(p, str) or not needs_sym(p[0]) for p in parts):
            out = []
            sym = False
            for p in parts:
                if isinstance(p, str):
                    out.append(p)
                else:
                    r = self.format1(*p)
                    sym = sym or isinstance(r, Sym)
                    out.append(r)
            if not sym:
                return "".join(out)
            return self.strings.concat(out)
        out = [p if isinstance(p, str) else self.format1(*p) for p in parts]
        if all(isinstance(o, str) for o in out):
            return "".join(out)
        return self.strings.concat(out)

    def format1(self, v, conv, spec):
        if spec:
            if isinstance(v, Sym):
                raise Unsupported("format spec on a symbolic value")
            return fmt(v, conv, spec)
        if conv == 114:
            return self.call(repr, v)
        return self.call(str, v)

    def mod(self, a, b):
        if isinstance(a, str) and E.CURRENT is not None:
            items = b if isinstance(b, tuple) else (b,)
            if isinstance(b, dict):
                items = list(b.values())
            if any(needs_text(x) for x in items):
                return self.strings.percent(a, b)
        return a % b

    # -- iteration ---------------------------------------------------------------
    def plain(self, it):
        if E.CURRENT is not None and has_seg(it):
            raise Unsupported("nested comprehension over a list with segments")
        if E.CURRENT is not None and hasattr(type(it), "vc_iter"):
            return it.vc_iter()
        return it

    def loop(self, it, lid, carried, reads, getters, setters, exits, in_func):
        if E.CURRENT is not None:
            if has_seg(it):
                return SegLoop(
                    it, lid, carried, reads, getters, setters, exits, in_func
                )
            if hasattr(type(it), "vc_iter"):
                it = it.vc_iter()
        return PlainLoop(it)

    def comp(self, kind, cid, nargs, it, elt, cond):
        if E.CURRENT is not None and hasattr(type(it), "vc_iter"):
            it = it.vc_iter()
        if nargs == 1:
            e1, c1 = elt, cond
        else:
            def e1(x):
                return elt(*x)

            c1 = None if cond is None else (lambda x: cond(*x))
        if E.CURRENT is None or not has_seg(it):
            if kind == "gen":
                return native_gen(it, e1, c1)
            out = [e1(x) for x in it if c1 is None or c1(x)]
            if kind == "set":
                return set(out)
            if kind == "dict":
                return dict(out)
            return out
        if kind in ("set", "dict"):
            raise Unsupported("set/dict comprehension over segments")
        p = E.cur()
        out = VCList()
        for piece in raw(it):
            if not isinstance(piece, Seg):
                if c1 is None or c1(piece):
                    list.append(out, e1(piece))
                continue
            p.abstract = True
            f0 = p.forks
            probe = piece.make()
            p.active.append((cid, piece))
            keep = True if c1 is None else bool(c1(probe))
            p.active.pop()
            if cid in p.ex.loop_types.get(("processed",), ()):
                piece.root.laid = True
            if c1 is not None and p.forks == f0:
                if not keep:
                    continue
                filtered = False
            else:
                filtered = c1 is not None

            made = []

            def make(piece=piece, filtered=filtered, made=made):
                x = piece.make()
                if filtered and not bool(c1(x)):
                    raise Pruned()
                made[:] = [x]
                return e1(x)

            s = Seg(piece.name + ("|f" if filtered else "|m"), make)
            s.root = piece.root
            s.maybe_empty = piece.maybe_empty or filtered
            if not filtered:
                s.size_of = piece.size_of
            if not filtered and getattr(piece, "image", None) is not None:
                s.image = lambda y, piece=piece, made=made: piece.image(made[0])
            list.append(out, s)
        return out

    # -- calls ---------------------------------------------------------------------
    def call(self, f, *a, **k):
        if E.CURRENT is None:
            return f(*a, **k)
        m = MODELS.get(id(f))
        if m is not None:
            r = m(self, *a, **k)
            if r is not NotImplemented:
                return r
            return f(*a, **k)
        owner = getattr(f, "__self__", None)
        if type(f).__name__ == "method-wrapper" and f.__name__ == "__init__" and isinstance(owner, list) and len(a) == 1 and has_seg(a[0]):
            list.clear(owner)
            for x in raw(a[0]):
                list.append(owner, x)
            return None
        if owner is not None and type(f).__name__ == "builtin_function_or_method":
            if isinstance(owner, str) and not isinstance(owner, Sym):
                r = self.str_method(owner, f.__name__, a, k)
                if r is not NotImplemented:
                    return r
            elif isinstance(owner, list) and has_seg(owner):
                return list_method(owner, f.__name__, a, k)
            elif isinstance(owner, dict) and a and isinstance(a[0], Sym):
                return dict_method(owner, f.__name__, a, k)
            return f(*a, **k)
        return f(*a, **k)

    def str_method(self, owner, name, a, k):
        if name == "join" and len(a) == 1:
            it = a[0]
            if has_seg(it):
                raise Unsupported("join over segments")
            items = list(it.vc_iter() if hasattr(type(it), "vc_iter") else it)
            if any(isinstance(x, Sym) for x in items):
                return self.strings.join(owner, items)
            return owner.join(items)
        if name == "format" and (any(needs_text(x) for x in a) or any(needs_text(x) for x in k.values())):
            return self.strings.braces(owner, a, k)
        if any(needs_sym(x) for x in a) or any(needs_sym(x) for x in k.values()):
            if self.strings is not None:
                return getattr(self.strings.lift(owner), name)(*a, **k)
            raise Unsupported(f"str.{name} with symbolic arguments")
        return NotImplemented


def fmt(v, conv, spec):
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, spec)


def needs_sym(x):
    return isinstance(x, (Sym, Poison))


def needs_text(x):
    """Whether the text of x may be symbolic."""
    return not (x is None or isinstance(x, (str, int, float, complex, bytes)) or isinstance(x, type)) or isinstance(x, Sym)


def native_gen(it, e, c):
    for x in it:
        if c is None or c(x):
            yield e(x)


def identical(a, b):
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        f = getattr(type(x), "vc_is", None)
        if f is not None:
            r = f(x, y)
            if r is not NotImplemented:
                return r
    if isinstance(a, SymBool) and isinstance(b, bool) or isinstance(
        b, SymBool
    ) and isinstance(a, bool):
        return a == b
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        o = b if isinstance(a, SymNum) else a
        if isinstance(o, (int, float, SymNum)) and not isinstance(o, bool):
            raise Unsupported("identity of symbolic numbers")
        return False
    return False


def seg_getitem(x, i):
    items = raw(x)
    if isinstance(i, slice):
        if i.start in (None, 0) and i.stop is None and i.step in (None, 1):
            return VCList(items)
        if i.step == -1 and i.start is None and i.stop is None:
            return VCList(items[::-1])
        raise Unsupported("slice of a list with segments")
    if isinstance(i, Sym):
        raise Unsupported("symbolic index into a list with segments")
    order = items[::-1] if i < 0 else items
    n = -i - 1 if i < 0 else i
    p = E.cur()
    for piece in order:
        if isinstance(piece, Seg):
            if piece.maybe_empty:
                p.abstract = True
                if p.choose(2) == 0:
                    piece.vc_decide(False)
                    if n == 0:
                        return piece.make()
                    raise Unsupported("index past a segment")
                piece.vc_decide(True)
                continue
            if n == 0:
                return piece.make()
            raise Unsupported("index past a segment")
        if n == 0:
            return piece
        n -= 1
    raise IndexError("list index out of range")


def sym_getitem(x, i):
    if isinstance(x, dict):
        if len(x) > 8 and i.vc_type() is str if hasattr(i, "vc_type") else False:
            # one path per key
            keys = list(x)
            k = E.cur().choose(len(keys) + 1)
            cs = [i == key for key in keys]
            if k < len(keys):
                E.cur().assume(E.tobool(cs[k]))
                return x[keys[k]]
            for c in cs:
                E.cur().assume(E.tobool(E.not_(c)))
            if not E.cur().feasible():
                raise Pruned()
            raise KeyError(i)
        for key, v in x.items():
            c = i == key
            if bool(c):
                return v
        raise KeyError(i)
    if isinstance(x, (list, tuple)) and isinstance(i, SymNum):
        n = len(x)
        for j in range(-n, n):
            if bool(i == j):
                return x[j]
        raise IndexError("list index out of range")
    if isinstance(x, Sym):
        return x[i]
    raise Unsupported("symbolic subscript")


def list_method(owner, name, a, k):
    if name == "append":
        list.append(owner, a[0])
        return None
    if name == "copy":
        return VCList(raw(owner))
    if name == "extend":
        for x in raw(a[0]) if isinstance(a[0], list) else a[0]:
            list.append(owner, x)
        return None
    raise Unsupported(f"list.{name} with segments")


def dict_method(owner, name, a, k):
    if name == "get":
        try:
            return sym_getitem(owner, a[0])
        except KeyError:
            return a[1] if len(a) > 1 else None
    raise Unsupported(f"dict.{name} with a symbolic key")


# ---------------------------------------------------------------------------
# Models of builtins
# ---------------------------------------------------------------------------
def flat(classes):
    if isinstance(classes, tuple):
        out = []
        for c in classes:
            out += flat(c)
        return out
    return [classes]


def m_isinstance(h, x, classes):
    if isinstance(x, Lazy):
        raise Unsupported("unresolved lazy value")
    f = getattr(type(x), "vc_isinstance", None)
    if f is not None:
        return f(x, flat(classes))
    if isinstance(x, SymNum):
        cs = flat(classes)
        if object in cs:
            return True
        has_int, has_float = int in cs, float in cs
        import numbers

        if numbers.Number in cs or numbers.Real in cs:
            return True
        if has_int and has_float:
            return True
        if not has_int and not has_float:
            return False
        fl = x.isint
        if isinstance(fl, bool):
            return fl if has_int else not fl
        return SymBool(fl if has_int else z3.Not(fl))
    if isinstance(x, SymBool):
        return any(c in (bool, int, object) for c in flat(classes))
    if isinstance(x, Poison):
        raise Unsupported("isinstance of a summarised value")
    return NotImplemented


def m_len(h, x):
    f = getattr(type(x), "vc_len", None)
    if f is not None:
        return f(x)
    if has_seg(x):
        p = E.cur()
        p.abstract = True
        n = sum(1 for y in raw(x) if not isinstance(y, Seg))
        for y in raw(x):
            if isinstance(y, Seg):
                n = y.vc_count() + n
        return n
    return NotImplemented


def m_int(h, x=0, base=None):
    f = getattr(type(x), "vc_int", None)
    if f is not None:
        return f(x, base)
    if isinstance(x, SymNum):
        if x.isint is True:
            return x
        return E.trunc(x)
    if isinstance(x, Sym):
        raise Unsupported("int()")
    return NotImplemented


def m_float(h, x=0.0):
    f = getattr(type(x), "vc_float", None)
    if f is not None:
        return f(x)
    if isinstance(x, SymNum):
        return SymNum(x.e, False)
    if isinstance(x, Sym):
        raise Unsupported("float()")
    return NotImplemented


def m_str(h, *a):
    if len(a) != 1:
        return NotImplemented
    x = a[0]
    f = getattr(type(x), "vc_str", None)
    if f is not None:
        return f(x)
    if isinstance(x, (Sym, Poison)):
        return h.strings.text_of(x)
    cls = type(x)
    if cls.__module__.startswith("colosseum_vc"):
        return m_repr(h, x) if cls.__str__ in (object.__str__, list.__str__) else cls.__str__(x)
    if isinstance(x, (list, tuple, dict)) and contains_sym(x):
        return list_text(h, x)
    return NotImplemented


def list_text(h, x):
    """repr() of a list or tuple with symbolic elements."""
    if type(x) not in (list, tuple, VCList) or has_seg(x):
        return h.strings.unknown_text()
    out = ["(" if isinstance(x, tuple) else "["]
    for i, y in enumerate(x):
        out += [", "] * bool(i) + [h.call(repr, y)]
    return h.strings.concat(out + [",)" if isinstance(x, tuple) and len(x) == 1 else ")" if isinstance(x, tuple) else "]"])


def m_repr(h, x):
    f = getattr(type(x), "vc_repr", None)
    if f is not None:
        return f(x)
    if isinstance(x, (Sym, Poison)):
        return h.strings.text_of(x)
    cls = type(x)
    if cls.__module__.startswith("colosseum_vc"):
        return cls.__repr__(x)
    if isinstance(x, (list, tuple, dict)) and contains_sym(x):
        return list_text(h, x)
    return NotImplemented


def contains_sym(x, depth=0):
    if isinstance(x, (Sym, Seg, Lazy, Poison)):
        return True
    if depth > 4:
        return True
    if isinstance(x, dict):
        return any(contains_sym(v, depth + 1) for v in x.values()) or any(
            contains_sym(v, depth + 1) for v in x
        )
    if isinstance(x, list):
        return any(contains_sym(v, depth + 1) for v in raw(x))
    if isinstance(x, (tuple, set)):
        return any(contains_sym(v, depth + 1) for v in x)
    if type(x).__module__.startswith("colosseum_vc"):
        return True
    return False


def minmax(is_max):
    def m(h, *a, **k):
        if k:
            return NotImplemented
        items = a
        if len(a) == 1:
            if has_seg(a[0]):
                raise Unsupported("min/max over segments")
            items = list(a[0])
        if not any(isinstance(x, SymNum) for x in items):
            if len(a) == 1:
                f = max if is_max else min
                return f(items)
            return NotImplemented
        if not all(E.isnum(x) for x in items):
            raise TypeError("not supported between instances")
        r = SymNum.of(items[0])
        for y in items[1:]:
            y = SymNum.of(y)
            # CPython keeps the first of equal arguments
            r = E.ite(SymBool(y.e > r.e) if is_max else SymBool(y.e < r.e), y, r)
        return r

    return m


def m_any(h, xs):
    return m_anyall(h, xs, True)


def m_all(h, xs):
    return m_anyall(h, xs, False)


def m_anyall(h, xs, is_any):
    if not has_seg(xs):
        for x in xs:
            if bool(x) == is_any:
                return is_any
        return not is_any
    p = E.cur()
    p.abstract = True
    for piece in raw(xs):
        if not isinstance(piece, Seg):
            if bool(piece) == is_any:
                return is_any
            continue
        if p.choose(2) == 0:
            if bool(piece.make()) == is_any:
                return is_any
            raise Pruned()
        if bool(piece.make()) == is_any:
            raise Pruned()
    return not is_any


def m_getattr(h, obj, name, *default):
    if isinstance(name, Sym):
        raise Unsupported("getattr with a symbolic name")
    v = getattr(obj, name, *default)
    return unlazy(obj, name, v)


def m_setattr(h, obj, name, value):
    E.CURRENT.writes.append((obj, name))
    return setattr(obj, name, value)


def m_bool(h, x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return SymBool(x.e != 0)
    return NotImplemented


def m_round(h, x, n=None):
    if isinstance(x, SymNum):
        return x.__round__(n)
    return NotImplemented


def m_abs(h, x):
    return NotImplemented


def m_sum(h, xs, start=0):
    if has_seg(xs):
        raise Unsupported("sum over segments")
    r = start
    for x in xs:
        r = r + x
    return r


def m_list(h, *a):
    if not a:
        return VCList()
    if a and has_seg(a[0]):
        return VCList(raw(a[0]))
    if a and hasattr(type(a[0]), "vc_iter"):
        return list(a[0].vc_iter())
    return NotImplemented


def m_reversed(h, x):
    if has_seg(x):
        return VCList(raw(x)[::-1])
    return NotImplemented


def m_enumerate(h, x, start=0):
    if has_seg(x):
        p = E.cur()
        out = VCList()
        base = start
        for piece in raw(x):
            if isinstance(piece, Seg):
                lo = base
                base = piece.vc_count() + lo

                def make(piece=piece, lo=lo, hi=base):
                    i = SymNum(z3.ToReal(z3.Int(p.fresh("idx"))), True)
                    p.assume(i >= lo)
                    p.assume(i < hi)
                    return (i, piece.make())

                s = Seg(piece.name + "|e", make, maybe_empty=piece.maybe_empty)
                s.root = piece.root
                s.size_of = piece.size_of
                list.append(out, s)
            else:
                list.append(out, (base, piece))
                base = base + 1
        return out
    if hasattr(type(x), "vc_iter"):
        return enumerate(x.vc_iter(), start)
    return NotImplemented


def m_next(h, it, *default):
    if has_seg(it):
        p = E.cur()
        p.abstract = True
        for piece in raw(it):
            if not isinstance(piece, Seg):
                return piece
            if not piece.maybe_empty or p.choose(2) == 0:
                return piece.make()
        if default:
            return default[0]
        raise StopIteration
    return NotImplemented


def m_type(h, *a):
    if len(a) == 1:
        x = a[0]
        f = getattr(type(x), "vc_type", None)
        if f is not None:
            return f(x)
        if isinstance(x, SymNum):
            fl = x.isint
            if isinstance(fl, bool):
                return int if fl else float
            return int if E.cur().branch(fl) else float
        if isinstance(x, SymBool):
            return bool
    return NotImplemented


def m_isfinite(h, x):
    if isinstance(x, SymNum):
        return True
    return NotImplemented


def m_isnan(h, x):
    if isinstance(x, SymNum):
        return False
    return NotImplemented


def m_callable(h, x):
    return NotImplemented


def m_floor(h, x):
    if isinstance(x, SymNum):
        return x.__floor__()
    return NotImplemented


def m_ceil(h, x):
    if isinstance(x, SymNum):
        return x.__ceil__()
    return NotImplemented


def m_sorted(h, x, **k):
    if has_seg(x):
        raise Unsupported("sorted over segments")
    return NotImplemented


def m_zip(h, *xs):
    if any(has_seg(x) for x in xs):
        raise Unsupported("zip over segments")
    return NotImplemented


def m_tuple(h, *a):
    if a and has_seg(a[0]):
        return VCList(raw(a[0]))
    return NotImplemented


def m_fraction(h, *a):
    if any(isinstance(x, SymNum) for x in a):
        r = SymNum.of(a[0])
        if len(a) > 1:
            r = r / a[1]
        return r
    return NotImplemented


def m_divmod(h, a, b):
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        return (SymNum.of(a) // b, SymNum.of(a) % b)
    return NotImplemented


def m_filter(h, f, xs):
    return h.comp("list" if has_seg(xs) else "gen", "filter", 1, xs, lambda x: x, f or (lambda x: x))


def m_map(h, f, *xs):
    if len(xs) == 1:
        return h.comp("list" if has_seg(xs[0]) else "gen", "map", 1, xs[0], lambda x: h.call(f, x), None)
    return NotImplemented


def m_literal_eval(h, x):
    if hasattr(x, "vc_repr") and x.vc_type() is str:
        return h.strings.literal_eval(x)
    return NotImplemented


def m_print(h, *a, **k):
    return None


MODELS = {
    id(f): m
    for f, m in {
        isinstance: m_isinstance,
        len: m_len,
        ast.literal_eval: m_literal_eval,
        int: m_int,
        float: m_float,
        str: m_str,
        repr: m_repr,
        min: minmax(False),
        max: minmax(True),
        any: m_any,
        all: m_all,
        getattr: m_getattr,
        setattr: m_setattr,
        bool: m_bool,
        round: m_round,
        sum: m_sum,
        list: m_list,
        tuple: m_tuple,
        reversed: m_reversed,
        enumerate: m_enumerate,
        next: m_next,
        type: m_type,
        math.isfinite: m_isfinite,
        math.isnan: m_isnan,
        math.isinf: m_isnan,
        math.floor: m_floor,
        math.ceil: m_ceil,
        math.trunc: lambda h, x: E.trunc(x) if isinstance(x, SymNum) else NotImplemented,
        sorted: m_sorted,
        zip: m_zip,
        divmod: m_divmod,
        filter: m_filter,
        map: m_map,
        Fraction: m_fraction,
        print: m_print,
    }.items()
}

HOOKS = Hooks()
E.Path.writes = None
E.Path.tracked = None
_init = E.Path.__init__


def _path_init(self, explorer, prefix):
    _init(self, explorer, prefix)
    self.writes = []
    self.tracked = {}
    self.active = []


E.Path.__init__ = _path_init
