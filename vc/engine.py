"""Verification condition generation by symbolic execution of the real code.

A *contract* (see harness.py) builds symbolic inputs, calls the function under
contract in the mechanically instrumented twin of the package, and states
obligations.  ``explore`` runs it once per feasible path (all of them; the run
is marked incomplete if a budget is hit) and every obligation becomes a z3
query  path-condition and not obligation  that must be unsatisfiable.
"""

import builtins
import math
import time
from fractions import Fraction

import z3


class VCControl(BaseException):
    """Not catchable by the code under verification's ``except Exception``."""


class Pruned(VCControl):
    pass


class Unsupported(VCControl):
    pass


class Restart(VCControl):
    """Loop summary grew; exploration must start over."""


class Budget(VCControl):
    pass


_UNSET = object()


class Path:
    exact = False  # decide signs and floors while running (for polynomial goals)

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", min(explorer.timeout_ms, 5000))
        self.pc = []
        self.pending = []
        self.counter = {}
        self.forks = 0  # decisions with more than one feasible alternative
        self.choices = {}
        self.nums = {}
        self.strs = {}
        self.pxlog = []
        self.notes = []
        self.abstract = False  # a summary (loop, contract) was used on this path
        self.results = []
        self.defined = set()

    # -- naming -----------------------------------------------------------
    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else f"{name}!{n}"

    # -- constraints --------------------------------------------------------
    def assume(self, f):
        f = tobool(f)
        if f is True:
            return
        if f is False:
            raise Pruned()
        self.add(f)

    def add(self, f):
        self.pc.append(f)
        self.pending.append(f)

    def flush(self):
        if self.pending:
            self.solver.add(*self.pending)
            self.pending = []

    def feasible(self, f=None):
        self.ex.checks += 1
        self.flush()
        t = time.time()
        # (undecided counts as feasible: no need to insist)
        self.solver.set("timeout", 1000)
        r = self.solver.check() if f is None else self.solver.check(f)
        self.solver.set("timeout", min(self.ex.timeout_ms, 5000))
        self.ex.solver_s += time.time() - t
        return r != z3.unsat

    def branch(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d, forked = self.prefix[i]
        else:
            self.ex.tick()
            t = self.feasible(f)
            if not t:
                d, forked = False, False
            else:
                e = self.feasible(z3.Not(f))
                if e:
                    self.ex.push(self.trace + [(False, True)])
                    d, forked = True, True
                else:
                    d, forked = True, False
        self.trace.append((d, forked))
        if forked:
            self.forks += 1
        g = f if d else z3.Not(f)
        self.add(g)
        return d

    def choose(self, n, name=None):
        """Unconstrained n-way split."""
        if n == 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            d, forked = self.prefix[i]
        else:
            self.ex.tick()
            for k in range(n - 1, 0, -1):
                self.ex.push(self.trace + [(k, True)])
            d, forked = 0, True
        self.trace.append((d, forked))
        self.forks += 1
        if name is not None:
            self.choices[name] = d
        return d


class Failure:
    def __init__(self, name, path, model, detail, status):
        self.name = name
        self.detail = detail
        self.status = status  # 'sat' | 'unknown'
        self.abstract = path.abstract
        self.choices = dict(path.choices)
        self.nums = {}
        self.strs = {}
        self.px = []
        self.model_text = ""
        if model is not None:
            for n, s in path.nums.items():
                self.nums[n] = model_num(model, s)
            for n, s in path.strs.items():
                self.strs[n] = model_str(model, s)
            for uname, size, res in path.pxlog:
                self.px.append(
                    (
                        uname,
                        model_num(model, size) if size is not None else None,
                        model_num(model, res),
                    )
                )
            self.model_text = str(model)[:4000]
        self.notes = list(path.notes)


def model_num(model, s):
    if not isinstance(s, SymNum):
        return s
    v = model.eval(s.e, model_completion=True)
    v = z3.simplify(v)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    try:
        fr = Fraction(v.numerator_as_long(), v.denominator_as_long())
    except Exception:
        try:
            fr = Fraction(v.as_long())
        except Exception:
            return 0
    isint = s.isint
    if not isinstance(isint, bool):
        isint = z3.is_true(model.eval(isint, model_completion=True))
    if isint and fr.denominator == 1:
        return int(fr)
    return float(fr)


def z3_unescape(text):
    import re

    return re.sub(
        r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), text
    )


def model_str(model, e):
    v = model.eval(e, model_completion=True)
    try:
        return z3_unescape(v.as_string())
    except Exception:
        return ""


CURRENT = None  # the path being explored


def cur():
    return CURRENT


class Explorer:
    def __init__(self, timeout_ms=20000, max_paths=20000, max_seconds=600):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_seconds = max_seconds
        self.checks = 0
        self.solver_s = 0.0
        self.paths = 0
        self.pruned = 0
        self.obligations = 0
        self.discharged = 0
        self.by_name = {}
        self.failures = []
        self.unknown = []
        self.unsupported = []
        self.stack = []
        self.t0 = time.time()
        self.loop_types = {}
        self.loop_lists = {}
        self.dirty = False
        self.stubs_used = {}
        self.trivial = 0
        self.samples = []
        self.smt2 = None  # list collecting queries for a second back end
        self.unknown_names = set()

    def tick(self):
        if time.time() - self.t0 > self.max_seconds:
            raise Budget(f"time budget {self.max_seconds}s")

    def push(self, prefix):
        self.stack.append(prefix)

    def explore(self, fn):
        """Run fn() on every path.  Returns True if exploration completed."""
        global CURRENT
        rounds = 0
        while True:
            rounds += 1
            if rounds > 200:
                self.unsupported.append("loop summary did not stabilise")
                return False
            self.dirty = False
            snap = (self.obligations, self.discharged)
            self.obligations = self.discharged = self.trivial = 0
            self.by_name = {}
            self.failures = []
            self.unknown = []
            self.unsupported = []
            self.paths = self.pruned = 0
            self.samples = []
            if self.smt2 is not None:
                self.smt2 = []
            self.stack = [[]]
            complete = True
            try:
                while self.stack:
                    if self.paths + self.pruned >= self.max_paths:
                        raise Budget(f"path budget {self.max_paths}")
                    prefix = self.stack.pop()
                    p = Path(self, prefix)
                    CURRENT = p
                    try:
                        fn()
                        self.paths += 1
                        if len(self.samples) < 5:
                            self.samples.append(
                                {
                                    "choices": dict(p.choices),
                                    "path_condition": [str(c)[:200] for c in p.pc[:8]],
                                }
                            )
                    except Pruned:
                        self.pruned += 1
                    except Unsupported as e:
                        msg = str(e)
                        import os
                        if os.environ.get("VC_DEBUG") and msg not in self.unsupported:
                            import traceback
                            traceback.print_exc()
                        if msg not in self.unsupported:
                            self.unsupported.append(msg)
                        complete = False
                        if len(self.unsupported) > 20:
                            break
                    finally:
                        CURRENT = None
                    if self.dirty:
                        # a loop summary grew: what was explored so far is void
                        break
            except Budget as e:
                self.unsupported.append(f"budget: {e}")
                complete = False
                CURRENT = None
                return False
            if not self.dirty:
                return complete

    # -- obligations --------------------------------------------------------
    def ensure(self, name, cond, detail=None):
        p = CURRENT
        self.obligations += 1
        st = self.by_name.setdefault(name, [0, 0])
        st[0] += 1
        f = tobool(cond)
        if f is True:
            self.discharged += 1
            self.trivial += 1
            st[1] += 1
            return
        if f is False:
            f = z3.BoolVal(False)
        if name in self.unknown_names:
            # Do not spend the solver's time limit on every path once an obligation
            # of this name has come back undecided.
            self.unknown.append(Failure(name, p, None, detail, "unknown"))
            return
        t = time.time()
        if p.exact and rounded_goal(f):
            self.solver_s += time.time() - t
            self.checks += 1
            self.discharged += 1
            st[1] += 1
            return
        p.flush()
        s = p.solver
        s.push()
        s.add(z3.Not(f))
        if self.smt2 is not None and len(self.smt2) < 2000:
            self.smt2.append((name, s.to_smt2()))
        r = s.check()
        if r == z3.unknown:
            r2 = sample(p.pc, f) or retry(p.pc, f, self.timeout_ms)
            if r2 is not None:
                r, model = r2
            else:
                model = None
        else:
            model = s.model() if r == z3.sat else None
        s.pop()
        self.solver_s += time.time() - t
        self.checks += 1
        if r == z3.unsat:
            self.discharged += 1
            st[1] += 1
        elif r == z3.sat:
            self.failures.append(Failure(name, p, model, detail, "sat"))
        else:
            self.unknown.append(Failure(name, p, None, detail, "unknown"))
            self.unknown_names.add(name)


def factors(es):
    """Variables that make the formulas nonlinear."""
    out, seen = {}, set()
    stack = list(es)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            k = e.decl().kind()
            kids = e.children()
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
                nz = [x for x in kids if not z3.is_rational_value(x) and not z3.is_int_value(x)]
                if len(nz) > 1 or (k == z3.Z3_OP_DIV and nz and nz[-1] is kids[-1]):
                    for x in nz[1:] or nz:
                        if z3.is_const(x):
                            out[x.get_id()] = x
            stack.extend(kids)
    return list(out.values())


def sample(pc, f):
    """Look for a counterexample with the nonlinear factors fixed to a few values."""
    vs = factors([*pc, f])
    if not vs:
        return None
    for v in ("3/2", "2", "1/2", "7/8", "10", "1/3", "100", "-1", "1"):
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*pc)
        s.add(z3.Not(f))
        s.add(*[x == z3.RealVal(v) for x in vs if x.sort() == z3.RealSort()])
        if s.check() == z3.sat:
            return z3.sat, s.model()
    return None


def retry(pc, f, timeout_ms):
    """Second attempt with other tactics."""
    for tac in ("qfnra-nlsat", "smt"):
        try:
            s = z3.Tactic(tac).solver()
            s.set("timeout", timeout_ms)
            s.add(*pc)
            s.add(z3.Not(f))
            r = s.check()
            if r == z3.unsat:
                return r, None
            if r == z3.sat:
                return r, s.model()
        except z3.Z3Exception:
            pass
    return None


# ---------------------------------------------------------------------------
# Symbolic values
# ---------------------------------------------------------------------------
class Sym:
    __slots__ = ()


_numerals = {}


def num(x):
    """Python number -> z3 Real expression (decimal literals as they are written)."""
    if type(x) is int:
        r = _numerals.get(x)
        if r is None:
            r = _numerals[x] = z3.RealVal(x)
        return r
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        if not math.isfinite(x):
            raise Unsupported("non-finite float in symbolic arithmetic")
        fr = Fraction(x)
        # decimal literals such as 0.65 are read as the decimal they were written as
        dec = Fraction(repr(x))
        fr = dec if fr != dec else fr
        return z3.RealVal(f"{fr.numerator}/{fr.denominator}")
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    raise Unsupported(f"not a number: {x!r}")


def isintflag(x):
    if isinstance(x, SymNum):
        return x.flag
    return isinstance(x, int)


class LazyAnd:
    __slots__ = ("a", "b", "z")

    def __init__(self, a, b):
        self.a, self.b, self.z = a, b, None

    def expr(self):
        if self.z is None:
            out, todo, seen = [], [self], set()
            while todo:
                x = todo.pop()
                if isinstance(x, LazyAnd):
                    if x.z is not None:
                        x = x.z
                    else:
                        todo += [x.a, x.b]
                        continue
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    out.append(x)
            self.z = z3.And(*out) if len(out) > 1 else out[0]
        return self.z


def fand(a, b):
    if a is b:
        return a
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return LazyAnd(a, b)


def tobool(c):
    if isinstance(c, SymBool):
        f = z3.simplify(c.e)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return c.e
    if isinstance(c, bool):
        return c
    if z3.is_expr(c):
        f = z3.simplify(c)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return c
    return bool(c)


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        p = cur()
        if p is None:
            raise Unsupported("symbolic boolean outside a path")
        return p.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, bool):
            return SymBool(self.e if o else z3.Not(self.e))
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, SymBool):
            return SymBool(z3.Not(r.e))
        return not r

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __and__(self, o):
        return and_(self, o)

    def __or__(self, o):
        return or_(self, o)

    def __hash__(self):
        raise Unsupported("a symbolic value used as a dictionary key or set member")

    def __repr__(self):
        return f"<bool {self.e}>"


def b(x):
    """To a z3 Bool"""
    if isinstance(x, SymBool):
        return x.e
    if z3.is_expr(x):
        return x
    return z3.BoolVal(builtins.bool(x))


def and_(*xs):
    ys = [tobool(x) for x in xs]
    if any(y is False for y in ys):
        return False
    ys = [y for y in ys if y is not True]
    if not ys:
        return True
    return SymBool(z3.And(*ys))


def or_(*xs):
    ys = [tobool(x) for x in xs]
    if any(y is True for y in ys):
        return True
    ys = [y for y in ys if y is not False]
    if not ys:
        return False
    return SymBool(z3.Or(*ys))


def not_(x):
    y = tobool(x)
    if isinstance(y, bool):
        return not y
    return SymBool(z3.Not(y))


def implies(a, c):
    return or_(not_(a), c)


def isnum(x):
    return isinstance(x, (int, float, Fraction, SymNum)) and not isinstance(x, bool) or isinstance(x, bool)


class SymNum(Sym):
    """A Python number: mathematical value plus whether it is an int."""

    __slots__ = ("e", "flag")

    def __init__(self, e, isint=False):
        self.e = e
        self.flag = isint

    @property
    def isint(self):
        f = self.flag
        return f.expr() if isinstance(f, LazyAnd) else f

    @staticmethod
    def of(x):
        if isinstance(x, SymNum):
            return x
        return SymNum(num(x), isinstance(x, int))

    def _bin(self, o, f, isint=None, rev=False):
        if not isinstance(o, (int, float, Fraction, SymNum)):
            return NotImplemented
        o = SymNum.of(o)
        x, y = (o, self) if rev else (self, o)
        fl = fand(x.flag, y.flag) if isint is None else isint
        return SymNum(f(x.e, y.e), fl)

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y)

    def __radd__(self, o):
        return self._bin(o, lambda x, y: x + y, rev=True)

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: x - y, rev=True)

    def __mul__(self, o):
        if isinstance(o, (SymNum,)) or isinstance(o, (int, float, Fraction)):
            return self._bin(o, lambda x, y: x * y)
        return NotImplemented

    def __rmul__(self, o):
        return self._bin(o, lambda x, y: x * y, rev=True)

    def __truediv__(self, o):
        if not isinstance(o, (int, float, Fraction, SymNum)):
            return NotImplemented
        return divide(self, SymNum.of(o))

    def __rtruediv__(self, o):
        if not isinstance(o, (int, float, Fraction, SymNum)):
            return NotImplemented
        return divide(SymNum.of(o), self)

    def __floordiv__(self, o):
        if not isinstance(o, (int, float, Fraction, SymNum)):
            return NotImplemented
        q = divide(self, SymNum.of(o))
        return SymNum(z3.ToReal(floor_int(q.e)), fand(self.flag, isintflag(o)))

    def __rfloordiv__(self, o):
        return SymNum.of(o).__floordiv__(self)

    def __mod__(self, o):
        if not isinstance(o, (int, float, Fraction, SymNum)):
            return NotImplemented
        o = SymNum.of(o)
        q = divide(self, o)
        return SymNum(
            self.e - o.e * z3.ToReal(floor_int(q.e)), fand(self.flag, o.flag)
        )

    def __rmod__(self, o):
        return SymNum.of(o).__mod__(self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = SymNum.of(1)
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("power")

    def __neg__(self):
        return SymNum(-self.e, self.flag)

    def __pos__(self):
        return self

    def __abs__(self):
        if cur().exact:
            return self if cur().branch(self.e >= 0) else -self
        return SymNum(z3.If(self.e >= 0, self.e, -self.e), self.flag)

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round to digits")
        return SymNum(z3.ToReal(round_half_even(self.e)), True)

    def __floor__(self):
        return SymNum(z3.ToReal(floor_int(self.e)), True)

    def __ceil__(self):
        return SymNum(-z3.ToReal(floor_int(-self.e)), True)

    def __trunc__(self):
        return trunc(self)

    def is_integer(self):
        return SymBool(self.e == z3.ToReal(floor_int(self.e)))

    def _cmp(self, o, f, eq=None):
        if not isinstance(o, (int, float, Fraction, SymNum)):
            return NotImplemented if eq is None else eq
        if isinstance(o, float) and not math.isfinite(o):
            if o != o:
                return False if eq is not True else True
            big = z3.RealVal(1) if o > 0 else z3.RealVal(-1)
            return SymBool(z3.simplify(f(z3.RealVal(0), big)))
        return SymBool(f(self.e, SymNum.of(o).e))

    def __eq__(self, o):
        return self._cmp(o, lambda x, y: x == y, eq=False)

    def __ne__(self, o):
        return self._cmp(o, lambda x, y: x != y, eq=True)

    def __lt__(self, o):
        return self._cmp(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._cmp(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: x >= y)

    def __bool__(self):
        return bool(SymBool(self.e != 0))

    def __hash__(self):
        raise Unsupported("a symbolic value used as a dictionary key or set member")

    def __index__(self):
        raise Unsupported("symbolic index")

    def __int__(self):
        raise Unsupported("native int() of a symbolic number")

    def __float__(self):
        raise Unsupported("native float() of a symbolic number")

    def __format__(self, spec):
        raise Unsupported("native format of a symbolic number")

    def __repr__(self):
        return f"<num {self.e}>"


def divide(x, y):
    yv = z3.simplify(y.e)
    if z3.is_rational_value(yv) or z3.is_int_value(yv):
        if yv.numerator_as_long() == 0:
            raise ZeroDivisionError("division by zero")
    else:
        if bool(SymBool(y.e == 0)):
            raise ZeroDivisionError("division by zero")
    return SymNum(x.e / y.e, False)


_ints = {}


def named_int(kind, e, define):
    """The integer that `define` describes: a name with its definition on the path (easier on
    the solver than int casts inside nonlinear terms)."""
    e = z3.simplify(e, som=True)
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return None, e
    k = whole(e)
    if k is not None:
        return k, e
    key = (kind, e.get_id())
    hit = _ints.get(key)
    if hit is None:
        k = z3.Int(f"{kind}!{len(_ints)}")
        hit = _ints[key] = (k, define(k, e), e)
    k, cons, _ = hit
    p = cur()
    if key not in p.defined:
        p.defined.add(key)
        for c in cons:
            p.add(c)
    return k, e


def whole(e):
    """The same value as an Int term, if it is evidently a whole number."""
    if z3.is_to_real(e):
        return e.arg(0)
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if z3.is_add(e) or z3.is_mul(e):
        ks = [whole(x) for x in e.children()]
        if all(k is not None for k in ks):
            return z3.Sum(*ks) if z3.is_add(e) else z3.Product(*ks)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, c = whole(e.arg(1)), whole(e.arg(2))
        if a is not None and c is not None:
            return z3.If(e.arg(0), a, c)
    return None


def numeral(e):
    return Fraction(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) else Fraction(e.as_long())


HALF = z3.RealVal("1/2")


def floor_int(e):
    if cur().exact:
        k = exact_floor(e)
        if k is not None:
            return k
    k, e = named_int("floor", e, lambda k, e: [z3.ToReal(k) <= e, e < z3.ToReal(k) + 1])
    return z3.IntVal(math.floor(numeral(e))) if k is None else k


def exact_floor(e):
    """Whole part + constant, where the path fixes the floor of the remaining part."""
    e = z3.simplify(e, som=True)
    ws, rest = [], []
    for x in e.children() if z3.is_add(e) else [e]:
        k = whole(x)
        ws.append(k) if k is not None else rest.append(x)
    if not rest:
        return None
    r = z3.Sum(*rest) if len(rest) > 1 else rest[0]
    p = cur()
    p.flush()
    s = p.solver
    if s.check() != z3.sat:
        return None
    try:
        c = math.floor(numeral(z3.simplify(s.model().eval(r, model_completion=True))))
    except Exception:
        return None
    s.push()
    s.add(z3.Not(z3.And(c <= r, r < c + 1)))
    ok = s.check() == z3.unsat
    s.pop()
    return z3.simplify(z3.Sum(*ws, z3.IntVal(c))) if ok else None


def rounded_goal(f):
    """f with every rounded value replaced by the value and an error of at most 1/2; true if the
    definitions of the rounded values alone prove it."""
    subs, cons = [], []
    for (kind, _), (k, _, e) in _ints.items():
        if kind == "round":
            t = z3.Real(f"err!{k}")
            subs.append((z3.ToReal(k), e + t))
            cons.append(z3.And(t >= -HALF, t <= HALF))
    g = z3.simplify(z3.substitute(f, *subs), som=True, arith_lhs=True)
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*cons)
    s.add(z3.Not(g))
    return s.check() == z3.unsat


def round_half_even(e):
    def define(k, e):
        r = z3.ToReal(k)
        return [r - HALF <= e, e <= r + HALF, z3.Implies(z3.Or(r - HALF == e, e == r + HALF), k % 2 == 0)]

    k, e = named_int("round", e, define)
    return z3.IntVal(round(numeral(e))) if k is None else k


def trunc(x):
    f = z3.ToReal(floor_int(x.e))
    return SymNum(z3.simplify(z3.If(z3.Or(x.e >= 0, x.e == f), f, f + 1)), True)


def ite(c, x, y):
    f = tobool(c)
    if f is True:
        return x
    if f is False:
        return y
    if isnum(x) and isnum(y):
        x, y = SymNum.of(x), SymNum.of(y)
        fl = x.flag if x.flag is y.flag else z3.If(f, zb(x.isint), zb(y.isint))
        return SymNum(z3.If(f, x.e, y.e), fl)
    return x if cur().branch(f) else y


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Opaque(Sym):
    """A value about which nothing is known but its identity."""

    __slots__ = ("name", "__dict__")

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported(f"comparison with {self.name}")

    def __ne__(self, o):
        return not self.__eq__(o)

    def __bool__(self):
        raise Unsupported(f"truth of {self.name}")

    __hash__ = object.__hash__

    def __repr__(self):
        return f"<opaque {self.name}>"


class Poison:
    """A loop-carried value the summary could not describe: any use is unsupported."""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _bad(self, *a, **k):
        raise Unsupported("use of a summarised value: " + object.__getattribute__(self, "_why"))

    def __getattribute__(self, name):
        if name in ("__class__", "_bad"):
            return object.__getattribute__(self, name)
        raise Unsupported(
            "use of a summarised value: " + object.__getattribute__(self, "_why")
        )

    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __bool__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __len__ = _bad
    __iter__ = __getitem__ = __setitem__ = __call__ = __contains__ = _bad
    __hash__ = _bad


class Lazy:
    """A field whose value is split into cases when it is first read."""

    def __init__(self, name, alternatives):
        self.name = name
        self.alternatives = alternatives  # thunks

    def resolve(self):
        i = cur().choose(len(self.alternatives), self.name)
        return self.alternatives[i]()


class Seg:
    """Zero or more list elements, each of which satisfies what `make` builds.

    make() returns a new arbitrary element of the segment.
    """

    def __init__(self, name, make, subset_of=None, maybe_empty=True):
        self.name = name
        self.make = make
        self.maybe_empty = maybe_empty
        self.root = self
        self.size_of = self  # the segment that has as many elements
        self.laid = False

    def vc_count(self):
        """The number of elements, on this path."""
        p = cur()
        key = ("count", id(self.size_of))
        if key not in p.memo:
            p.keep.append(self.size_of)
            n = p.memo[key] = SymNum(z3.ToReal(z3.Int(p.fresh("len"))), True)
            known = p.memo.get(("empty", id(self.size_of)))
            p.assume(n == 0 if known is True else n >= (1 if known is False or not self.maybe_empty else 0))
        return p.memo[key]

    def vc_decide(self, empty):
        """On this path the segment is empty, or is not."""
        p = cur()
        k = id(self.size_of)
        p.keep.append(self.size_of)
        if p.memo.get(("empty", k), empty) is not empty:
            raise Pruned()
        p.memo[("empty", k)] = empty
        if ("count", k) in p.memo:
            n = p.memo[("count", k)]
            p.assume(n == 0 if empty else n >= 1)
            if not p.feasible():
                raise Pruned()

    def __repr__(self):
        return f"<segment {self.name}>"


class VCList(list):
    """A list some of whose elements are segments."""

    def __bool__(self):
        items = raw(self)
        if any(not isinstance(x, Seg) or not x.maybe_empty for x in items):
            return True
        if not items:
            return False
        p = cur()
        p.abstract = True
        # which segment is the first that is not empty (the last case: none)
        i = p.choose(len(items) + 1)
        for x in items[:i]:
            x.vc_decide(True)
        if i == len(items):
            list.clear(self)
            return False
        s = items[i]
        s.vc_decide(False)
        n = Seg(s.name, s.make, maybe_empty=False)
        n.__dict__.update({k: v for k, v in s.__dict__.items() if k != "maybe_empty"})
        list.__setitem__(self, slice(None), [n] + items[i + 1 :])
        return True

    def __eq__(self, o):
        if has_seg(self) or has_seg(o):
            raise Unsupported("comparison of a list with segments")
        return list.__eq__(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __iter__(self):
        if cur() is not None and any(isinstance(x, Seg) for x in list.__iter__(self)):
            raise Unsupported("native iteration over a list with segments")
        return list.__iter__(self)


def raw(xs):
    return [list.__getitem__(xs, i) for i in range(len_(xs))]


def len_(xs):
    return list.__len__(xs)


def has_seg(x):
    return type(x) in (list, VCList) and any(isinstance(y, Seg) for y in raw(x))
