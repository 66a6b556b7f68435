"""Contracts, and the three ways of running them.

A contract is a function  f(mk, lib)  that builds inputs with ``mk``, calls the
real code through ``lib`` and states its postconditions with ``mk.ensure``.

* symbolic   every path of the instrumented code, every obligation proved by z3
             (this is what decides the property);
* model      the same contract on the untouched code in CPython, with the inputs
             of a z3 counterexample (replay of a failed obligation);
* random     the same contract on the untouched code with random inputs
             (bounded stand-in where a proof is incomplete; search for a failing
             input where a counterexample does not replay).
"""

import importlib
import inspect
import json
import os
import random
import sys
import time
import traceback

import z3

from . import engine as E
from . import hooks as H
from . import instrument
from . import strings as S
from .engine import SymBool, SymNum

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Missing(Exception):
    """A function under contract is not there under that name."""


class Discard(Exception):
    """Inputs outside the precondition (native modes)."""


class ContractFailure(Exception):
    def __init__(self, name, detail):
        super().__init__(f"{name}: {detail}")
        self.name = name
        self.detail = detail


_installed = False
_num_cache = {}
_px_cache = {}
_ZERO = z3.RealVal(0)


def setup():
    global _installed
    if not _installed:
        sys.dont_write_bytecode = True
        instrument.install(H.HOOKS)
        _installed = True


class Lib:
    def __init__(self, package):
        setup()
        self.package = package
        self._mods = {}

    def mod(self, name):
        if name not in self._mods:
            try:
                self._mods[name] = importlib.import_module(f"{self.package}.{name}")
            except ModuleNotFoundError as e:
                raise Missing(f"module {name}: {e}")
        return self._mods[name]

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return self.mod(name)

    def get(self, path):
        m, _, rest = path.partition(".")
        o = self.mod(m)
        for part in rest.split("."):
            try:
                o = inspect.getattr_static(o, part) if isinstance(o, type) else getattr(o, part)
            except AttributeError:
                raise Missing(path)
        return o


_libs = {}


def twin():
    if "t" not in _libs:
        _libs["t"] = Lib(instrument.TWIN)
    return _libs["t"]


def native():
    if "n" not in _libs:
        _libs["n"] = Lib("colosseum")
    return _libs["n"]


def pristine():
    """The package loaded afresh: no state of earlier calls."""
    mine = {k: v for k, v in sys.modules.items() if k == "colosseum" or k.startswith("colosseum.")}
    for k in mine:
        del sys.modules[k]
    try:
        lib = Lib("colosseum")
        for m in ("constants", "units", "declaration", "dimensions", "engine"):
            lib.mod(m)
        return lib
    finally:
        for k in [k for k in sys.modules if k == "colosseum" or k.startswith("colosseum.")]:
            del sys.modules[k]
        sys.modules.update(mine)


# ---------------------------------------------------------------------------
class Base:
    via = None
    and_ = staticmethod(E.and_)
    or_ = staticmethod(E.or_)
    not_ = staticmethod(E.not_)
    implies = staticmethod(E.implies)

    def all(self, xs):
        return E.and_(*list(xs))

    def max(self, a, b):
        return self.ite(self.ge(a, b), a, b)

    def min(self, a, b):
        return self.ite(self.ge(b, a), a, b)

    def ge(self, a, b):
        return a >= b


class SymMk(Base):
    symbolic = True
    contracts = frozenset()
    inline = frozenset()  # functions whose contract does not hold: use their bodies

    def __init__(self, ex, lib):
        self.ex = ex
        self.lib = lib
        self.patched = []
        self.units = {}

    @property
    def path(self):
        return E.cur()

    # -- inputs -----------------------------------------------------------
    def num(self, name, kind="num", lo=None, hi=None, lt=None, gt=None):
        p = E.cur()
        v = p.fresh(name)
        key = (v, kind, lo, hi, lt, gt)
        hit = _num_cache.get(key)
        if hit is None:
            cons = []
            if kind == "int":
                x = SymNum(z3.ToReal(z3.Int(v)), True)
            elif kind == "px":
                k = z3.Int(v)
                x = SymNum(z3.ToReal(k) / 64, k % 64 == 0)
            elif kind == "float":
                x = SymNum(z3.Real(v), False)
            else:
                r, f = z3.Real(v), z3.Bool(v + "$isint")
                x = SymNum(r, f)
                cons.append(z3.Implies(f, r == z3.ToReal(z3.Int(v + "$int"))))
            if lo is not None:
                cons.append((x >= lo).e)
            if hi is not None:
                cons.append((x <= hi).e)
            if lt is not None:
                cons.append((x < lt).e)
            if gt is not None:
                cons.append((x > gt).e)
            hit = _num_cache[key] = (x, cons)
        x, cons = hit
        p.nums[v] = x
        for c in cons:
            p.add(c)
        return x

    def choice(self, name, options):
        p = E.cur()
        v = p.fresh(name)
        i = p.choose(len(options), v)
        o = options[i]
        return o() if callable(o) and getattr(o, "__name__", "") == "<lambda>" else o

    def any(self, name, options):
        """Any value at all; natively one of the options."""
        return E.Opaque(E.cur().fresh(name))

    def irrelevant(self, name):
        """A length the property does not depend on: any use of its size is unsupported."""
        return poison_unit(self.lib)(E.cur().fresh(name), None, self)

    def lazy(self, name, options):
        v = E.cur().fresh(name)

        def thunk(o):
            return lambda: o() if callable(o) and getattr(o, "__name__", "") == "<lambda>" else o

        return E.Lazy(v, [thunk(o) for o in options])

    def bool(self, name):
        p = E.cur()
        v = p.fresh(name)
        x = SymBool(z3.Bool(v))
        return x

    def string(self, name, **k):
        return S.fresh(name, **k)

    def unit(self, name, lo=None):
        """An arbitrary length: only its pixel value for a given context is known."""
        v = E.cur().fresh(name)
        return abs_unit(self.lib)(v, lo, self)

    # -- logic --------------------------------------------------------------
    def assume(self, c):
        E.cur().assume(c)

    def ensure(self, name, cond, detail=None):
        self.ex.ensure(name, cond, detail)

    def eq(self, a, b):
        if a is b:
            return True
        if E.isnum(a) and E.isnum(b):
            r = SymNum.of(a) == SymNum.of(b) if isinstance(a, SymNum) or isinstance(b, SymNum) else a == b
            return r
        return a is b or (type(a) == type(b) and a == b)

    def ite(self, c, x, y):
        return E.ite(c, x, y)

    def known(self, c):
        """Decide c by splitting the path (spec-level case split)."""
        return bool(c)

    def call(self, f, *a, **k):
        """Call the code under contract: ('ok', value) or ('raise', exception)."""
        try:
            return "ok", f(*a, **k)
        except E.VCControl:
            raise
        except RecursionError:
            raise E.Unsupported("recursion limit")
        except Exception as e:
            return "raise", e

    def note(self, text):
        E.cur().notes.append(text)

    def track(self, **objs):
        E.cur().tracked.update(objs)

    def stub(self, path, fn, params=None):
        """Use the callee's contract instead of its body (skipped, i.e. inlined, if
        the function is not there under that name with those parameters)."""
        if path in self.inline:
            return False
        m, _, name = path.partition(".")
        mod = self.lib.mod(m)
        if "." in name:
            c, _, name = name.partition(".")
            mod = mod.__dict__.get(c)
            if not isinstance(mod, type):
                return False
        real = mod.__dict__.get(name)
        if real is None or not inspect.isfunction(real):
            return False
        if params is not None:
            try:
                sig = list(inspect.signature(real).parameters)
            except (TypeError, ValueError):
                return False
            if sig != list(params):
                return False

        def wrapper(*a, **k):
            self.ex.stubs_used[path] = self.ex.stubs_used.get(path, 0) + 1
            E.cur().abstract = True
            if params is not None:
                ba = inspect.signature(real).bind(*a, **k)
                return fn(**ba.arguments)
            return fn(*a, **k)

        wrapper.__name__ = name
        self.patched.append((mod, name, real))
        setattr(mod, name, wrapper)
        return True

    def exact(self):
        """Decide signs and floors while running (for polynomial goals)."""
        self.path.exact = True

    def patch(self, obj, name, value):
        """Put a stand-in in place of a class attribute (until the end of the path)."""
        self.patched.append((obj, name, obj.__dict__[name]))
        setattr(obj, name, value)

    def unstub(self):
        for mod, name, real in reversed(self.patched):
            setattr(mod, name, real)
        self.patched = []


_abs_units = {}


def abs_unit(lib):
    if lib.package in _abs_units:
        return _abs_units[lib.package]
    Unit = lib.get("units.Unit")

    class AbsUnit(Unit):
        """Contract of a length (proved in C14): px is a function of the unit and of the
        context it is given; a number."""

        def __init__(self, name, lo, mk):
            d = self.__dict__
            d["vc_name"], d["vc_lo"], d["vc_mk"] = name, lo, mk
            d["vc_zero"] = False

        def __getattribute__(self, n):
            if n in ("val", "suffix", "scale", "lu", "dup"):
                raise E.Unsupported(f"unit.{n} of an arbitrary unit")
            return object.__getattribute__(self, n)

        def px(self, display=None, font=None, size=None):
            p = E.cur()
            dn = name_of(display)
            fn = name_of(font)
            if size is None:
                arg = _ZERO
            elif E.isnum(size):
                arg = SymNum.of(size).e
            else:
                raise TypeError(f"unsupported size {size!r}")
            key = (self.vc_name, dn, fn, arg.get_id(), self.vc_lo)
            hit = _px_cache.get(key)
            if hit is None:
                f = z3.Function(
                    f"PX_{self.vc_name}_{dn}_{fn}", z3.RealSort(), z3.IntSort()
                )
                k = f(arg)
                r = SymNum(z3.ToReal(k) / 64, k % 64 == 0)
                con = None if self.vc_lo is None else (r >= self.vc_lo).e
                hit = _px_cache[key] = (r, con, SymNum(arg, False))
            r, con, a = hit
            if con is not None:
                p.add(con)
            p.pxlog.append((self.vc_name, a, r))
            return r

        def __eq__(self, o):
            if self is o:
                return True
            if isinstance(o, AbsUnit):
                return SymBool(z3.Bool("EQ " + " ".join(sorted((self.vc_name, o.vc_name)))))
            if isinstance(o, Unit):
                # an ordinary length, such as an initial value
                v = o.val.e if isinstance(o.val, SymNum) else E.num(o.val)
                return SymBool(z3.Function("EQ " + self.vc_name + " " + o.suffix, z3.RealSort(), z3.BoolSort())(v))
            return False

        def __ne__(self, o):
            return E.not_(self.__eq__(o))

        def __repr__(self):
            return f"<unit {self.vc_name}>"

        def vc_str(self):
            return f"<unit {self.vc_name}>"

        vc_repr = vc_str
        __hash__ = object.__hash__

    _abs_units[lib.package] = AbsUnit
    return AbsUnit


_poison_units = {}


def poison_unit(lib):
    if lib.package not in _poison_units:

        class PoisonUnit(abs_unit(lib)):
            def px(self, display=None, font=None, size=None):
                return E.Poison(self.vc_name)

        _poison_units[lib.package] = PoisonUnit
    return _poison_units[lib.package]


def name_of(o):
    for k, v in E.cur().tracked.items():
        if v is o:
            return k
    return "none" if o is None else type(o).__name__


# ---------------------------------------------------------------------------
class NativeMk(Base):
    """Concrete inputs: from a model, or random."""

    symbolic = False
    contracts = frozenset()

    def __init__(self, lib, rng=None, failure=None):
        self.lib = lib
        self.rng = rng
        self.f = failure
        self.counter = {}
        self.used = {}
        self.checked = []
        self.tol = 1e-6

    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else f"{name}!{n}"

    def num(self, name, kind="num", lo=None, hi=None, lt=None, gt=None):
        v = self.fresh(name)
        if self.f is not None and v in self.f.nums:
            x = self.f.nums[v]
        else:
            r = self.rng
            for _ in range(50):
                m = r.random()
                if m < 0.25:
                    x = r.choice([0, 1, 2, 3, 5, 10, 50, 100, 300])
                elif m < 0.75 or kind == "int":
                    x = r.randint(-60, 400) if r.random() < 0.5 else r.randint(0, 60)
                elif kind == "px":
                    x = r.randint(-640, 12800) / 64
                    x = int(x) if x == int(x) else x
                else:
                    x = r.choice([r.uniform(0, 1), r.uniform(-50, 400), float(r.randint(0, 300))])
                if kind == "float":
                    x = float(x)
                if (
                    (lo is None or x >= lo)
                    and (hi is None or x <= hi)
                    and (lt is None or x < lt)
                    and (gt is None or x > gt)
                ):
                    break
            else:
                a = lo if lo is not None else (gt if gt is not None else -100)
                bb = hi if hi is not None else (lt if lt is not None else a + 500)
                x = r.randint(int(a), int(bb)) if kind == "int" else r.uniform(a, bb)
        for ok in (
            lo is None or x >= lo,
            hi is None or x <= hi,
            lt is None or x < lt,
            gt is None or x > gt,
        ):
            if not ok:
                raise Discard()
        self.used[v] = x
        return x

    def choice(self, name, options):
        v = self.fresh(name)
        if self.f is not None and v in self.f.choices:
            i = self.f.choices[v]
        else:
            i = self.rng.randrange(len(options))
        self.used[v] = i
        o = options[i]
        return o() if callable(o) and getattr(o, "__name__", "") == "<lambda>" else o

    lazy = choice
    any = choice

    def irrelevant(self, name):
        return self.unit(name, lo=0)

    def bool(self, name):
        return bool(self.rng.random() < 0.5)

    def string(self, name, gen=None, **k):
        v = self.fresh(name)
        if self.f is not None and v in self.f.strs:
            x = self.f.strs[v]
        else:
            x = gen(self.rng) if gen else S.random_text(self.rng)
        self.used[v] = x
        return x

    def unit(self, name, lo=None):
        v = self.fresh(name)
        units = self.lib.mod("units")
        if self.f is not None:
            ev = [(s, r) for n, s, r in self.f.px if n == v]
            if ev:
                vals = {r for _, r in ev}
                if len(vals) == 1:
                    u = vals.pop() * units.px
                else:
                    s, r = next(((s, r) for s, r in ev if s), ev[0])
                    u = (100.0 * r / s if s else 10) * units.percent
                self.used[v] = repr(u)
                return u
        r = self.rng
        m = r.random()
        n = r.choice([1, 2, 5, 7, 10, 20, 33, 50, 80, 100, 150, 2.5, 0.5, 12.25])
        if lo is None and r.random() < 0.15:
            n = -n
        if m < 0.6:
            u = n * units.px
        elif m < 0.9:
            u = n * units.percent
        else:
            u = n * r.choice([units.pt, units.vw, units.vh])
        self.used[v] = repr(u)
        return u

    # -- logic -----------------------------------------------------------------
    def assume(self, c):
        if not c:
            raise Discard()

    def ensure(self, name, cond, detail=None):
        self.checked.append(name)
        if not cond:
            raise ContractFailure(name, detail)

    def eq(self, a, b):
        if E.isnum(a) and E.isnum(b):
            if a == b:
                return True
            try:
                return abs(a - b) <= self.tol * (1 + abs(a) + abs(b))
            except OverflowError:
                return False
        return a is b or (type(a) == type(b) and a == b)

    def ite(self, c, x, y):
        return x if c else y

    def known(self, c):
        return bool(c)

    def call(self, f, *a, **k):
        try:
            return "ok", f(*a, **k)
        except Exception as e:
            return "raise", e

    def note(self, text):
        pass

    def track(self, **objs):
        pass

    def exact(self):
        pass

    def stub(self, *a, **k):
        return False

    def unstub(self):
        pass


# ---------------------------------------------------------------------------
class Contract:
    def __init__(
        self,
        name,
        fn,
        functions,
        native_ok=True,
        max_seconds=240,
        max_paths=60000,
        timeout_ms=20000,
        runs=300,
        assumptions=(),
        tier="quick",
        weight=1,
    ):
        self.name = name
        self.fn = fn
        self.functions = functions
        self.native_ok = native_ok
        self.max_seconds = max_seconds
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.runs = runs
        self.assumptions = list(assumptions)
        self.tier = tier
        self.weight = weight


def prove(c, collect_smt2=False, inline=()):
    """Symbolic run.  Returns a plain dict (crosses process boundaries)."""
    t0 = time.time()
    out = {
        "contract": c.name,
        "functions": c.functions,
        "complete": False,
        "obligations": 0,
        "discharged": 0,
        "paths": 0,
        "failures": [],
        "unknown": [],
        "unsupported": [],
        "by_name": {},
        "solver_s": 0.0,
        "stubs": {},
    }
    ex = E.Explorer(timeout_ms=c.timeout_ms, max_paths=c.max_paths, max_seconds=c.max_seconds)
    if collect_smt2:
        ex.smt2 = []
    try:
        lib = twin()
        mk = SymMk(ex, lib)
        mk.inline = frozenset(inline)

        def body():
            try:
                c.fn(mk, lib)
            finally:
                mk.unstub()

        out["complete"] = ex.explore(body)
    except Missing as e:
        out["unsupported"].append(f"function under contract not found: {e}")
    except E.VCControl as e:
        out["unsupported"].append(f"{type(e).__name__}: {e}")
    except RecursionError:
        out["unsupported"].append("recursion limit")
    except Exception as e:
        out["unsupported"].append(
            "contract did not run: " + "".join(traceback.format_exception(e))[-1500:]
        )
    out["obligations"] = ex.obligations
    out["discharged"] = ex.discharged
    out["trivial"] = ex.trivial
    out["paths"] = ex.paths
    out["pruned"] = ex.pruned
    out["by_name"] = {k: list(v) for k, v in ex.by_name.items()}
    out["unsupported"] += ex.unsupported
    out["solver_s"] = round(ex.solver_s, 3)
    out["checks"] = ex.checks
    out["stubs"] = ex.stubs_used
    out["samples"] = ex.samples[:2]
    out["wall_s"] = round(time.time() - t0, 3)
    seen = set()
    for f in ex.failures:
        if len(out["failures"]) >= 40:
            break
        key = (f.name, json.dumps(f.choices, sort_keys=True, default=str))
        if key in seen:
            continue
        seen.add(key)
        out["failures"].append(f.__dict__)
    out["unknown"] = sorted({f.name for f in ex.unknown})
    out["n_failures"] = len(ex.failures)
    if collect_smt2:
        out["smt2"] = ex.smt2
    if out["complete"] and ex.obligations == 0:
        out["complete"] = False
        out["unsupported"].append("no obligation was generated (vacuous)")
    return out


class _F:
    pass


def run_native(c, rng=None, failure=None):
    """One native run: None (held), 'discard', or (obligation, detail, inputs)."""
    f = None
    if failure is not None:
        f = _F()
        f.__dict__.update(failure)
    lib = native()
    mk = NativeMk(lib, rng, f)
    try:
        c.fn(mk, lib)
    except Discard:
        return "discard"
    except ContractFailure as e:
        return (e.name, e.detail, mk.used)
    except Missing:
        return "discard"
    if not mk.checked:
        return "discard"
    return None


def replay(c, failure, seed=1):
    try:
        return run_native(c, random.Random(seed), failure)
    except Exception:
        return "discard"


def search(c, seed, runs, seconds):
    """Bounded random runs of the contract on the untouched code."""
    t0 = time.time()
    rng = random.Random(f"{seed}/{c.name}")
    n = ok = 0
    distinct = set()
    sample = None
    err = None
    while n < runs and time.time() - t0 < seconds:
        n += 1
        state = rng.getrandbits(64)
        try:
            r = run_native(c, random.Random(state))
        except Exception as e:  # the contract itself failed to run natively
            err = "".join(traceback.format_exception(e))[-1500:]
            break
        if r == "discard":
            continue
        ok += 1
        if r is None:
            continue
        return {"runs": n, "accepted": ok, "failure": {"obligation": r[0], "detail": str(r[1]), "inputs": r[2], "rng": state}}
    return {"runs": n, "accepted": ok, "failure": None, "error": err}
