"""Mechanical extraction of the code under verification.

On every run each module of /repo/src/colosseum is parsed from the working
tree, rewritten by the syntax-directed rules below, and executed as the package
``colosseum_vc``.  The rewriting never drops a statement: it only routes the
operations that CPython does not let an object overload (identity, membership,
calls of builtins, f-strings, iteration, attribute loads) through ``__vc__``,
whose behaviour on ordinary values is exactly the native one.

  a is b / a is not b / a in b / a not in b -> __vc__.is_/is_not/in_/not_in
  f(...)                                    -> __vc__.call(f, ...)      (not super())
  obj.attr (load)                           -> __vc__.attr(obj, "attr") (private names mangled)
  x[i] (load)                               -> __vc__.getitem(x, i)
  [a, b] in a function                      -> __vc__.lst([a, b])      (a list that may hold summarised segments)
  f"..."                                    -> __vc__.fstr(...)
  for t in it: ...                          -> loop object, with getters/setters for the names
                                               the body assigns (used for havoc at summarised segments)
  [e for t in it if c] and friends          -> __vc__.comp(kind, it, lambda t: e, lambda t: c)
                                               (single generator, simple target; others only guard `it`)
  obj.attr = v / obj.attr op= v             -> __vc__.store / __vc__.aug (write log; then the native operation)
  except:                                   -> except Exception:
"""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SRC = os.environ.get("VC_SRC", "/repo/src")
TWIN = "colosseum_vc"


def vc(name):
    return ast.Attribute(
        value=ast.Name(id="__vc__", ctx=ast.Load()), attr=name, ctx=ast.Load()
    )


def vcall(name, *args):
    return ast.Call(func=vc(name), args=list(args), keywords=[])


class _Names(ast.NodeVisitor):
    """Names assigned by a loop body, and whether the loop can be left early."""

    def __init__(self):
        self.assigned = []
        self.exits = False
        self.depth = 0
        self.reads = []

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            if node.id not in self.assigned:
                self.assigned.append(node.id)
        elif node.id not in self.reads:
            self.reads.append(node.id)

    def visit_FunctionDef(self, node):
        self.assigned.append(node.name)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, node):
        pass

    def _comp(self, node):
        # Comprehension targets are local to the comprehension
        sub = _Names()
        for child in ast.iter_child_nodes(node):
            sub.visit(child)
        for n in sub.reads:
            if n not in self.reads:
                self.reads.append(n)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Return(self, node):
        self.exits = True
        self.generic_visit(node)

    def visit_Yield(self, node):
        self.exits = True
        self.generic_visit(node)

    def visit_Break(self, node):
        if self.depth == 0:
            self.exits = True

    def visit_For(self, node):
        self.visit(node.target)
        self.visit(node.iter)
        self.depth += 1
        for s in node.body:
            self.visit(s)
        self.depth -= 1
        for s in node.orelse:
            self.visit(s)

    def visit_While(self, node):
        self.visit(node.test)
        self.depth += 1
        for s in node.body:
            self.visit(s)
        self.depth -= 1
        for s in node.orelse:
            self.visit(s)


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.cls = []
        self.scopes = []  # 'f' / 'c'
        self.globals = [set()]
        self.nonlocals = [[]]
        self.n = 0
        self.loads = []

    # -- scopes ---------------------------------------------------------
    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        self.cls.append(node.name)
        self.scopes.append("c")
        node.body = self._body(node.body)
        self.scopes.pop()
        self.cls.pop()
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_FunctionDef(self, node):
        node.decorator_list = [
            # property/.setter decorators stay native
            d if isinstance(d, (ast.Name, ast.Attribute)) else self.visit(d)
            for d in node.decorator_list
        ]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d else None for d in a.kw_defaults]
        loads = {}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
                loads.setdefault(x.id, []).append(getattr(x, "lineno", 0))
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                loads.setdefault(x.target.id, []).append(x.lineno)
        declared = {n for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        declared |= {y.id for x in ast.walk(node) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not node for y in ast.walk(x) if isinstance(y, ast.Name)}
        self.loads.append((loads, declared))
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg:
            params.add(a.vararg.arg)
        if a.kwarg:
            params.add(a.kwarg.arg)
        glob = {
            n for s in ast.walk(node) if isinstance(s, ast.Global) for n in s.names
        }
        nl = sorted(
            {
                n
                for f in ast.walk(node)
                if f is not node and isinstance(f, ast.FunctionDef)
                for s in ast.walk(f)
                if isinstance(s, ast.Nonlocal)
                for n in s.names
            }
        )
        self.scopes.append("f")
        self.globals.append(glob)
        self.nonlocals.append(nl)
        node.body = self._body(node.body)
        self.nonlocals.pop()
        self.globals.pop()
        self.scopes.pop()
        self.loads.pop()
        return node

    def visit_Lambda(self, node):
        self.scopes.append("f")
        self.globals.append(set())
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.body = self.visit(node.body)
        self.globals.pop()
        self.scopes.pop()
        return node

    # -- expressions ----------------------------------------------------
    def visit_Compare(self, node):
        self.generic_visit(node)
        special = (ast.Is, ast.IsNot, ast.In, ast.NotIn)
        if not any(isinstance(op, special) for op in node.ops):
            return node
        if len(node.ops) == 1:
            name = {
                ast.Is: "is_",
                ast.IsNot: "is_not",
                ast.In: "in_",
                ast.NotIn: "not_in",
            }[type(node.ops[0])]
            return vcall(name, node.left, node.comparators[0])
        return node  # a chain mixing identity tests: left native

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in (
            "super",
            "locals",
            "globals",
            "vars",
        ):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.Call(
            func=vc("call"), args=[node.func] + node.args, keywords=node.keywords
        )

    def _mangle(self, attr):
        if self.cls and attr.startswith("__") and not attr.endswith("__"):
            c = self.cls[-1].lstrip("_")
            if c:
                return f"_{c}{attr}"
        return attr

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return vcall("attr", node.value, ast.Constant(self._mangle(node.attr)))
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(None)
                sl = ast.Call(
                    func=vc("slice"),
                    args=[sl.lower or none, sl.upper or none, sl.step or none],
                    keywords=[],
                )
            elif isinstance(sl, ast.Tuple) and any(
                isinstance(e, ast.Slice) for e in sl.elts
            ):
                return node
            return vcall("getitem", node.value, sl)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                if spec is not None:
                    spec = self.visit(spec)
                parts.append(
                    ast.Tuple(
                        elts=[
                            self.visit(v.value),
                            ast.Constant(v.conversion),
                            spec or ast.Constant(""),
                        ],
                        ctx=ast.Load(),
                    )
                )
        return vcall("fstr", *parts)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return vcall("mod", node.left, node.right)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.scopes and self.scopes[-1] == "f":
            return vcall("lst", node)
        return node

    # -- comprehensions ---------------------------------------------------
    def _comp(self, node, kind):
        if len(node.generators) == 1 and not node.generators[0].is_async:
            g = node.generators[0]
            names = None
            if isinstance(g.target, ast.Name):
                names = [g.target.id]
            elif isinstance(g.target, ast.Tuple) and all(
                isinstance(e, ast.Name) for e in g.target.elts
            ):
                names = [e.id for e in g.target.elts]
            walrus = any(isinstance(n, ast.NamedExpr) for n in ast.walk(node))
            in_class = self.scopes and self.scopes[-1] == "c"
            if names and not walrus and not in_class:
                it = self.visit(g.iter)

                def lam(body):
                    self.scopes.append("f")
                    self.globals.append(set())
                    b = self.visit(body)
                    self.scopes.pop()
                    self.globals.pop()
                    return ast.Lambda(
                        args=ast.arguments(
                            posonlyargs=[],
                            args=[ast.arg(arg=n) for n in names],
                            kwonlyargs=[],
                            kw_defaults=[],
                            defaults=[],
                        ),
                        body=b,
                    )

                if kind == "dict":
                    elt = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
                else:
                    elt = node.elt
                e = lam(elt)
                if g.ifs:
                    test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(
                        op=ast.And(), values=g.ifs
                    )
                    c = lam(test)
                else:
                    c = ast.Constant(None)
                self.n += 1
                return vcall(
                    "comp",
                    ast.Constant(kind),
                    ast.Constant(f"{self.modname}:{node.lineno}:{self.n}"),
                    ast.Constant(len(names)),
                    it,
                    e,
                    c,
                )
        self.generic_visit(node)
        for g in node.generators:
            g.iter = vcall("plain", g.iter)
        return node

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    # -- statements -------------------------------------------------------
    def _temporaries(self, loop):
        """Names that every iteration assigns before it reads them, and nothing else reads."""
        if not self.loads or not self.scopes or self.scopes[-1] != "f":
            return set()
        loads, declared = self.loads[-1]
        inside = range(loop.body[0].lineno, loop.body[-1].end_lineno + 1)
        out, seen = set(), set()
        for st in loop.body:
            reads = {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)}
            reads |= {x.target.id for x in ast.walk(st) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                t = st.targets[0]
                for x in [t] if isinstance(t, ast.Name) else t.elts if isinstance(t, ast.Tuple) else []:
                    if isinstance(x, ast.Name) and x.id not in seen | reads | declared:
                        if all(line in inside for line in loads.get(x.id, ())):
                            out.add(x.id)
            seen |= reads
        return out

    def visit_For(self, node):
        info = _Names()
        for s in node.body:
            info.visit(s)
        tgt = _Names()
        tgt.visit(node.target)
        # names assigned by the body, or by a nested function it may call
        assigned = info.assigned + [
            n for n in self.nonlocals[-1] if n not in info.assigned
        ]
        temps = self._temporaries(node)
        carried = [n for n in assigned if n not in tgt.assigned and n not in temps]
        reads = [
            n for n in info.reads if n not in carried and n not in tgt.assigned and n not in temps
        ]
        in_func = bool(self.scopes) and self.scopes[-1] == "f"
        glob = self.globals[-1] if in_func else set()
        self.n += 1
        uid = self.n
        loop_id = f"{self.modname}:{node.lineno}:{uid}"
        node.iter = self.visit(node.iter)
        node.target = self.visit(node.target)
        node.body = self._body(node.body)
        node.orelse = self._body(node.orelse)
        pre = []
        getters, setters = [], []
        if in_func:
            for n in carried:
                fn = f"__vc_set_{uid}_{n}"
                scope = ast.Global(names=[n]) if n in glob else ast.Nonlocal(names=[n])
                pre.append(
                    ast.FunctionDef(
                        name=fn,
                        args=ast.arguments(
                            posonlyargs=[],
                            args=[ast.arg(arg="__vc_v")],
                            kwonlyargs=[],
                            kw_defaults=[],
                            defaults=[],
                        ),
                        body=[
                            scope,
                            ast.Assign(
                                targets=[ast.Name(id=n, ctx=ast.Store())],
                                value=ast.Name(id="__vc_v", ctx=ast.Load()),
                            ),
                        ],
                        decorator_list=[],
                    )
                )
                setters.append(ast.Name(id=fn, ctx=ast.Load()))
            noargs = ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]
            )
            for n in carried + reads:
                getters.append(
                    ast.Lambda(args=noargs, body=ast.Name(id=n, ctx=ast.Load()))
                )
        h = f"__vc_loop_{uid}"
        begin = ast.Assign(
            targets=[ast.Name(id=h, ctx=ast.Store())],
            value=vcall(
                "loop",
                node.iter,
                ast.Constant(loop_id),
                ast.Constant(tuple(carried)),
                ast.Constant(tuple(reads)),
                ast.Tuple(elts=getters, ctx=ast.Load()),
                ast.Tuple(elts=setters, ctx=ast.Load()),
                ast.Constant(bool(info.exits)),
                ast.Constant(in_func),
            ),
        )
        node.iter = ast.Name(id=h, ctx=ast.Load())
        tail = ast.Try(
            body=[node],
            handlers=[],
            orelse=[],
            finalbody=[
                ast.Expr(
                    ast.Call(
                        func=ast.Attribute(
                            value=ast.Name(id=h, ctx=ast.Load()),
                            attr="done",
                            ctx=ast.Load(),
                        ),
                        args=[],
                        keywords=[],
                    )
                )
            ],
        )
        return pre + [begin, tail]

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute):
            t = node.targets[0]
            # CPython evaluates the value before the target's object
            return ast.Expr(
                vcall("store", node.value, t.value, ast.Constant(self._mangle(t.attr)))
            )
        return node

    def visit_AugAssign(self, node):
        native = any(
            isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await))
            for n in ast.walk(node.value)
        )
        self.generic_visit(node)
        if isinstance(node.target, ast.Attribute) and not native:
            t = node.target
            noargs = ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]
            )
            return ast.Expr(
                vcall(
                    "aug",
                    t.value,
                    ast.Constant(self._mangle(t.attr)),
                    ast.Constant(type(node.op).__name__),
                    ast.Lambda(args=noargs, body=node.value),
                )
            )
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name(id="Exception", ctx=ast.Load())
        return node


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, hooks, package=TWIN, src=SRC):
        self.hooks = hooks
        self.package = package
        self.src = os.path.join(src, "colosseum")

    def find_spec(self, name, path=None, target=None):
        if name == self.package:
            fn = os.path.join(self.src, "__init__.py")
            return importlib.util.spec_from_file_location(
                name, fn, loader=self, submodule_search_locations=[self.src]
            )
        if name.startswith(self.package + "."):
            rel = name[len(self.package) + 1 :].replace(".", "/")
            fn = os.path.join(self.src, rel + ".py")
            if os.path.exists(fn):
                return importlib.util.spec_from_file_location(name, fn, loader=self)
            d = os.path.join(self.src, rel, "__init__.py")
            if os.path.exists(d):
                return importlib.util.spec_from_file_location(
                    name,
                    d,
                    loader=self,
                    submodule_search_locations=[os.path.dirname(d)],
                )
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn) as f:
            text = f.read()
        tree = ast.parse(text, fn)
        new = Transform(module.__name__.replace(self.package, "colosseum")).visit(tree)
        new = ast.Module(
            body=[s for s in (new.body if isinstance(new, ast.Module) else new)],
            type_ignores=[],
        )
        ast.fix_missing_locations(new)
        module.__dict__["__vc__"] = self.hooks
        exec(compile(new, fn, "exec"), module.__dict__)


class NativeFinder(importlib.abc.MetaPathFinder):
    """The untouched package, always from the same sources."""


def install(hooks):
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    sys.meta_path.insert(0, Finder(hooks))
