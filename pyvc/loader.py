"""Loads /repo/src/rt1_model: parses the source files, instruments them mechanically and executes them.

The instrumentation only reroutes constructs of the language whose built-in meaning cannot be overloaded
(loops, comprehensions, displays, `is`, `in`, ** parameters); all statements and expressions of the source are kept.
"""
import ast
import builtins
import hashlib
import os
import types

from . import runtime
from .core import Unsupported

REPO = os.environ.get("RT1_REPO", "/repo")
SRC = os.path.join(REPO, "src", "rt1_model")


class Scope:
    """does a list of statements contain (outside of nested functions) some node type?"""

    @staticmethod
    def nodes(stmts, into_loops=True):
        todo = list(stmts)
        while todo:
            x = todo.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                if not isinstance(x, ast.Lambda):
                    todo.extend(x.decorator_list)
                continue
            if not into_loops and isinstance(x, (ast.For, ast.While)):
                continue
            todo.extend(ast.iter_child_nodes(x))


COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def assigned(stmts):
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    def go(x):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            add(x.name)
            return
        if isinstance(x, (ast.Lambda,)):
            return
        if isinstance(x, COMPS):
            # only walrus targets leak
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    add(y.target.id)
            return
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                add((a.asname or a.name).split(".")[0])
        for y in ast.iter_child_nodes(x):
            go(y)
    for s in stmts:
        go(s)
    return out


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def call(f, *args):
    return ast.Call(name(f), list(args), [])


def lam(params, body):
    return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in params], kwonlyargs=[], kw_defaults=[],
                                    defaults=[]), body)


def pattern(t):
    """(flat list of names, nested pattern) of an assignment target, or None if it has other forms."""
    if isinstance(t, ast.Name):
        return [t.id], ast.Constant(None)
    if isinstance(t, (ast.Tuple, ast.List)):
        ns, ps = [], []
        for e in t.elts:
            r = pattern(e)
            if r is None:
                return None
            ns += r[0]
            ps.append(r[1])
        if len(set(ns)) != len(ns):
            return None
        return ns, ast.Tuple(ps, ast.Load())
    return None


class Instr(ast.NodeTransformer):
    def __init__(self):
        self.fn = []          # stack of function contexts: dict(body=bool, native=bool)
        self.n = 0

    # ---------------------------------------------------------------- functions
    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        inner = list(Scope.nodes(node.body))
        native = any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)) for x in inner)
        self.fn.append({"loop": False, "native": native})
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.fn.pop()
        if node.args.kwarg is not None:
            kw = node.args.kwarg.arg
            pre = ast.Assign([name(kw, ast.Store())], call("_vc_kw", name(kw)))
            i = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            body.insert(i, pre)
        node.body = body
        return node

    def visit_FunctionDef(self, node):
        return self._function(node)

    def visit_ClassDef(self, node):
        saved, self.fn = self.fn, []
        self.generic_visit(node)
        self.fn = saved
        return node

    def visit_Lambda(self, node):
        self.fn.append({"loop": False, "native": True})
        self.generic_visit(node)
        self.fn.pop()
        return node

    # ---------------------------------------------------------------- expressions
    def _comp(self, kind, node):
        self_fn = bool(self.fn)
        if not self_fn or len(node.generators) != 1 or node.generators[0].is_async:
            self.generic_visit(node)
            return node
        g = node.generators[0]
        p = pattern(g.target)
        parts = [node.key, node.value] if kind == "dict" else [node.elt]
        bad = p is None or any(isinstance(y, (ast.NamedExpr, ast.Yield, ast.Await)) for x in parts + g.ifs for y in ast.walk(x))
        if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ("super", "locals")
               for x in parts + g.ifs for y in ast.walk(x)):
            bad = True
        if bad:
            self.generic_visit(node)
            return node
        names, pat = p
        it = self.visit(g.iter)
        parts = [self.visit(x) for x in parts]
        elt = parts[0] if kind != "dict" else ast.Tuple(parts, ast.Load())
        args = [ast.Constant(kind), it, lam(names, elt)]
        if g.ifs:
            cond = [self.visit(x) for x in g.ifs]
            args.append(lam(names, cond[0] if len(cond) == 1 else ast.BoolOp(ast.And(), cond)))
        else:
            args.append(ast.Constant(None))
        args.append(pat)
        return call("_vc_comp", *args)

    def visit_ListComp(self, node): return self._comp("list", node)
    def visit_SetComp(self, node): return self._comp("set", node)
    def visit_DictComp(self, node): return self._comp("dict", node)
    def visit_GeneratorExp(self, node): return self._comp("gen", node)

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return call("_vc_list", node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        # a sequence of (key, value) pairs keeps keys that cannot be hashed
        if any(k is None for k in node.keys):
            parts = [ast.Tuple([k if k is not None else ast.Constant(None), x, ast.Constant(k is None)], ast.Load())
                     for k, x in zip(node.keys, node.values)]
            return call("_vc_dict", ast.List(parts, ast.Load()))
        pairs = ast.List([ast.Tuple([k, x], ast.Load()) for k, x in zip(node.keys, node.values)], ast.Load())
        return call("_vc_pairs", pairs)

    def visit_Set(self, node):
        self.generic_visit(node)
        return call("_vc_set", ast.List(node.elts, ast.Load()))

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            a, b, op = node.left, node.comparators[0], node.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and not (isinstance(b, ast.Constant) and b.value is None):
                r = call("_vc_is", a, b)
                return r if isinstance(op, ast.Is) else ast.UnaryOp(ast.Not(), r)
            if isinstance(op, (ast.In, ast.NotIn)):
                r = call("_vc_in", a, b)
                return r if isinstance(op, ast.In) else ast.UnaryOp(ast.Not(), r)
        return node

    def visit_JoinedStr(self, node):
        # texts are only used in messages: formatting never fails
        self.generic_visit(node)
        return node

    # ---------------------------------------------------------------- for loops
    def visit_For(self, node):
        if not self.fn or self.fn[-1]["native"] or not self._loopable(node):
            self.generic_visit(node)
            return node
        self.n += 1
        i = self.n
        in_loop = self.fn[-1]["loop"]
        tnames = assigned([ast.Assign([node.target], ast.Constant(None))])
        names = assigned([node.target] + node.body)
        it = self.visit(node.iter)
        self.fn.append({"loop": True, "native": False})
        body = []
        for s in self._flow(node.body):
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.fn.pop()
        nl = [ast.Nonlocal(names)] if names else []
        target = self.visit(node.target)
        bname, sname, rname = f"_vc_body{i}", f"_vc_set{i}", f"_vc_r{i}"
        out = []
        if names:
            out.append(ast.If(ast.Constant(0), [ast.Assign([name(n, ast.Store()) for n in names], ast.Constant(None))], []))
        out.append(ast.FunctionDef(bname, ast.arguments(posonlyargs=[], args=[ast.arg("_vc_it")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                   [*nl, ast.Assign([target], name("_vc_it")), *body], []))
        sb = [*nl]
        if names:
            sb.append(ast.Assign([ast.Tuple([name(n, ast.Store()) for n in names], ast.Store())], call("_vc_poison", name("_vc_it"))))
        else:
            sb.append(ast.Pass())
        out.append(ast.FunctionDef(sname, ast.arguments(posonlyargs=[], args=[ast.arg("_vc_it")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                   sb, []))
        get = lam([], call("_vc_locals", *[lam([], name(n)) for n in names]))
        out.append(ast.Assign([name(rname, ast.Store())],
                              call("_vc_loop", it, name(bname), get, name(sname),
                                   ast.Tuple([ast.Constant(n) for n in names], ast.Load()),
                                   ast.Tuple([ast.Constant(n) for n in tnames], ast.Load()))))
        isret = ast.Call(name("_vc_isret"), [name(rname)], [])
        ret = name(rname) if in_loop else ast.Subscript(name(rname), ast.Constant(1), ast.Load())
        out.append(ast.If(isret, [ast.Return(ret)], []))
        if node.orelse:
            els = []
            for s in node.orelse:
                r = self.visit(s)
                els += r if isinstance(r, list) else [r]
            out.append(ast.If(ast.Compare(name(rname), [ast.Is()], [ast.Constant(None)]), els, []))
        return out

    def _loopable(self, node):
        for x in Scope.nodes(node.body):
            if isinstance(x, (ast.Global, ast.Nonlocal, ast.Delete)) and not (
                    isinstance(x, ast.Delete) and all(isinstance(t, (ast.Subscript, ast.Attribute)) for t in x.targets)):
                return False
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals"):
                return False
        return True

    def _flow(self, stmts):
        """return / break / continue of the loop body."""
        me = self

        class Flow(ast.NodeTransformer):
            depth = 0

            def visit_FunctionDef(self, n): return n
            def visit_Lambda(self, n): return n
            def visit_ClassDef(self, n): return n

            def loop(self, n):
                self.depth += 1
                self.generic_visit(n)
                self.depth -= 1
                return n

            visit_For = loop
            visit_While = loop

            def visit_Break(self, n):
                return n if self.depth else ast.Return(name("_vc_BRK"))

            def visit_Continue(self, n):
                return n if self.depth else ast.Return(name("_vc_CONT"))

            def visit_Return(self, n):
                if getattr(n, "_vc_done", False):
                    return n
                r = ast.Return(ast.Tuple([ast.Constant("ret"), n.value or ast.Constant(None)], ast.Load()))
                r._vc_done = True
                return r
        f = Flow()
        return [f.visit(s) for s in stmts]


def instrument(source, filename):
    tree = ast.parse(source, filename)
    # returns inside of native inner loops (while) of a transformed for loop
    tree = Instr().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


def _docscrape():
    m = types.ModuleType("rt1_model._numpydoc_docscrape")

    class NumpyDocString:
        def __init__(self, text):
            raise ValueError("docstrings are not part of the verified code")
    m.NumpyDocString = NumpyDocString
    return m


class Loader:
    """one instrumented instance of the package.

    stubs: {module name: object}; contracts: callback(loader) after the modules are loaded."""

    def __init__(self, stubs, no_plot=True, overrides=None):
        self.stubs = dict(stubs)
        self.no_plot = no_plot
        self.mods = {}
        self.files = {}
        self.overrides = dict(overrides or {})
        # only used to combine docstrings
        self.overrides.setdefault("_numpydoc_docscrape", _docscrape())
        self.builtins = dict(runtime.BUILTINS)
        self.builtins["__import__"] = self.imp
        self.pkg = self.load("")

    def path(self, sub):
        p = os.path.join(SRC, *(sub.split(".") if sub else []))
        if sub and os.path.exists(p + ".py"):
            return p + ".py"
        q = os.path.join(p, "__init__.py")
        return q if os.path.exists(q) else None

    def load(self, sub):
        full = "rt1_model" + ("." + sub if sub else "")
        if full in self.mods:
            return self.mods[full]
        if sub in self.overrides:
            self.mods[full] = self.overrides[sub]
            if sub:
                setattr(self.mods["rt1_model"], sub.split(".")[-1], self.overrides[sub])
            return self.overrides[sub]
        if sub == "plot" and self.no_plot:
            raise ImportError("plot functions are not part of this unit")
        p = self.path(sub)
        if p is None:
            raise ModuleNotFoundError(f"No module named '{full}'")
        src = open(p, encoding="utf-8").read()
        self.files[p] = hashlib.sha256(src.encode()).hexdigest()
        m = types.ModuleType(full)
        m.__file__ = p
        m.__package__ = "rt1_model"
        m.__dict__["__builtins__"] = self.builtins
        self.mods[full] = m
        if sub:
            par = self.mods["rt1_model"]
        code = compile(instrument(src, p), p, "exec")
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[full]
            raise
        if sub:
            setattr(par, sub.split(".")[-1], m)
        return m

    def imp(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            if nm:
                m = self.load(nm)
                for f in fromlist or ():
                    if not hasattr(m, f) and self.path(nm + "." + f):
                        self.load(nm + "." + f)
                return m
            for f in fromlist or ():
                if not hasattr(self.mods["rt1_model"], f):
                    self.load(f)
            return self.mods["rt1_model"]
        if nm == "rt1_model" or nm.startswith("rt1_model."):
            m = self.load(nm[10:])
            return m if fromlist else self.mods["rt1_model"]
        if nm in self.stubs:
            m = self.stubs[nm]
            if isinstance(m, BaseException):
                raise m
            if fromlist:
                return m
            return self.stubs[nm.split(".")[0]]
        root = nm.split(".")[0]
        if root in ("abc", "types", "operator", "collections", "__future__", "typing", "contextlib", "copy", "numbers",
                    "warnings", "inspect", "string", "re", "enum", "dataclasses"):
            return builtins.__import__(nm, globals, locals, fromlist, 0)
        # unknown libraries: unsupported as soon as they are used
        from .stubs import Stub
        m = Stub(root, {})
        for part in nm.split(".")[1:] if fromlist else []:
            m = Stub(nm, {})
        return m
