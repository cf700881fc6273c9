"""C19: compiled expressions bind arguments correctly in both backends.

helpers._lambdify is executed with an arbitrary number of variables (symbolic names), expressions, positional and named
arguments; the backends are the contracts SengLambdify and SympyLambdify below (symengine.Lambdify, sympy.lambdify)."""
from .dist import *
from pyvc import stubs
from pyvc.runtime import VDict

m, p, L = v("m", "I"), v("p", "I"), v("L", "I")
BACKENDS = ("sympy", "symengine")


def nm(k):
    return fn("nm", k)


def A(k):
    return Arr(fn("A", k), Shape((), frozenset({"A"})), "np")


ENV = v("KW", "U")


def expected(k):
    """value passed for variable k"""
    return ite(Lt(k, p), fn("A", k), fn("get", ENV, nm(k)))


class Record:
    """what was handed to the backend"""

    def __init__(self):
        self.made, self.calls = [], []


REC = [None]


class Compiled:
    """function compiled by a backend: returns the values of the expressions."""

    def __init__(self, backend, var, funcs, opts):
        self.backend, self.var, self.funcs, self.opts = backend, var, funcs, opts

    def __call__(self, *args, **kwargs):
        if self.backend == "symengine" and kwargs:
            raise TypeError("unexpected keyword argument")
        r = Result(self, args, kwargs)
        REC[0].calls.append(r)
        return r


class Result:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


def seng_lambdify(args, *exprs, real=True, backend=None, order="C", cse=False, **kw):
    if len(exprs) != 1 or kw or order != "F" or real is not True:
        raise Unsupported("options of symengine.Lambdify")
    r = Compiled("symengine", args, exprs[0], {"backend": backend})
    REC[0].made.append(r)
    return r


def sympy_lambdify(args, expr, modules=None, printer=None, use_imps=True, dummify=False, cse=False, **kw):
    if kw or printer is not None or use_imps is not True:
        raise Unsupported("options of sympy.lambdify")
    if dummify is True:
        raise Unsupported("sympy.lambdify(dummify=True)")      # (arguments cannot be passed by name)
    first = modules[0] if isinstance(modules, (list, tuple)) else modules
    if first not in (None, "numpy", "scipy"):
        raise Unsupported(f"sympy.lambdify(modules={modules!r})")      # (functions of arrays)
    r = Compiled("sympy", args, expr, {})
    REC[0].made.append(r)
    return r


def setup():
    base_assumptions()
    st = stubs.base_stubs()
    st["sympy"].__dict__["lambdify"] = sympy_lambdify
    st["symengine"].__dict__["Lambdify"] = seng_lambdify
    P = Pkg(contracts=(), extra_stubs={"sympy": st["sympy"], "symengine": st["symengine"]})
    P.files = P.L.files
    return P


def variables(kind):
    k = fresh("k", "I")
    x = SStr(nm(k)) if kind == "names" else SExpr(fn("sym", nm(k)))
    s = Splat(SSeq([("gen", m, k, x)]))
    return VList([s]) if kind == "names" else (s,)


def expression(kind, u):
    return SStr(u, "expr") if kind == "string" else SExpr(fn("expr", u, DSYM))


def item(seq, i):
    return as_seq(seq)[Arr(i, SCALAR, "int")]


FUNCS = ("one expression", "one string", "list of expressions", "list of strings", "list with one expression")


def functions(kind):
    if kind.startswith("one"):
        return expression("string" if kind == "one string" else "expr", v("e", "U"))
    if kind == "list with one expression":
        return VList([expression("expr", v("e", "U"))])
    k = fresh("k", "I")
    return VList([Splat(SSeq([("gen", L, k, expression("string" if kind.endswith("strings") else "expr", fn("e", k)))]))])


CALLS = {"positional": And(Lt(ZERO, p), Eq(p, m)), "by name": Eq(p, ZERO), "mixed": And(Lt(ZERO, p), Lt(p, m))}


def auto_names(f):
    # every variable that is not passed by position has a value in the keyword arguments
    if f.op == "pred" and f.args[0] == "in" and f.args[1].op == "fn" and f.args[1].args[0] == "nm":
        return True
    return auto_complete(f)


def bind_unit(backend, fk, vk, ck):
    def body(P):
        W.assume(Le(ONE, m))
        W.assume(Le(ONE, L))
        W.assume(CALLS[ck])
        if ck == "by name":
            pp = ZERO
        elif ck == "positional":
            pp = m
        else:
            pp = p
        REC[0] = Record()
        P.L.mods["rt1_model"].set_lambda_backend(backend)
        out = [holds("the selected backend is used", lambda: P.L.mods["rt1_model"].get_lambda_backend() == backend)]
        f = P.L.mods["rt1_model.helpers"]._lambdify(variables(vk), functions(fk))
        k = fresh("k", "I")
        args = [] if ck == "by name" else [Splat(SSeq([("gen", pp, k, A(k))]))]
        kw = {} if ck == "positional" else {MarkStr("kw"): None}
        if kw:
            d = PDict(ENV, [("base", ENV)], frozenset({"KW"}))
            got = f(*args, **d)
        else:
            got = f(*args)
        # the result is the one of the compiled function
        ok = isinstance(got, Result) and len(REC[0].made) >= 1 and any(got is r for r in REC[0].calls)
        out.append(holds("the result of the compiled function is returned", lambda: ok))
        if not ok:
            return out
        c_ = got.f
        out.append(holds("compiled by the selected backend", lambda: c_.backend == backend))
        out += check_vars(c_, pp, ck) + check_funcs(c_, fk) + check_args(got, pp, ck, backend)
        return out
    return Unit(f"C19 helpers._lambdify [{backend}, {fk}, variables: {vk}, arguments {ck}]", setup, body, auto=auto_names, min_obls=6,
                assume=["at least one variable; variable names are different; a value is passed for every variable",
                        "contracts of sympy.lambdify and symengine.Lambdify (arguments by position; by name for sympy.lambdify)"],
                contracts=["helpers._lambdify", "get_lambda_backend", "set_lambda_backend"])


def length(x):
    return to_arr(rt.b_len(x if isinstance(x, (SSeq, tuple)) else VList(list(x)))).t


def check_vars(f, pp, ck):
    out = [prove_eq("number of variables", length(f.var), m)]
    i = fresh("i", "I")
    W.assume(Le(ZERO, i))
    W.assume(Lt(i, m))
    x = item(f.var, i)
    out.append(holds("variables are symbols", lambda: isinstance(x, SExpr)))
    out.append(prove_eq("variable i", se(x), fn("sym", nm(i))))
    return out


def check_funcs(f, fk):
    if fk.startswith("one"):
        if not isinstance(f.funcs, SExpr):
            return [holds("a single expression is compiled as a single expression", lambda: False)]
        return [prove_eq("the expression", se(f.funcs), fn("expr", v("e", "U"), DSYM))]
    if not isinstance(f.funcs, (list, SSeq)):
        return [holds("a list of expressions is compiled as a list", lambda: False)]
    n = ONE if fk == "list with one expression" else L
    out = [prove_eq("number of expressions", length(f.funcs), n)]
    i = fresh("i", "I")
    W.assume(Le(ZERO, i))
    W.assume(Lt(i, n))
    x = item(f.funcs, i) if n is L else list(f.funcs)[0]
    u = fn("e", i) if n is L else v("e", "U")
    out.append(prove_eq("expression i", se(x), fn("expr", u, DSYM)))
    return out


def check_args(r, pp, ck, backend):
    args = SSeq(as_seq(r.args).segs)
    n = args.length() if args.segs else ZERO
    kw = as_dict(r.kwargs)
    out = []
    if ck != "positional" and isinstance(kw, PDict):
        # (sympy) the remaining ones by name
        out.append(prove_eq("arguments by position", n, pp))
        out.append(prove_eq("arguments by name", kw.env, ENV))
    else:
        out.append(prove_eq("one value per variable", n, m))
    if ck != "by name":
        i = fresh("i", "I")
        W.assume(Le(ZERO, i))
        W.assume(Lt(i, pp))
        out.append(prove_eq("value of a variable passed by position", to_arr(item(args, i)).t, fn("A", i)))
    if ck != "positional" and not isinstance(kw, PDict):
        i = fresh("i", "I")
        W.assume(Le(pp, i))
        W.assume(Lt(i, m))
        out.append(prove_eq("value of a variable passed by name", to_arr(item(args, i)).t, fn("get", ENV, nm(i))))
    if backend == "symengine":
        base = {frozenset(to_arr(s[1] if s[0] == "one" else s[3]).sh.base) for s in args.segs}
        out.append(holds("the values have the same shape", lambda: len(base) == 1))
        want = ({"A"} if ck != "by name" else set()) | ({"KW"} if ck != "positional" else set())
        out.append(holds("the shape is the one of all arguments", lambda: base == {frozenset(want)}))
    return out


def backend_unit():
    def body(P):
        M_ = P.L.mods["rt1_model"]
        out = []
        for b in BACKENDS + BACKENDS[:1]:
            M_.set_lambda_backend(b)
            out.append(holds("the backend is the one that was set", lambda: M_.get_lambda_backend() == b))
        try:
            M_.set_lambda_backend("other")
            out.append(holds("unknown backends are refused", lambda: False))
        except core.Stop:
            raise
        except Exception:
            out.append(holds("the backend is kept if an unknown one is refused", lambda: M_.get_lambda_backend() == BACKENDS[0]))
        return out
    return Unit("C19 set_lambda_backend / get_lambda_backend", setup, body, min_obls=4, contracts=["get_lambda_backend", "set_lambda_backend"])


def scatter_setup():
    base_assumptions()
    P = Pkg(contracts=("lambdify",))
    P.files = P.L.files
    return P


def scatter_unit(first, second):
    """_Scatter.calc of an arbitrary distribution, also after other evaluations (of this and of another one)."""
    def body(P):
        base = P.L.mods["rt1_model._scatter"]._Scatter

        class Any(base):
            def __init__(self, n):
                self.n = n

            @property
            def phase_function(self):
                return SExpr(fn("pf:" + self.n, *SYMS, DSYM))
        D, D2 = Any("D"), Any("D2")
        out = []

        def call(o, pre, dk):
            d = DICTS[dk]()
            ang = [Arr(v(pre + n), Shape((), frozenset({pre + n})), "np") for n in ANG]
            r = to_arr(o.calc(*ang, d) if pre == "1" else o.calc(*ang, param_dict=d))
            e = as_dict(d).env if isinstance(as_dict(d), PDict) else PDict(fn("env"), ()).env
            out.append(prove_eq(f"value of the phase function (call {pre})", r.t, fn("pf:" + o.n, *[v(pre + n) for n in ANG], e)))
            out.append(holds("shape", lambda: frozenset(pre + n for n in ANG) <= r.sh.base))
        call(D, "1", first)
        call(D2, "2", first)
        call(D, "3", second)
        call(D, "4", first)
        return out
    return Unit(f"C19 _Scatter.calc [arbitrary distribution; parameters {first}, then {second}]", scatter_setup, body, auto=auto_complete, min_obls=8,
                assume=[COMPLETE], contracts=["_Scatter.calc", "_Scatter._lambda_func"])


def two(a, b):
    return rt.make_dict([(n, Arr(v("x" + n), Shape((), frozenset({"x" + n})), "np")) for n in (a, b)])


DICTS = {"any": lambda: pdict("P0"), "any (other)": lambda: pdict("P1"), "pa, pb": lambda: two("pa", "pb"), "pb, pa": lambda: two("pb", "pa")}


def units(tier):
    out = [backend_unit()]
    ds = list(DICTS)
    for a in ds:
        for b in ds:
            out.append(scatter_unit(a, b))
    for b in BACKENDS:
        for fk in FUNCS:
            for vk in ("names", "symbols"):
                for ck in CALLS:
                    out.append(bind_unit(b, fk, vk, ck))
    return out
