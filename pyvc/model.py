"""Abstract scattering distributions and configurations of the model."""
from .terms import *
from . import terms as tm
from . import core
from .core import W, Unsupported, Failed
from .values import *
from . import runtime as rt
from . import stubs
from .stubs import XPolyBase
from .loader import Loader

ANG = ("t_0", "t_ex", "p_0", "p_ex")
TH0, THEX, PH0, PHEX = (v("s:" + n) for n in ("theta_0", "theta_ex", "phi_0", "phi_ex"))


class AbsScatter:
    """an arbitrary scattering distribution: contract of _Scatter and its subclasses (proved for C15-C19)."""

    def __init__(self, kind, n=None):
        self.kind = kind
        self.n = v("N_" + kind, "I") if n is None else c(n)
        self.calls = []

    def __deepcopy__(self, memo):
        return self

    @property
    def ncoefs(self):
        return Arr(self.n, SCALAR, "int")

    @property
    def phase_function(self):
        return SExpr(fn("pf:" + self.kind, TH0, THEX, PH0, PHEX, DSYM))

    def calc(self, t_0, t_ex, p_0, p_ex, param_dict={}):
        args = [to_arr(x) for x in (t_0, t_ex, p_0, p_ex)]
        d = as_dict(param_dict)
        if isinstance(d, dict):
            d = rt.make_dict(list(d.items())) if d else PDict(fn("env"), (), frozenset())
        q = pred("covered", v("names:pf:" + self.kind, "U"), d.env)
        if not W.decide(q):
            raise KeyError("missing parameter")
        bodies, sh = broadcast([(a.t, a.sh) for a in args] + [(ZERO, Shape((), d.val_base))])
        return Arr(fn("pf:" + self.kind, *bodies[:4], d.env), sh)

    def legendre_expansion(self, t_0, t_ex, p_0, p_ex):
        return XExp(ONE, ((self.kind, se(t_0), se(t_ex), se(p_0), se(p_ex)),))


class XExp(XPolyBase):
    """(multiple of a) product of Legendre expansions."""

    def __init__(self, scale, parts, integrated=False):
        self.scale, self.parts, self.integrated = scale, tuple(parts), integrated

    def _mul(self, o):
        if isinstance(o, XExp):
            if self.integrated or o.integrated:
                raise Unsupported("product of integrated expansions")
            return XExp(mul(self.scale, o.scale), self.parts + o.parts)
        return XExp(mul(self.scale, se(o)), self.parts, self.integrated)

    __mul__ = __rmul__ = _mul

    def doit(self, *a, **k): return self
    def expand(self, *a, **k): return self
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"expansion.{n}")


def coef(n, a, b, cc, d, env, kinds=("V", "SRF")):
    """f_n(t_0, p_0, t_ex, p_ex) of the two distributions with the parameter values env."""
    return fn("f" if kinds == ("V", "SRF") else "f:" + ":".join(kinds), n, a, b, cc, d, env)


def c_integrate(self, expr):
    """contract of RT1._integrate_0_2pi_phis: average over phi_s (verified for C04)."""
    if not isinstance(expr, XExp) or expr.integrated:
        raise Unsupported("integration of an unknown expression")
    return XInt(expr.scale, expr.parts)


class XInt(XPolyBase):
    """average of the expansion over phi_s; sin(theta_s) may have been replaced by cos(theta_s)."""

    def __init__(self, scale, parts):
        self.scale, self.parts = scale, parts

    def xreplace(self, m): return self
    def expand(self, *a, **k): return self
    def doit(self, *a, **k): return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"integrated expansion.{n}")


def c_extract(self, expr):
    """contract of RT1._extract_coefficients: coefficients of the powers of cos(theta_s) (verified for C04)."""
    if not isinstance(expr, XInt):
        raise Unsupported("coefficients of an unknown expression")
    p = {x[0]: x[1:] for x in expr.parts}
    ths, phs = v("s:theta_s"), v("s:phi_s")
    kinds = getattr(self.V, "kind", "V"), getattr(self.SRF, "kind", "SRF")
    if set(p) != set(kinds) or len(expr.parts) != 2:
        raise Failed("interaction-expansion", "the product of both expansions is required")
    (a, b_, c_, d_), (e, f, g, h) = p[kinds[0]], p[kinds[1]]
    if not (b_ is ths and d_ is phs and e is ths and g is phs):
        raise Failed("interaction-expansion", f"the intermediate direction is not used correctly: {expr.parts}")
    t0 = canon(add(PI, neg(a)))
    k = fresh("n", "I")
    n = canon(add(self.SRF.ncoefs.t, self.V.ncoefs.t, c(-1)))
    sc = canon(div(expr.scale, mul(c(2), PI)))
    if n.op == "c":
        # (the code always returns at least two coefficients)
        m = int(cval(n))
        return rt.VList([SExpr(mul(sc, coef(c(i), t0, c_, f, h, DSYM, kinds)) if i < m else ZERO) for i in range(max(m, 2))])
    # (one coefficient: units with N_V = N_SRF = 1)
    W.assume(Le(c(2), n))
    t = mul(sc, coef(k, t0, c_, f, h, DSYM, kinds))
    return rt.VList([Splat(SSeq([("gen", n, k, SExpr(t))]))])


def c_lambdify(variables, functions):
    """contract of helpers._lambdify (verified for C19)."""
    vs = list(variables) if isinstance(variables, (list, tuple, SSeq)) else [variables]
    vs = [x for x in vs]
    many = isinstance(functions, (list, SSeq))

    def parse(x):
        if isinstance(x, (str, SStr)):
            return stubs.sp_parse_expr(x, {"N": 1, "S": 1, "Q": 1})
        return x
    if many:
        segs = []
        for s in as_seq(functions).segs:
            segs.append(("one", parse(s[1])) if s[0] == "one" else s[:3] + (parse(s[3]),) + tuple(s[4:]))
        return LamFn(vs, SSeq(segs), True)
    return LamFn(vs, parse(functions), False)


class Pkg:
    """the package with the abstract libraries; the listed internal functions are replaced by their contracts."""

    def __init__(self, contracts=("lambdify", "interaction"), no_plot=True, overrides=None, extra_stubs=None):
        st = stubs.base_stubs()
        st.update(extra_stubs or {})
        self.L = Loader(st, no_plot=no_plot, overrides=overrides)
        self.calc = self.L.mods["rt1_model._calc"]
        self.RT1 = self.calc.RT1
        self.used = []
        if "lambdify" in contracts:
            for m in list(self.L.mods.values()):
                if "_lambdify" in vars(m):
                    m._lambdify = c_lambdify
                    self.used.append("_lambdify")
        if "interaction" in contracts:
            for n, f in (("_integrate_0_2pi_phis", c_integrate), ("_extract_coefficients", c_extract)):
                if n in vars(self.RT1):
                    setattr(self.RT1, n, f)
                    self.used.append(n)


def base_assumptions():
    for n in ("N_V", "N_SRF"):
        W.assumptions.append(Le(ONE, v(n, "I")))


def angle(n, fixed=False):
    """an angle: zenith angles in (0, pi/2)."""
    if fixed:
        return Arr(v(n), SCALAR, "py")
    return Arr(v(n), Shape((), frozenset({n})), "np")


def pdict(name):
    u = v(name, "U")
    return PDict(u, [("base", u)], frozenset({name}))


def geometry(R, mode, fixed=(), setter=None):
    """sets the geometry through the public interface; returns the 4 angle terms."""
    if mode == "mono":
        if "p_0" in fixed:
            R.set_monostatic(p_0=angle("p_0", True))
        else:
            R.set_monostatic()
        kw = {n: angle(n) for n in ("t_0", "p_0") if n not in fixed}
        R.set_geometry(**kw)
        t0, p0 = v("t_0"), v("p_0")
        return t0, t0, p0, add(p0, PI)
    R.set_bistatic(**{n: angle(n, True) for n in fixed})
    kw = {n: angle(n) for n in ANG if n not in fixed}
    if kw:
        R.set_geometry(**kw)
    return tuple(v(n) for n in ANG)


def zenith_range():
    for n in ("t_0", "t_ex"):
        W.assume(Lt(ZERO, cos(v(n))))
        W.assume(Lt(cos(v(n)), ONE))


def spec_value(name, kind):
    if kind == "py":
        return Arr(v(name), SCALAR, "py")
    if kind == "np":
        return Arr(v(name), Shape((), frozenset({name})), "np")
    if kind == "expr":
        return SStr(v("e:" + name, "U"), "expr")
    raise ValueError(kind)


def spec_term(name, kind, env):
    if kind in ("py", "np"):
        return v(name)
    if kind == "expr":
        return fn("expr", v("e:" + name, "U"), env)
    if kind == "default":
        return env_get(env, v("'" + name, "U"))
