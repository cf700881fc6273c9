"""Published closed forms of the predefined distributions (C15-C17)."""
from .cfg import *
from pyvc import runtime as rt
from pyvc.model import TH0, THEX, PH0, PHEX

SYMS = (TH0, THEX, PH0, PHEX)
NS = v("s:n")

# class -> (has t, fixed number of coefficients)
CLASSES = {"V": {"Isotropic": (False, 1), "Rayleigh": (False, 3), "HenyeyGreenstein": (True, None), "HGRayleigh": (True, None)},
           "SRF": {"Isotropic": (False, 1), "CosineLobe": (False, None), "HenyeyGreenstein": (True, None), "HG_nadirnorm": (True, None)}}
DEFAULT_A = {"V": (c(-1), ONE, ONE), "SRF": (ONE, ONE, ONE)}


def module(P, kind):
    P.L.load({"V": "volume", "SRF": "surface"}[kind])
    return P.L.mods["rt1_model." + {"V": "volume", "SRF": "surface"}[kind]]


def scalar(name, kind):
    """a parameter given as a number or as an (arbitrary) symbolic expression"""
    if kind == "py":
        return Arr(v(name), SCALAR, "py")
    return SStr(v("e:" + name, "U"), "expr")


def sterm(name, kind, env):
    return v(name) if kind == "py" else fn("expr", v("e:" + name, "U"), env)


class Cfg:
    """a predefined distribution with arbitrary parameters"""

    def __init__(self, kind, cls, tk="py", ak=None, nk="sym"):
        self.kind, self.cls, self.tk, self.ak, self.nk = kind, cls, tk, ak, nk
        self.has_t, self.fixed = CLASSES[kind][cls]

    def name(self):
        s = f"{'volume' if self.kind == 'V' else 'surface'}.{self.cls}"
        o = ([f"t {NAMES[self.tk]}"] if self.has_t else []) + ([f"a {','.join(NAMES[x] for x in self.ak)}"] if self.ak else ["default a"])
        return f"{s} [{', '.join(o)}]"

    def build(self, P):
        kw = {}
        if self.has_t:
            kw["t"] = scalar("t", self.tk)
        if self.cls == "CosineLobe":
            kw["i"] = Arr(v("i", "I"), SCALAR, "int")
        if self.ak:
            kw["a"] = [scalar(f"a{j}", k) for j, k in enumerate(self.ak)]
        if self.fixed is None:
            kw["ncoefs"] = Arr(v("N", "I"), SCALAR, "int")
        return getattr(module(P, self.kind), self.cls)(**kw)

    def assume(self, env=DSYM):
        W.assume(Le(ONE, v("N", "I")))
        if self.has_t:
            for e in {DSYM, env}:
                t = self.t(e)
                W.assume(Lt(c(-1), t))
                W.assume(Lt(t, ONE))
                if self.cls == "HG_nadirnorm":
                    W.assume(Ne(t, ZERO))
                    W.assume(Ne(self.a(e)[0], ZERO))
        if self.cls == "CosineLobe":
            W.assume(Le(ZERO, v("i", "I")))

    def t(self, env):
        return sterm("t", self.tk, env)

    def a(self, env):
        return tuple(sterm(f"a{j}", k, env) for j, k in enumerate(self.ak)) if self.ak else DEFAULT_A[self.kind]

    def ncoefs(self):
        return v("N", "I") if self.fixed is None else c(self.fixed)

    def x(self, ang, env):
        return scat(ang, self.a(env))

    def phase(self, ang, env):
        return PHASE[self.kind, self.cls](self, self.x(ang, env), env)

    def coef(self, n, env):
        return COEF[self.kind, self.cls](self, n, env)


NAMES = {"py": "number", "expr": "expression"}


def scat(ang, a):
    """cosine of the generalized scattering angle"""
    t0, tex, p0, pex = ang
    return (a[0] * cos(t0) * cos(tex) + sin(t0) * sin(tex) * (a[1] * cos(p0) * cos(pex) + a[2] * sin(p0) * sin(pex)))


def hg(x, t):
    """(1 - t^2) / (1 + t^2 - 2 t x)^(3/2); integral over x in (-1, 1): 2"""
    return (1 - t ** 2) / (1 + t ** 2 - 2 * t * x) ** c(Q(3, 2))


def nadir(t, a0):
    """hemispherical reflectance at nadir of the (not normalized) Henyey-Greenstein BRDF"""
    w = 1 + t ** 2 - 2 * a0 * t
    return 2 * (1 - t ** 2) * (1 + t ** 2 - a0 * t - sqrt(w * (1 + t ** 2))) / (a0 ** 2 * t ** 2 * sqrt(w))


def lobe(s, x, env):
    return ite(Eq(x, ZERO), ZERO, ite(Lt(ZERO, x), x, ZERO)) ** v("i", "I") / PI


X = v("X")


def abstract(t, x):
    """t with all occurrences of (terms equal to) x replaced by the variable X"""
    return subst(t, {y: X for y in set(walk(t)) if isinstance(y, T) and y.op == "+" and tm.equal(y, x)})


PHASE = {
    ("V", "Isotropic"): lambda s, x, e: 1 / (4 * PI),
    ("V", "Rayleigh"): lambda s, x, e: 3 / (16 * PI) * (1 + x ** 2),
    ("V", "HenyeyGreenstein"): lambda s, x, e: hg(x, s.t(e)) / (4 * PI),
    ("V", "HGRayleigh"): lambda s, x, e: 3 / (8 * PI) / (2 + s.t(e) ** 2) * (1 + x ** 2) * hg(x, s.t(e)),
    ("SRF", "Isotropic"): lambda s, x, e: 1 / PI,
    ("SRF", "CosineLobe"): lobe,
    ("SRF", "HenyeyGreenstein"): lambda s, x, e: hg(x, s.t(e)) / PI,
    ("SRF", "HG_nadirnorm"): lambda s, x, e: hg(x, s.t(e)) / PI / nadir(s.t(e), s.a(e)[0]),
}


def delta(i, n):
    return ite(Eq(n, c(i)), ONE, ZERO)


def gamma(x):
    return fn("gamma", canon(x))


def co_hgr(s, n, e):
    t = s.t(e)
    # (n = 0, 1: the factor of t^(n-2) vanishes)
    low = ite(Lt(n, c(2)), ZERO, n * (n - 1) / (2 * n - 1) * t ** (n - 2))
    return 3 / (8 * PI) / (2 + t ** 2) * (low + (n + 2) * (n + 1) / (2 * n + 3) * t ** (n + 2)
                                         + ((n + 1) ** 2 / (2 * n + 3) + (5 * n ** 2 - 1) / (2 * n - 1)) * t ** n)


def co_lobe(s, n, e):
    i = v("i", "I")
    return (2 * n + 1) / PI * (c(2) ** (-2 - i) * sqrt(PI) * gamma(1 + i)
                              / (gamma((2 - n + i) / 2) * gamma((3 + n + i) / 2)))


# Legendre coefficients: (2n+1)/2 times the integral over (-1, 1) of the closed form times P_n (theorems of lemmas/legendre.lean)
COEF = {
    ("V", "Isotropic"): lambda s, n, e: delta(0, n) / (4 * PI),
    ("V", "Rayleigh"): lambda s, n, e: (delta(0, n) / 4 + delta(2, n) / 8) / PI,
    ("V", "HenyeyGreenstein"): lambda s, n, e: (2 * n + 1) * s.t(e) ** n / (4 * PI),
    ("V", "HGRayleigh"): co_hgr,
    ("SRF", "Isotropic"): lambda s, n, e: delta(0, n) / PI,
    ("SRF", "CosineLobe"): co_lobe,
    ("SRF", "HenyeyGreenstein"): lambda s, n, e: (2 * n + 1) * s.t(e) ** n / PI,
    ("SRF", "HG_nadirnorm"): lambda s, n, e: (2 * n + 1) * s.t(e) ** n / PI / nadir(s.t(e), s.a(e)[0]),
}

RESERVED = "parameter names other than n, theta_0, theta_ex, phi_0, phi_ex (names of the model itself)"


def ncx(x):
    return to_arr(x).t


def configs(kind, tier):
    for cls, (has_t, fixed) in CLASSES[kind].items():
        for tk in ("py", "expr") if has_t else ("py",):
            for ak in (None, ("expr",) * 3, ("py",) * 3) + ((("py", "expr", "py"),) if tier != "quick" else ()):
                yield Cfg(kind, cls, tk, ak)


def form_unit(cfg, pid):
    """phase_function is the published formula, and calc evaluates it."""
    def setup():
        base_assumptions()
        P = Pkg(contracts=("lambdify",))
        P.files = P.L.files
        return P

    def body(P):
        d = pdict("P0")
        cfg.assume(d.env)
        D = cfg.build(P)
        def form(name, got, ang, env):
            r = prove_eq(name, abstract(got, cfg.x(ang, env)), PHASE[cfg.kind, cfg.cls](cfg, X, env))
            return r if r.status == "proved" else prove_eq(name, got, cfg.phase(ang, env))
        out = [form("phase_function is the published formula", se(D.phase_function), SYMS, DSYM)]
        ang = [Arr(v(n), Shape((), frozenset({n})), "np") for n in ANG]
        r = to_arr(D.calc(*ang, param_dict=d))
        out.append(form("calc evaluates the published formula", r.t, [v(n) for n in ANG], d.env))
        return out
    return Unit(f"{pid} {cfg.name()}", setup, body, auto=auto_complete, min_obls=2, assume=[COMPLETE, RESERVED],
                contracts=[f"{cfg.cls}.phase_function", "_Scatter.calc", "_Scatter.scattering_angle_symbolic"])


def legendre(n, x):
    return fn("legendre", n, x)


def expansion_unit(cfg, angles="sym"):
    """coefficients, number of coefficients and the truncated expansion."""
    def setup():
        base_assumptions()
        P = Pkg(contracts=("lambdify",))
        P.files = P.L.files
        return P

    def body(P):
        cfg.assume()
        D = cfg.build(P)
        W.assume(Le(ZERO, NS))
        if cfg.cls == "CosineLobe":
            W.assume(Le(ONE, v("i", "I")))
        out = [prove_eq("number of coefficients", ncx(D.ncoefs), cfg.ncoefs()),
               prove_eq("Legendre coefficient", se(D.legendre_coefficients), cfg.coef(NS, DSYM))]
        if angles == "sym":
            ang = [SExpr(v("s:" + x)) for x in ("al", "be", "ga", "de")]
        else:
            ang = [Arr(v(x), SCALAR, "py") for x in ANG]
        got = D.legendre_expansion(*ang)
        n = fresh("n", "I")
        x = cfg.x([se(y) for y in ang], DSYM)
        out.append(prove_eq("Legendre expansion", se(got), summ(n, ZERO, cfg.ncoefs(), cfg.coef(n, DSYM) * legendre(n, x))))
        return out
    return Unit(f"C17 {cfg.name()} {angles}", setup, body, auto=auto_complete, min_obls=3, assume=[RESERVED],
                contracts=[f"{cfg.cls}.legendre_coefficients", f"{cfg.cls}.ncoefs", "_Scatter.legendre_expansion", "_Scatter.calc_scattering_angle"])
