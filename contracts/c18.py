"""C18: linear combinations combine values and expansions linearly."""
from .dist import *

PF = "cpf"      # phase function of component j: fn(PF, j, angles, parameters)


class AbsComp:
    """an arbitrary component of a linear combination: distribution number j of a list."""

    def __init__(self, j):
        self.j = j

    def _vc_subst(self, m):
        return AbsComp(subst(self.j, m))

    def __deepcopy__(self, memo):
        return self

    @property
    def a(self):
        return VList([SExpr(fn("expr", fn(f"a{i}", self.j), DSYM)) for i in range(3)])

    @property
    def ncoefs(self):
        return Arr(fn("cN", self.j), SCALAR, "int")

    _ncoefs = ncoefs

    @property
    def phase_function(self):
        return SExpr(fn(PF, self.j, *SYMS, DSYM))

    @property
    def legendre_coefficients(self):
        return SExpr(fn("clc", self.j, NS, DSYM))

    def legendre_expansion(self, *ang):
        n = fresh("n", "I")
        return SExpr(comp_expansion(self.j, [se(x) for x in ang]))


def comp_expansion(j, ang):
    n = fresh("n", "I")
    x = scat(ang, [fn("expr", fn(f"a{i}", j), DSYM) for i in range(3)])
    return summ(n, ZERO, fn("cN", j), fn("clc", j, n, DSYM) * legendre(n, x))


M = v("M", "I")         # number of components


def weight(kind, j):
    if kind == "py":
        return Arr(fn("w", j), SCALAR, "py")
    if kind == "sym":
        return SExpr(fn("expr", fn("we", j), DSYM))
    return SStr(fn("we", j), "expr")


def wterm(kind, j, env):
    return fn("w", j) if kind == "py" else fn("expr", fn("we", j), env)


def choices(wk):
    k = fresh("k", "I")
    return VList([Splat(SSeq([("gen", M, k, (weight(wk, k), AbsComp(k)))]))])


def build(P, kind, wk):
    return module(P, kind).LinComb(choices(wk))


WN = {"py": "numbers", "expr": "expressions (strings)", "sym": "symbolic expressions"}


def setup():
    base_assumptions()
    P = Pkg(contracts=("lambdify",))
    P.files = P.L.files
    return P


def value_unit(kind, wk):
    def body(P):
        W.assume(Le(ONE, M))
        d = pdict("P0")
        D = build(P, kind, wk)
        k = fresh("k", "I")

        def spec(ang, env):
            return summ(k, ZERO, M, wterm(wk, k, env) * fn(PF, k, *ang, env))
        out = [prove_eq("phase_function is the weighted sum of the components", se(D.phase_function), spec(SYMS, DSYM)),
               prove_eq("the number of coefficients is the largest of the components", ncx(D.ncoefs), rt.bigop("max", k, M, fn("cN", k)))]
        ang = [Arr(v(n), Shape((), frozenset({n})), "np") for n in ANG]
        r = to_arr(D.calc(*ang, param_dict=d))
        out.append(prove_eq("calc evaluates the weighted sum of the components", r.t, spec([v(n) for n in ANG], d.env)))
        return out
    return Unit(f"C18 {MOD[kind]}.LinComb values [weights: {WN[wk]}]", setup, body, auto=auto_complete, min_obls=3, assume=[COMPLETE],
                contracts=["_LinComb.phase_function", "_LinComb.ncoefs", "_LinComb.__init__", "_Scatter.calc"])


def expansion_unit(kind, wk, angles):
    def body(P):
        W.assume(Le(ONE, M))
        D = build(P, kind, wk)
        if angles == "sym":
            ang = [SExpr(v("s:" + x)) for x in ("al", "be", "ga", "de")]
        else:
            ang = [Arr(v(x), SCALAR, "py") for x in ANG]
        W.assume(Le(ZERO, NS))
        got = se(D.legendre_expansion(*ang))
        A = [se(y) for y in ang]
        # groups: the distinct triples of scattering angle parameters
        k, g, n = fresh("k", "I"), fresh("g", "I"), fresh("n", "I")
        G = rt.Groups(M, k, TRUE, tuple(fn(f"a{i}", k) for i in range(3)), None, None)
        key = [fn(f"gkey{i}", G.sig, g) for i in range(3)]
        same = G.eq(tuple(key))
        nmax = rt.bigop("max", k, M, fn("cN", k), same)
        co = summ(k, ZERO, M, ite(same, wterm(wk, k, DSYM) * fn("clc", k, n, DSYM), ZERO))
        want = summ(g, ZERO, G.count, summ(n, ZERO, nmax, co * legendre(n, scat(A, [fn("expr", x, DSYM) for x in key]))))
        return [prove_eq("expansion: sum over groups of equal scattering angle parameters", got, want)]
    return Unit(f"C18 {MOD[kind]}.LinComb expansion [weights: {WN[wk]}, angles {angles}]", setup, body, auto=auto_complete, min_obls=1,
                assume=[RESERVED], contracts=["_LinComb.legendre_expansion", "_LinComb.__init__", "_Scatter.calc_scattering_angle"])


MOD = {"V": "volume", "SRF": "surface"}


def units(tier):
    out = []
    for kind in ("V", "SRF"):
        for wk in ("py", "expr", "sym"):
            out.append(value_unit(kind, wk))
            for ang in ("sym",) if tier == "quick" else ("sym", "num"):
                out.append(expansion_unit(kind, wk, ang))
    return out
