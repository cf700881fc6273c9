"""C04: the coefficients of the interaction term represent the azimuth integral of the product of the expansions.

Arbitrary numbers of coefficients: the code runs on a generic monomial of the product of both expansions,
  c(a,p,q) cos(ths)^a sin(ths)^(p+q) sin(phs)^p cos(phs)^q,  a + p + q <= N_V + N_SRF - 2
(multinomial theorem for (A cos(ths) + sin(ths) (B cos(phs) + C sin(phs)))^k, lemma `product` in lemmas/azimuth.lean)."""
from .cfg import *
from pyvc import poly
from pyvc.poly import GPoly, Term, THS, PHS
from pyvc.model import XExp

LEMMAS = ["azimuth"]
CT, ST, CP, SP = poly.ATOMS
A, Pp, Qq = (v(n, "I") for n in ("a", "p", "q"))
N = canon(add(v("N_V", "I"), v("N_SRF", "I")))


class GExp(XExp):
    """product of the Legendre expansions; expanding it gives the generic monomial."""

    def _mul(self, o):
        r = XExp._mul(self, o)
        return GExp(r.scale, r.parts)

    __mul__ = __rmul__ = _mul

    def expand(self, *a, **k):
        p = {x[0]: x[1:] for x in self.parts}
        if set(p) != {"V", "SRF"} or len(self.parts) != 2:
            if len(self.parts) == 1:
                return self
            raise Failed("interaction-expansion", "the product of both expansions is required")
        (a_, b_, c_, d_), (e, f, g, h) = p["V"], p["SRF"]
        if not (b_ is THS and d_ is PHS and e is THS and g is PHS):
            raise Failed("interaction-expansion", f"the intermediate direction is not used correctly: {self.parts}")
        for x in (a_, c_, f, h):
            if poly.has_atom(x):
                raise Failed("interaction-expansion", "the outer directions depend on the intermediate one")
        self.seen.append((a_, c_, f, h))
        bounds()
        co = mul(self.scale, fn("prod", A, Pp, Qq, canon(a_), canon(c_), canon(f), canon(h)))
        return GPoly([Term(co, {CT: A, ST: canon(add(Pp, Qq)), SP: Pp, CP: Qq})])

    seen = []


class Dist(AbsScatter):
    def legendre_expansion(self, t_0, t_ex, p_0, p_ex):
        return GExp(ONE, ((self.kind, se(t_0), se(t_ex), se(p_0), se(p_ex)),))


def even(x):
    return Eq(poly.mod2(x), ZERO)


def cav(i):
    """average of cos^i over (0, 2 pi) (lemma cos_avg)."""
    return mul(power(c(2), neg(i)), fn("binom", i, mul(c(Q(1, 2)), i)))


def avg(p, q):
    """average of sin^p cos^q over (0, 2 pi) (lemmas sin_odd, sin_even); p, q: parities known on the path."""
    if not W.decide(even(p)) or not W.decide(even(q)):
        return ZERO
    k = fresh("k", "I")
    m = canon(mul(c(Q(1, 2)), p))
    return summ(k, ZERO, canon(add(m, ONE)), mul(fn("binom", m, k), power(c(-1), k), cav(canon(add(q, mul(c(2), k))))))


def sin_power(b):
    """sin(ths)^b = (1 - cos(ths)^2)^(b/2) = sum of cos(ths)^(2k) ... as a polynomial in cos(ths)."""
    k = fresh("k", "I")
    m = canon(mul(c(Q(1, 2)), b))
    return summ(k, ZERO, canon(add(m, ONE)), mul(fn("binom", m, k), power(c(-1), k), power(CT, mul(c(2), k))))


def product():
    return GPoly([Term(v("co"), {CT: A, ST: canon(add(Pp, Qq)), SP: Pp, CP: Qq})])


def bounds():
    for x in (A, Pp, Qq):
        W.assume(Le(ZERO, x))
    W.assume(Le(add(A, Pp, Qq), add(N, c(-2))))
    for x in (Pp, Qq):      # case split
        if not W.decide(Eq(x, ZERO)):
            W.decide(even(x))


def resolve(t):
    return canon(subst(t, {x: ZERO for x in (Pp, Qq) if Eq(x, ZERO) in W.pc}))


def val(x):
    return x.value() if isinstance(x, GPoly) else se(x)


def model(P, backend, geo=("bi", ())):
    import sys
    P.L.mods["rt1_model"].set_lambda_backend(backend)
    R = P.RT1(V=Dist("V"), SRF=Dist("SRF"))
    geometry(R, *geo)
    return R


def unit_integrate(backend):
    def body(P):
        R = model(P, backend)
        bounds()
        r = R._integrate_0_2pi_phis(product())
        spec = mul(v("co"), power(CT, A), power(ST, add(Pp, Qq)), avg(Pp, Qq))
        return [prove_eq("average over the azimuth angle of a monomial", resolve(val(r)), resolve(spec)),
                holds("no azimuth angle is left", PHS not in vars_of(val(r)), str(val(r)))]
    return Unit(f"C04 RT1._integrate_0_2pi_phis [generic monomial, {backend}]", lambda: loaded(("lambdify",)), body,
                contracts=["RT1._integrate_0_2pi_phis", "RT1._cosintegral"], min_obls=4, assume=ASS)


def unit_expansion(backend, geo):
    def body(P):
        GExp.seen.clear()
        R = model(P, backend, geo)
        r = R._calc_interaction_expansion()
        out = [holds("the product of both expansions is integrated", len(GExp.seen) == 1, str(GExp.seen))]
        a_, c_, f, h = GExp.seen[0] if GExp.seen else (ZERO,) * 4
        t0, tex, p0, pex = angles_of(geo)
        for n, x, y in (("pi - theta_0", a_, add(PI, neg(t0))), ("phi_0", c_, p0), ("theta_ex", f, tex), ("phi_ex", h, pex)):
            out.append(prove_eq(f"the expansions are evaluated at {n}", x, y))
        co = mul(c(2), PI, fn("prod", A, Pp, Qq, canon(a_), canon(c_), canon(f), canon(h)))
        w = avg(Pp, Qq)
        spec = ZERO if w is ZERO else mul(co, power(CT, A), w, sin_power(canon(add(Pp, Qq))))
        got = resolve(val(r))
        out.append(prove_eq("polynomial in cos(theta_s) of the average of a monomial", got, resolve(spec)))
        out.append(holds("only cos(theta_s) is left", not any(x in (PHS,) or x is sin(THS) for x in walk(canon(got))), str(got)))
        out.append(holds("the result is expanded", not isinstance(r, GPoly) or r.expanded))
        return out
    return Unit(f"C04 RT1._calc_interaction_expansion [generic monomial, {geo_name(geo)}, {backend}]", lambda: loaded(("lambdify",)), body,
                contracts=["RT1._calc_interaction_expansion", "RT1._integrate_0_2pi_phis", "RT1._cosintegral"], min_obls=8, assume=ASS)


def angles_of(geo):
    t0, tex, p0, pex = (v("s:theta_0"), v("s:theta_ex"), v("s:phi_0"), v("s:phi_ex"))
    d = dict(zip(ANG, (t0, tex, p0, pex)))
    for n in geo[1]:
        d[n] = v(n)
    if geo[0] == "mono":
        return d["t_0"], d["t_0"], d["p_0"], add(d["p_0"], PI)
    return d["t_0"], d["t_ex"], d["p_0"], d["p_ex"]


def unit_extract():
    def body(P):
        R = model(P, "sympy")
        m = fresh("m", "I")
        nf = canon(add(N, c(-1)))
        r = R._extract_coefficients(GPoly([Term(fn("h", m), {CT: m}, [(m, nf)])]))
        segs = as_seq(r).segs
        out = []
        pos = ZERO
        for s in segs:
            if s[0] == "one":
                inside = W.decide(Lt(pos, nf))
                out.append(prove_eq(f"coefficient {pos}", val(s[1]), fn("h", pos) if inside else ZERO))
                pos = canon(add(pos, ONE))
            elif s[0] == "gen":
                n, k, x = s[1:4]
                ix = canon(add(pos, k))
                out.append(prove_eq(f"coefficient n >= {pos}", val(x), fn("h", ix), pc=list(W.pc) + [Le(ZERO, k), Lt(k, n)]))
                pos = canon(add(pos, n))
            else:
                raise Unsupported("list of coefficients")
        out.append(prove("there is a coefficient for each power", Le(nf, pos)))
        out.append(prove("no further coefficients (besides a zero)", Le(pos, add(nf, ONE))))
        return out
    return Unit("C04 RT1._extract_coefficients [any polynomial in cos(theta_s)]", lambda: loaded(("lambdify",)), body,
                contracts=["RT1._extract_coefficients"], min_obls=4, assume=ASS)


ASS = ["sympy/symengine: an expanded product of the expansions is the sum of its monomials; xreplace acts on every monomial (power first, then base)"]


def units(tier):
    geos = [("mono", ()), ("mono", ("p_0",)), ("bi", ()), ("bi", ANG)] if tier == "quick" else GEO_ALL
    return ([unit_integrate(b) for b in ("sympy", "symengine")] + [unit_expansion(b, g) for b in ("sympy", "symengine") for g in geos]
            + [unit_extract()])
