"""Configurations of the model that the units quantify over, and the terms of the specifications."""
from itertools import combinations

from pyvc.terms import *
from pyvc import terms as tm
from pyvc import core
from pyvc.core import W, Unsupported, Failed
from pyvc.values import *
from pyvc import model as M
from pyvc.model import Pkg, AbsScatter, geometry, pdict, spec_value, spec_term, angle, base_assumptions, ANG
from pyvc.prove import Obl, prove, prove_eq, holds
from pyvc.unit import Unit

QUANT = ("tau", "omega", "NormBRDF", "bsf")

GEO_FEW = [("mono", ()), ("bi", ())]
GEO_MAIN = [("mono", ()), ("mono", ("p_0",)), ("bi", ())] + [("bi", (a,)) for a in ANG] + [("bi", ANG)]
GEO_ALL = [("mono", ()), ("mono", ("p_0",))] + [("bi", s) for n in range(5) for s in combinations(ANG, n)]


def geo_name(g):
    return g[0] + ("[" + ",".join(g[1]) + " fixed]" if g[1] else "")


class Ctx:
    pass


def loaded(contracts=("lambdify", "interaction"), geo=None, pos=(), **kw):
    """loads the package; preconditions: ncoefs >= 1, zenith angles in (0, pi/2), I0 > 0, further positive variables."""
    base_assumptions()
    for n in ("t_0", "t_ex"):
        W.assumptions.append(Lt(ZERO, cos(v(n))))
        W.assumptions.append(Lt(cos(v(n)), ONE))
    for n in ("I0",) + tuple(pos):
        W.assumptions.append(Lt(ZERO, v(n)))
    P = Pkg(contracts=contracts, **kw)
    P.files = P.L.files
    return P


def auto_complete(f):
    """precondition: all parameters have values; expressions are not just the name 'bsf'."""
    if f.op == "pred":
        if f.args[0] == "covered":
            return True
        if f.args[0].startswith("streq:bsf") and f.args[1].op == "v" and f.args[1].args[0].startswith("e:"):
            return False
    return None


def auto_default(f):
    """additionally: the default names are parameters."""
    if f.op == "pred":
        if f.args[0] == "in" and f.args[1].op == "v" and f.args[1].args[0] in ("'tau", "'omega", "'NormBRDF"):
            return True
        if f.args[0] == "subset":
            return False
    return auto_complete(f)


COMPLETE = "all required parameter values are set"


def I0():
    return Arr(v("I0"), Shape((), frozenset({"I0"})), "np")


def new_model(P, geo=("bi", ()), kinds="expr", sig0=False, dB=False, int_Q=True, V=None, SRF=None, i0=None):
    """a model with arbitrary distributions; kinds: kind of definition of tau, omega, NormBRDF, bsf."""
    R = P.RT1(V=V or AbsScatter("V"), SRF=SRF or AbsScatter("SRF"), int_Q=int_Q, sig0=sig0, dB=dB, I0=i0 or I0())
    set_quant(R, kinds)
    if geo is not None:
        R.ang = geometry(R, *geo)
    return R


def kinds_of(kinds):
    return dict(zip(QUANT, [kinds] * 4)) if isinstance(kinds, str) else kinds


def set_quant(R, kinds):
    for n, k in kinds_of(kinds).items():
        if k != "default":
            setattr(R, n, spec_value(n, k))


class Env:
    """specification of param_dict: {bsf: 0} updated by every call."""

    def __init__(self):
        self.d = PDict(fn("env"), ())
        self.d["bsf"] = 0

    def update(self, d):
        if isinstance(d, PDict) and any(x[0] == "base" for x in d.order):
            W.decide(subset(d, self.d))      # (case split)
        self.d.update(d)
        return self

    @property
    def env(self):
        return self.d.env


class Spec:
    """closed forms of the first-order solution at the angles ang = (t0, tex, p0, pex)."""

    def __init__(self, ang, env, kinds):
        self.t0, self.tex, self.p0, self.pex = ang
        self.env = env
        self.mu0, self.muex = cos(self.t0), cos(self.tex)
        k = kinds_of(kinds)
        self.tau, self.omega, self.N, self.bsf = (spec_term(n, k[n], env) for n in QUANT)
        self.I0 = v("I0")

    def exch(self):
        import copy
        s = copy.copy(self)
        s.t0, s.tex, s.p0, s.pex = self.tex, self.t0, self.pex, self.p0
        s.mu0, s.muex = self.muex, self.mu0
        return s

    def srf(self):
        return fn("pf:SRF", self.t0, self.tex, self.p0, self.pex, self.env)

    def vol(self):
        return fn("pf:V", self.t0, self.tex, self.p0, self.pex, self.env)

    def gamma(self):
        return exp(-self.tau / self.mu0 - self.tau / self.muex)

    def bare(self):
        return self.I0 * self.mu0 * self.N * self.srf()

    def surface(self):
        return self.bare() * ((1 - self.bsf) * self.gamma() + self.bsf)

    def volume(self):
        return (1 - self.bsf) * self.I0 * self.omega * self.mu0 / (self.mu0 + self.muex) * (1 - self.gamma()) * self.vol()

    def F(self, nmax):
        """sum over n of f_n * integral over (0, 1) of x^(n+1) (exp(-tau/mu0) - exp(-tau/x)) / (mu0 - x)."""
        k = fresh("n", "I")
        return summ(k, ZERO, nmax, fn("f", k, self.t0, self.p0, self.tex, self.pex, self.env) * radial(k, self.mu0, self.tau))

    def interaction(self):
        nmax = getattr(self, "nmax", None) or v("N_V", "I") + v("N_SRF", "I") - 1
        return (self.N * (1 - self.bsf) * self.I0 * self.omega * self.mu0
                * (exp(-self.tau / self.muex) * self.F(nmax) + exp(-self.tau / self.mu0) * self.exch().F(nmax)))


def radial(n, mu, tau):
    """closed form of the radial integral (lemma radial_integral, proved in Rocq: lemmas/radial.lean)."""
    k = fresh("k", "I")
    s = summ(k, ZERO, n + 1, mu ** (-(k + 1)) * (fn("expn", k + 2, tau) - exp(-tau / mu) / (k + 1)))
    ei = exp(-tau / mu) * (log(mu) - log(1 - mu) + fn("expi", tau / mu - tau)) - fn("expi", -tau)
    return mu ** (n + 1) * (s + ei)


def sigma_norm(S, sig0):
    return 4 * PI * S.mu0 / S.I0 if sig0 else ONE


def to_db(x):
    return 10 * log(x) / log(c(10))


def convert(x, S, sig0, dB):
    r = x * sigma_norm(S, sig0)
    return to_db(r) if dB else r
