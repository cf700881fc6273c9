"""C09: the jacobian with respect to any other parameter is the total derivative."""
from .cfg import *
from .c08 import partial, total
import copy

KEY = SStr(v("key", "U"), "key")


def direct(S, sig0, dB):
    """derivative through the distribution functions."""
    S2 = copy.copy(S)
    a, b = v("q:SRF"), v("q:V")
    S2.srf = lambda: a
    S2.vol = lambda: b
    t = total(S2, sig0, dB)
    ang = (S.t0, S.tex, S.p0, S.pex)
    r = ZERO
    for x, n, f in ((a, "SRF", S.srf()), (b, "V", S.vol())):
        r = r + subst(tm.diff(t, x), {a: S.srf(), b: S.vol()}) * fn("d:pf:" + n, v("key", "U"), *ang, S.env)
    return r


def unit(kinds, geo, sig0, dB, extra=(), call=None):
    label = kinds if isinstance(kinds, str) else ",".join(f"{k}:{x}" for k, x in kinds.items())

    def setup():
        return loaded()

    def body(P):
        ks = kinds_of(kinds)
        R = new_model(P, geo, kinds, sig0=sig0, dB=dB)
        p0 = pdict("P0")
        R.update_params(**p0)
        E = Env().update(p0)
        # precondition: the name is a parameter with a value, and none of the four quantities
        for n in QUANT:
            W.assume(Not(ueq(KEY.u, v("'" + n, "U"))))
        W.assume(E.d.has(KEY))
        S = Spec(R.ang, E.env, kinds)
        r = as_seq(R.jacobian(param_list=[KEY] + list(extra)))
        n = canon(r.length())
        out = [holds("number of entries", isc(n) and cval(n) == 1 + len(extra), f"{n}")]
        if out[0].status != "proved":
            return out
        want = direct(S, sig0, dB)
        for q in QUANT:
            if ks[q] == "expr":
                e = v("e:" + q, "U")
                occ = contains_all(NSet([NamesOf(e=e)]), KEY)
                want = want + partial(S, q, sig0, dB) * ite(occ, fn("d:expr", KEY.u, e, E.env), ZERO)
        items = list(r)
        out.append(prove_eq("entry == total derivative", to_arr(items[0]).t, want))
        for i, x in enumerate(extra):
            out.append(prove_eq(f"entry {i + 1} == partial derivative w.r.t. {x}", to_arr(items[i + 1]).t, partial(S, x, sig0, dB)))
        return out
    return Unit(f"C09 RT1.jacobian [{label}, {geo_name(geo)}, sig0={sig0}, dB={dB}]", setup, body,
                auto=auto_complete, contracts=["RT1.jacobian"], min_obls=2,
                assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0", "dB: total > 0", "the distributions are differentiable"])


def units(tier):
    us = []
    q = tier == "quick"
    for sig0 in (False, True):
        for dB in (False, True):
            for g in GEO_FEW if q else GEO_MAIN:
                us.append(unit("expr", g, sig0, dB))
            us.append(unit("np", ("bi", ()), sig0, dB))
            us.append(unit("expr", ("bi", ()), sig0, dB, extra=("tau", "bsf")))
    for n in QUANT:
        us.append(unit({m: "expr" if m == n else "py" for m in QUANT}, ("bi", ()), False, False))
        us.append(unit({m: "expr" if m != n else "np" for m in QUANT}, ("mono", ()), True, True))
    us.append(unit("py", ("bi", ()), True, True))
    return us
