"""C08: the jacobian with respect to tau, omega, NormBRDF and bsf."""
from .cfg import *

LISTS = [None, ["omega", "tau", "NormBRDF", "bsf"], ["bsf", "NormBRDF", "tau", "omega"], ["tau", "bsf", "omega", "NormBRDF", "tau"],
         ["tau"], ["omega"], ["NormBRDF"], ["bsf"], []]


def total(S, sig0, dB):
    return convert(S.surface() + S.volume(), S, sig0, dB)


def partial(S, name, sig0, dB):
    """partial derivative of the total (surface + volume) in the selected units."""
    import copy
    attr = "N" if name == "NormBRDF" else name
    x = v("q:" + name)
    S2 = copy.copy(S)
    val = getattr(S, attr)
    setattr(S2, attr, x)
    return subst(tm.diff(total(S2, sig0, dB), x), {x: val})


def unit(kind, geo, sig0, dB, lists, int_Q=True):
    def setup():
        return loaded()

    def body(P):
        out = []
        for pl in lists:
            R = new_model(P, geo, kind, sig0=sig0, dB=dB, int_Q=int_Q)
            p0 = pdict("P0")
            R.update_params(**p0)
            E = Env().update(p0)
            S = Spec(R.ang, E.env, kind)
            names = pl if pl is not None else ["omega", "tau", "NormBRDF"]
            r = as_seq(R.jacobian() if pl is None else R.jacobian(param_list=list(pl)))
            n = canon(r.length())
            out.append(holds(f"{pl}: number of entries", isc(n) and cval(n) == len(names), f"{n}"))
            if out[-1].status != "proved":
                continue
            for i, name in enumerate(names):
                out.append(prove_eq(f"{pl}: entry {i} == d total / d {name}", to_arr(list(r)[i]).t, partial(S, name, sig0, dB)))
        return out
    return Unit(f"C08 RT1.jacobian [{kind}, {geo_name(geo)}, sig0={sig0}, dB={dB}, int_Q={int_Q}]", setup, body,
                auto=auto_default if kind == "default" else auto_complete,
                contracts=["RT1.jacobian"], min_obls=len(lists), assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0", "dB: total > 0"])


def units(tier):
    us = []
    q = tier == "quick"
    for sig0 in (False, True):
        for dB in (False, True):
            for g in GEO_FEW if q else GEO_MAIN:
                us.append(unit("expr", g, sig0, dB, LISTS))
            for k in ("default", "py", "np"):
                us.append(unit(k, ("bi", ()), sig0, dB, LISTS[:2] if q else LISTS))
            us.append(unit("expr", ("bi", ()), sig0, dB, LISTS[:2], int_Q=False))
    return us
