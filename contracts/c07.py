"""C07: limiting cases."""
from .cfg import *


def parts(R, args, n):
    r = to_arr(R.calc(**args))
    k = canon(r.length())
    if not isc(k) or cval(k) != n:
        raise Failed("number of results", f"{k}")
    return [r.at(c(i)).t for i in range(n)]


def zero_tau(kind, geo, int_Q):
    """elements with tau == 0 have no volume / interaction contribution, the others are unaffected."""
    def setup():
        return loaded()

    def body(P):
        R = new_model(P, geo, kind, int_Q=int_Q)
        p0 = pdict("P0")
        R.update_params(**p0)
        E = Env().update(p0)
        S = Spec(R.ang, E.env, kind)
        W.assume(Le(ZERO, S.tau))
        got = parts(R, {}, 4 if int_Q else 3)
        z = Eq(S.tau, ZERO)
        want = [ite(z, S.bare(), S.surface()), ite(z, ZERO, S.volume())]
        if int_Q:
            want.append(ite(z, ZERO, S.interaction()))
        out = [prove_eq(f"{n}: closed form for tau > 0, limit for tau == 0", g, w)
               for n, g, w in zip(("surface", "volume", "interaction"), got[1:], want)]
        out.append(prove_eq("total: sum", got[0], add(*want)))
        return out
    return Unit(f"C07 RT1.calc tau = 0 [{kind}, {geo_name(geo)}, int_Q={int_Q}]", setup, body,
                auto=auto_default if kind == "default" else auto_complete,
                contracts=["RT1.calc"], min_obls=3, assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0", "tau >= 0"])


def literal(val, int_Q):
    """a literal zero (integer or float) as tau."""
    def setup():
        return loaded()

    def body(P):
        R = new_model(P, ("bi", ()), "expr", int_Q=int_Q)
        R.tau = val
        p0 = pdict("P0")
        R.update_params(**p0)
        E = Env().update(p0)
        S = Spec(R.ang, E.env, "expr")
        got = parts(R, {}, 4 if int_Q else 3)
        out = [prove_eq("surface", got[1], S.bare()), prove_eq("total", got[0], S.bare()), prove_eq("volume", got[2], ZERO)]
        if int_Q:
            out.append(prove_eq("interaction", got[3], ZERO))
        return out
    return Unit(f"C07 RT1.calc tau = {val!r} [int_Q={int_Q}]", setup, body, auto=auto_complete, contracts=["RT1.calc"], min_obls=3,
                assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0"])


def limits(kind, geo, name, val):
    """bsf = 1, omega = 0, NormBRDF = 0."""
    def setup():
        return loaded()

    def body(P):
        R = new_model(P, geo, kind)
        p0 = pdict("P0")
        R.update_params(**p0)
        E = Env().update(p0)
        S = Spec(R.ang, E.env, kind)
        W.assume(Lt(ZERO, S.tau))
        x = spec_term(name, kind, E.env)
        got = [subst(canon(g), {canon(x): c(val)}) for g in parts(R, {}, 4)]
        bare = subst(canon(S.bare()), {canon(x): c(val)})
        if name == "bsf":
            return [prove_eq("total == bare soil", got[0], bare), prove_eq("surface == bare soil", got[1], bare),
                    prove_eq("volume == 0", got[2], ZERO), prove_eq("interaction == 0", got[3], ZERO)]
        if name == "omega":
            return [prove_eq("volume == 0", got[2], ZERO), prove_eq("interaction == 0", got[3], ZERO), prove_eq("total == surface", got[0], got[1])]
        return [prove_eq("surface == 0", got[1], ZERO), prove_eq("interaction == 0", got[3], ZERO), prove_eq("total == volume", got[0], got[2])]
    return Unit(f"C07 RT1.calc {name} = {val} [{kind}, {geo_name(geo)}]", setup, body,
                auto=auto_complete, contracts=["RT1.calc"], min_obls=3, assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0", "tau > 0"])


def units(tier):
    us = []
    for q in (True, False):
        us += [literal(0, q), literal(0.0, q)]
        for g in GEO_FEW if tier == "quick" else GEO_MAIN:
            for k in ("expr", "default", "py", "np"):
                us.append(zero_tau(k, g, q))
    for n, x in (("bsf", 1), ("omega", 0), ("NormBRDF", 0)):
        for g in GEO_FEW if tier == "quick" else GEO_MAIN:
            for k in ("expr", "py", "np"):
                us.append(limits(k, g, n, x))
    return us
