"""C06: sigma0 / dB results are the conversions of the linear intensities."""
from .cfg import *

UNITS = [(s, d) for s in (False, True) for d in (False, True)]


def evaluate(P, method, geo, kind, sig0, dB, call):
    R = new_model(P, geo, kind, sig0=sig0, dB=dB, int_Q=method != "calc-noint")
    p0 = pdict("P0")
    R.update_params(**p0)
    E = Env().update(p0)
    args = {}
    if call == "argument":
        args = pdict("P1")
        E.update(args)
    S = Spec(R.ang, E.env, kind)
    W.assume(Lt(ZERO, S.tau))
    f = R.calc if method.startswith("calc") else getattr(R, method)
    r = to_arr(f(**args))
    if method.startswith("calc"):
        n = canon(r.length())
        return S, [r.at(c(i)).t for i in range(int(cval(n)))]
    return S, [r.t]


def unit(method, geo, kind, call="update"):
    def setup():
        return loaded()

    def body(P):
        S, lin = evaluate(P, method, geo, kind, False, False, call)
        out = []
        for sig0, dB in UNITS:
            S, got = evaluate(P, method, geo, kind, sig0, dB, call)
            out.append(holds(f"sig0={sig0} dB={dB}: number of results", len(got) == len(lin)))
            for i, (a, b) in enumerate(zip(got, lin)):
                out.append(prove_eq(f"sig0={sig0} dB={dB}: result {i} is the conversion of the linear intensity", a, convert(b, S, sig0, dB)))
                if sig0:
                    out.append(prove_eq(f"sig0={sig0} dB={dB}: result {i} does not depend on I0", a, subst(a, {v("I0"): v("I0b")})))
        return out
    return Unit(f"C06 RT1.{method} [{kind}, {geo_name(geo)}, {call}]", setup, body, auto=auto_default if kind == "default" else auto_complete,
                contracts=["RT1._convert_sig0_db", f"RT1.{method.split('-')[0]}"], assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0", "tau > 0"])


def units(tier):
    us = []
    for m in ("surface", "volume", "interaction", "calc", "calc-noint"):
        for g in (GEO_FEW if tier == "quick" else GEO_MAIN):
            us.append(unit(m, g, "expr"))
        for k in ("py", "np", "default"):
            us.append(unit(m, ("bi", ()), k))
        us.append(unit(m, ("bi", ()), "expr", "argument"))
    return us
