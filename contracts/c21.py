"""C21: every result element only depends on the corresponding elements of the inputs."""
from .cfg import *

METHODS = ("calc", "surface", "volume", "interaction", "jacobian")
KEY = SStr(v("key", "U"), "key")
NAMES = ["tau", "omega", "NormBRDF", "bsf"]


def one(n):
    return Arr(v(n), SCALAR, "np")


def run(P, method, kind, geo, scalar, sig0, dB, key):
    R = P.RT1(V=AbsScatter("V"), SRF=AbsScatter("SRF"), sig0=sig0, dB=dB, I0=one("I0") if scalar else I0())
    for n in QUANT:
        if kind != "default":
            setattr(R, n, (one(n) if scalar else spec_value(n, "np")) if kind == "np" else spec_value(n, kind))
    if geo == "mono":
        R.set_monostatic()
        R.set_geometry(**{n: one(n) if scalar else angle(n) for n in ("t_0", "p_0")})
        ang, names = (v("t_0"), v("t_0"), v("p_0"), add(v("p_0"), PI)), {"t_0", "p_0"}
    else:
        R.set_bistatic()
        R.set_geometry(**{n: one(n) if scalar else angle(n) for n in ANG})
        ang, names = tuple(v(n) for n in ANG), set(ANG)
    p0 = pdict("P0")
    if scalar:
        p0.val_base = frozenset()
    R.update_params(**p0)
    E = Env().update(p0)
    S = Spec(ang, E.env, kind)
    W.assume(Le(ZERO, S.tau) if method == "calc" else Lt(ZERO, S.tau))
    inputs = names | {"I0", "P0", "D"} | (set(QUANT) if kind == "np" else set())
    if method == "calc":
        r = to_arr(R.calc())
        n = canon(r.length())
        if not isc(n):
            raise Failed("number of results", str(n))
        return [r.at(c(i)) for i in range(int(cval(n)))], inputs
    if method == "jacobian":
        pl = list(NAMES)
        if key:
            for n in QUANT:
                W.assume(Not(ueq(KEY.u, v("'" + n, "U"))))
            W.assume(E.d.has(KEY))
            pl = [KEY]
        return [to_arr(x) for x in list(as_seq(R.jacobian(param_list=pl)))], inputs
    return [to_arr(getattr(R, method)())], inputs


def unit(method, kind, geo, sig0=False, dB=False, key=False):
    def setup():
        return loaded()

    def body(P):
        a, inputs = run(P, method, kind, geo, False, sig0, dB, key)
        b, _ = run(P, method, kind, geo, True, sig0, dB, key)
        out = [holds("same number of results", len(a) == len(b))]
        for i, (x, y) in enumerate(zip(a, b)):
            out.append(prove_eq(f"result {i}: element of the array evaluation == evaluation of the elements", x.t, y.t))
            out.append(holds(f"result {i}: shape broadcasts with the inputs", x.sh.base <= inputs and not x.sh.lead, f"{x.sh}"))
        return out
    return Unit(f"C21 RT1.{method}{'(key)' if key else ''} [{kind}, {geo}, sig0={sig0}, dB={dB}]", setup, body, auto=auto_default if kind == "default" else auto_complete,
                contracts=[f"RT1.{method}"], min_obls=3,
                assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0", "tau >= 0 (calc) / tau > 0"])


def units(tier):
    us = []
    q = tier == "quick"
    for m in METHODS:
        for g in ("mono", "bi"):
            for k in ("expr", "default", "np"):
                us.append(unit(m, k, g))
        for s, d in ((True, False), (True, True)) if q else ((True, False), (True, True), (False, True)):
            us.append(unit(m, "expr", "bi", s, d))
    for g in ("mono", "bi"):
        us.append(unit("jacobian", "expr", g, key=True))
    us.append(unit("jacobian", "expr", "bi", True, True, key=True))
    return us
