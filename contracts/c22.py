"""C22: reciprocity of the contributions."""
from .cfg import *

SWAP = {"t_0": "t_ex", "t_ex": "t_0", "p_0": "p_ex", "p_ex": "p_0"}
METHODS = ("surface", "volume", "interaction", "calc")


def symmetric(t):
    """precondition: the distributions are symmetric under exchange of the directions."""
    m = {}
    for x in walk(t):
        if isinstance(x, T) and x.op == "fn" and x.args[0].startswith("pf:"):
            a, b, p, q = (canon(y) for y in x.args[1:5])
            if (b.key, q.key) < (a.key, p.key):
                m[x] = fn(x.args[0], b, a, q, p, *x.args[5:])
    return subst(t, m)


def values(P, method, kind, fixed, swap):
    R = new_model(P, None, kind)
    nm = SWAP if swap else {n: n for n in ANG}
    fx = [nm[n] for n in fixed]
    R.set_bistatic(**{n: angle(nm[n], True) for n in fx})
    dyn = {n: angle(nm[n]) for n in ANG if n not in fx}
    if dyn:
        R.set_geometry(**dyn)
    p0 = pdict("P0")
    R.update_params(**p0)
    E = Env().update(p0)
    W.assume(Lt(ZERO, Spec((ZERO,) * 4, E.env, kind).tau))
    r = to_arr(getattr(R, method)())
    if method == "calc":
        return [r.at(c(i)).t for i in range(int(cval(canon(r.length()))))]
    return [r.t]


def unit(method, kind, fixed):
    def setup():
        return loaded()

    def body(P):
        a = values(P, method, kind, fixed, False)
        b = values(P, method, kind, fixed, True)
        out = [holds("same number of results", len(a) == len(b))]
        for i, (x, y) in enumerate(zip(a, b)):
            out.append(prove_eq(f"result {i} / cos(theta_0) is symmetric", symmetric(x) / cos(v("t_0")), symmetric(y) / cos(v("t_ex"))))
        return out
    return Unit(f"C22 RT1.{method} [{kind}, {geo_name(('bi', fixed))}]", setup, body, auto=auto_default if kind == "default" else auto_complete,
                contracts=[f"RT1.{method}"], min_obls=2,
                assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0", "tau > 0", "symmetric distribution functions"])


def units(tier):
    us = []
    sets = [(), ANG] if tier == "quick" else [s for g, s in GEO_ALL if g == "bi"]
    for m in METHODS:
        for s in sets:
            us.append(unit(m, "expr", s))
        for k in ("py", "np", "default"):
            us.append(unit(m, k, ()))
        if tier == "quick":
            for s in (("t_0",), ("p_ex",), ("t_0", "p_0")):
                us.append(unit(m, "expr", s))
    return us
