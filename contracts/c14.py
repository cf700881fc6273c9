"""C14: equivalent specifications of the geometry give equal results."""
from .cfg import *

METHODS = ("surface", "volume", "interaction", "calc")


def values(P, method, kind, geo, pos=()):
    R = new_model(P, None, kind)
    if geo == "mono-as-bi":
        R.set_bistatic()
        R.set_geometry(t_0=angle("t_0"), p_0=angle("p_0"), t_ex=angle("t_0"), p_ex=Arr(add(v("p_0"), PI), Shape((), frozenset({"p_0"})), "np"))
    else:
        geometry(R, *geo)
    p0 = pdict("P0")
    R.update_params(**p0)
    E = Env().update(p0)
    W.assume(Lt(ZERO, Spec((ZERO,) * 4, E.env, kind).tau))
    r = to_arr(getattr(R, method)())
    if method == "calc":
        return [r.at(c(i)).t for i in range(int(cval(canon(r.length()))))]
    return [r.t]


def unit(method, kind, g1, g2):
    def setup():
        return loaded()

    def body(P):
        a = values(P, method, kind, g1)
        b = values(P, method, kind, g2)
        out = [holds("same number of results", len(a) == len(b))]
        for i, (x, y) in enumerate(zip(a, b)):
            out.append(prove_eq(f"result {i} is equal", x, y))
        return out
    n = [g if isinstance(g, str) else geo_name(g) for g in (g1, g2)]
    return Unit(f"C14 RT1.{method} [{kind}, {n[0]} == {n[1]}]", setup, body, auto=auto_default if kind == "default" else auto_complete,
                contracts=[f"RT1.{method}", "RT1.set_bistatic", "RT1.set_monostatic"], min_obls=2,
                assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0", "tau > 0",
                        "distributions are 2 pi periodic in the azimuth angles and invariant under a common shift by pi"])


def units(tier):
    us = []
    subs = [s for n in range(1, 5) for s in combinations(ANG, n)]
    for m in METHODS:
        us.append(unit(m, "expr", ("mono", ()), "mono-as-bi"))
        us.append(unit(m, "expr", ("mono", ("p_0",)), ("mono", ())))
        for s in subs if tier != "quick" or m == "interaction" else [subs[0], subs[3], subs[-1]]:
            us.append(unit(m, "expr", ("bi", s), ("bi", ())))
        for k in ("py", "np", "default") if tier != "quick" else ("np",):
            us.append(unit(m, k, ("mono", ()), "mono-as-bi"))
            us.append(unit(m, k, ("bi", ANG), ("bi", ())))
    return us
