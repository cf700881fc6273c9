"""C01-C03: the contributions equal their closed forms."""
from .cfg import *

KINDS = ["expr", "default", "py", "np"]


def contribution(pid, method, spec, kind, geo, call):
    def setup():
        return loaded()

    def body(P):
        R = new_model(P, geo, kind)
        E = Env()
        p0, p1 = pdict("P0"), pdict("P1")
        if call == "update":
            R.update_params(**p0)
            r = getattr(R, method)()
            E.update(p0)
        else:
            R.update_params(**p0)
            r = getattr(R, method)(**p1)
            E.update(p0).update(p1)
        S = Spec(R.ang, E.env, kind)
        return [prove_eq(f"{method}() == closed form", to_arr(r).t, getattr(S, spec)())]
    return Unit(f"{pid} RT1.{method} [{kind}, {geo_name(geo)}, {call}]", setup, body, auto=auto_default if kind == "default" else auto_complete,
                contracts=[f"RT1.{method}"], assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0"])


def grid(pid, method, spec, tier):
    us = [contribution(pid, method, spec, "expr", g, "update") for g in (GEO_MAIN if tier == "quick" else GEO_ALL)]
    us += [contribution(pid, method, spec, k, g, "update") for k in KINDS[1:] for g in (GEO_FEW[1:] if tier == "quick" else GEO_MAIN)]
    us += [contribution(pid, method, spec, k, ("bi", ()), "argument") for k in (["expr"] if tier == "quick" else KINDS)]
    return us


def units(tier):
    return grid("C01", "surface", "surface", tier)
