"""C03: the interaction contribution equals the first-order solution."""
from .c01 import grid
from .cfg import *


def small(geo, nv, ns):
    """few coefficients (the general units have N_V + N_SRF - 1 >= 2)."""
    def setup():
        return loaded()

    def body(P):
        R = new_model(P, geo, "expr", V=AbsScatter("V", nv), SRF=AbsScatter("SRF", ns))
        p0 = pdict("P0")
        R.update_params(**p0)
        r = R.interaction()
        S = Spec(R.ang, Env().update(p0).env, "expr")
        S.nmax = c(nv + ns - 1)
        return [prove_eq("interaction() == closed form", to_arr(r).t, S.interaction())]
    return Unit(f"C03 RT1.interaction [{nv} and {ns} coefficients, {geo_name(geo)}]", setup, body, auto=auto_complete,
                contracts=["RT1.interaction"], assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0"])


def units(tier):
    few = [(1, 1), (1, 2), (2, 1)]
    return (grid("C03", "interaction", "interaction", tier)
            + [small(g, *x) for g in GEO_FEW for x in (few[:1] if tier == "quick" else few)])


LEMMAS = ["radial"]
