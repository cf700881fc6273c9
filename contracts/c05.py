"""C05: the full evaluation consists of the single contributions and their sum."""
from .cfg import *


def unit(kind, geo, int_Q, sig0=False, dB=False, call="update", loose=False):
    def setup():
        import pyvc.values as vals
        vals._LOOSE[0] = loose
        return loaded()

    def model(P, call=call):
        R = new_model(P, geo, kind, sig0=sig0, dB=dB, int_Q=int_Q)
        p0, p1 = pdict("P0"), pdict("P1")
        R.update_params(**p0)
        E = Env().update(p0)
        if call == "argument":
            E.update(p1)
        return R, (p1 if call == "argument" else {}), E

    def body(P):
        R, args, E = model(P)
        S = Spec(R.ang, E.env, kind)
        W.assume(Lt(ZERO, S.tau))
        r = to_arr(R.calc(**args))
        names = ["surface", "volume"] + (["interaction"] if int_Q else [])
        out = [prove("number of results", Eq(r.length(), c(len(names) + 1)))]
        if out[0].status != "proved":
            return out
        parts = [r.at(c(i)).t for i in range(len(names) + 1)]
        if not dB:
            out.append(prove_eq("total == sum of the contributions", parts[0], add(*parts[1:])))
        bases = []
        for i, n in enumerate(names):
            R2, args, _ = model(P)
            x = to_arr(getattr(R2, n)(**args))
            bases.append(x.sh)
            out.append(prove_eq(f"entry {i + 1} == {n}()", parts[i + 1], x.t))
            # a second evaluation of the same model object
            x = to_arr(getattr(R, n)(**(args if call == "argument" else {})))
            out.append(prove_eq(f"entry {i + 1} == {n}() after calc()", parts[i + 1], x.t))
        _, sh = broadcast([(ZERO, b) for b in bases])
        out.append(holds("all entries have the common broadcast shape", len(r.sh.lead) == 1 and r.sh.base == sh.base, f"{r.sh} / {sh}"))
        return out
    return Unit(f"C05 RT1.calc [{kind}, {geo_name(geo)}, int_Q={int_Q}, sig0={sig0}, dB={dB}, {call}{', constants not broadcast' if loose else ''}]",
                setup, body, auto=auto_default if kind == "default" else auto_complete,
                contracts=["RT1.calc"], assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0", "tau > 0"])


def units(tier):
    us = []
    geos = GEO_FEW if tier == "quick" else GEO_MAIN
    for q in (True, False):
        for k in ("expr", "default", "py", "np"):
            for g in geos if k == "expr" else [("bi", ())] if tier == "quick" else GEO_FEW:
                us.append(unit(k, g, q))
        us.append(unit("expr", ("bi", ()), q, call="argument"))
        us.append(unit("expr", ("bi", ()), q, loose=True))
        us.append(unit("default", ("mono", ()), q, loose=True))
        us.append(unit("expr", ("bi", ()), q, sig0=True))
        us.append(unit("expr", ("bi", ()), q, sig0=True, dB=True))
    return us
