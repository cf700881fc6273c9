"""C11: model quantities resolve to the current parameter values; missing values are reported."""
import re

from .cfg import *
from pyvc.core import Stop
from pyvc.values import NSet, contains_all, insym

KEY = SStr(v("key", "U"), "key")
HOW = ("update_params", "calc", "surface", "volume", "interaction")


def values_unit(kind, hows, switches=()):
    """after the given updates, the quantities are the assigned ones at the current values."""
    def body(P):
        R = new_model(P, ("bi", ()), kind)
        E = Env()
        for i, h in enumerate(hows):
            p = pdict(f"P{i}")
            if i == 0:
                for n in QUANT[:3]:
                    if kinds_of(kind)[n] == "default":
                        W.assume(p.has(n))
            if h != "update_params":
                E2 = Env()
                E2.d = E.d.copy()
                W.assume(Lt(ZERO, spec_term("tau", kinds_of(kind)["tau"], E2.update(p).env)))
            getattr(R, h)(**p)
            E.update(p)
        out = []
        for n in QUANT:
            out.append(prove_eq(f"{n} after {', '.join(hows)}", to_arr(getattr(R, n)).t, spec_term(n, kinds_of(kind)[n], E.env)))
        out.append(prove_eq("param_dict holds the values passed", fn("get", R.param_dict.env, v("any", "U")), fn("get", E.env, v("any", "U"))))
        return out
    return Unit(f"C11 tau, omega, NormBRDF, bsf [{kind}] after {', '.join(hows)}", loaded, body,
                auto=auto_default if kind == "default" else auto_complete, min_obls=5,
                contracts=["RT1.tau", "RT1.omega", "RT1.NormBRDF", "RT1.bsf", "RT1.update_params", "RT1.param_dict"], assume=[COMPLETE])


def reassign_unit(k1, k2, evaluated):
    """a quantity is assigned again (with other definitions in between)."""
    def body(P):
        R = new_model(P, ("bi", ()), k1)
        E = Env()
        p = pdict("P0")
        R.update_params(**p)
        E.update(p)
        if evaluated:
            for n in QUANT:
                getattr(R, n)
        out = []
        new = {}
        for n in QUANT:
            x = v("e:new " + n, "U") if k2 == "expr" else v("new " + n)
            setattr(R, n, SStr(x, "expr") if k2 == "expr" else Arr(x, SCALAR, k2) if k2 == "py" else Arr(x, Shape((), frozenset({"new " + n})), "np"))
            new[n] = fn("expr", x, E.env) if k2 == "expr" else x
            for m in QUANT:
                want = new[m] if m in new else spec_term(m, kinds_of(k1)[m], E.env)
                out.append(prove_eq(f"{m} after assigning {', '.join(new)}", to_arr(getattr(R, m)).t, want))
        return out
    return Unit(f"C11 definitions changed from {k1} to {k2}{' (evaluated before)' if evaluated else ''}", loaded, body,
                auto=auto_default if k1 == "default" else auto_complete, min_obls=16,
                contracts=["RT1.tau", "RT1.omega", "RT1.NormBRDF", "RT1.bsf"], assume=[COMPLETE])


def own_names_unit(n):
    """only the parameters named by the expression are required."""
    def body(P):
        R = new_model(P, ("bi", ()), "expr")
        E = Env()
        p = pdict("P0")
        R.update_params(**p)
        E.update(p)
        return [prove_eq(f"{n} with nothing else specified", to_arr(getattr(R, n)).t, spec_term(n, "expr", E.env))]

    def auto(f):
        if f.op == "pred" and f.args[0] == "covered":
            return f.args[1] is v("e:" + n, "U")
        return auto_complete(f)
    return Unit(f"C11 {n} only requires the parameters it names", loaded, body, auto=auto, contracts=[f"RT1.{n}"], assume=["the parameters named are set"])


def no_symbols_unit(n):
    """texts without symbols."""
    def body(P):
        R = new_model(P, ("bi", ()), "expr")
        return [prove_eq(f"{n} before any parameter is set", to_arr(getattr(R, n)).t, spec_term(n, "expr", Env().env))]
    return Unit(f"C11 {n} does not require an update of the parameters", loaded, body, auto=auto_complete, contracts=[f"RT1.{n}"], assume=["the parameters named are set"])


def bsf_unit(how):
    def body(P):
        R = new_model(P, ("bi", ()), "default")
        if how == "new":
            return [prove_eq("bsf of a new model", to_arr(R.bsf).t, ZERO)]
        p = pdict("P0")
        if how == "set":
            E = Env().update(p)
            R.update_params(**p)
            W.assume(p.has("bsf"))
            return [prove_eq("bsf set", to_arr(R.bsf).t, env_get(p.env, v("'bsf", "U")))]
        W.assume(Not(p.has("bsf")))
        R.update_params(**p)
        return [prove_eq("bsf not set", to_arr(R.bsf).t, ZERO)]
    return Unit(f"C11 default of bsf [{how}]", loaded, body, auto=auto_complete, contracts=["RT1.bsf", "RT1.update_params"])


def shown_in(msg):
    """the sets of names that occur in a text."""
    return [NSet.SHOWN[int(i)] for i in re.findall(r"<set #(\d+):", msg)]


def missing_unit(which, kind, geo, int_Q, call):
    """a full evaluation with a missing value raises a TypeError that names it."""
    def body(P):
        NSet.SHOWN.clear()
        R = new_model(P, geo, kind, int_Q=int_Q)
        p = pdict("P0")
        E = Env().update(p)
        if which in QUANT and kinds_of(kind)[which] == "default":
            name, u = which, v("'" + which, "U")
            W.assume(Not(E.d.has(name)))
        else:
            e = v("e:" + which, "U") if which in QUANT else v("names:pf:" + which, "U")
            name, u = KEY, KEY.u
            for x in ("tau", "omega", "NormBRDF", "bsf", "theta_0", "theta_ex", "phi_0", "phi_ex"):
                W.assume(Not(ueq(u, v("'" + x, "U"))))
            W.assume(insym(u, e))
            W.assume(Not(p.has(KEY)))
        if call == "update":
            R.update_params(**p)
            p = {}
        try:
            R.calc(**p)
        except Stop:
            raise
        except Exception as ex:
            ok = holds("a TypeError is raised", isinstance(ex, TypeError), f"{type(ex).__name__}: {ex}")
            msg = str(ex)
            if isinstance(name, str) and re.search(rf"(?<![\w]){name}(?![\w])", re.sub(r"<set #.*", "", msg)):
                return [ok, holds("the missing parameter is named", True)]
            if str(KEY) in re.sub(r"<set #.*", "", msg):
                return [ok, holds("the missing parameter is named", True)]
            named = Or(*[contains_all(s, name) for s in shown_in(msg)])
            return [ok, prove("the missing parameter is named", named, detail=msg[:300])]
        return [holds("an error is raised", False, "the evaluation returned")]

    def auto(f):
        if f.op == "pred" and f.args[0] == "covered":
            e = f.args[1].args[0] if f.args[1].op == "v" else ""
            if e in ("e:" + which, "names:pf:" + which):
                return False
            return None
        if f.op == "pred" and f.args[0] == "subset":
            return False
        return auto_complete(f) if f.op == "pred" and f.args[0].startswith("streq:bsf") else None
    return Unit(f"C11 missing value of {which} [{kind if isinstance(kind, str) else 'mixed'}, {geo_name(geo)}, int_Q={int_Q}, {call}]", loaded, body, auto=auto,
                contracts=["RT1.calc"], min_obls=2)


def units(tier):
    us = []
    for k in ("expr", "default", "py", "np"):
        for h in HOW:
            us.append(values_unit(k, ("update_params", h)))
        us.append(values_unit(k, ("update_params",)))
    us.append(values_unit("expr", ("update_params", "calc", "surface", "update_params")))
    for k1 in ("expr", "default", "py"):
        for k2 in ("expr", "py", "np"):
            us.append(reassign_unit(k1, k2, True))
    us += [own_names_unit(n) for n in QUANT] + [no_symbols_unit(n) for n in QUANT] + [bsf_unit(h) for h in ("new", "set", "not set")]
    geos = [("bi", ()), ("mono", ())] if tier == "quick" else GEO_MAIN
    for g in geos:
        for q in (True, False):
            for w in QUANT + ("V", "SRF"):
                for call in ("update", "argument") if tier != "quick" or (g == geos[0] and q) else ("update",):
                    us.append(missing_unit(w, "expr", g, q, call))
            for w in QUANT[:3]:
                us.append(missing_unit(w, "default", g, q, "update"))
    return us
