"""C23: hemispherical reflectance.

simps is under contract: over samples at equidistant positions it is spacing * sum of weight(index, number) * value (the weights
are uninterpreted: whatever Simpson's rule uses, also for even numbers of points)."""
from .cfg import *
from pyvc import runtime as rt

N, PH = v("simps_N", "I"), v("phi_0")
LO, HI, STEP = v("t_0_min"), v("t_0_max"), v("t_0_step")


def setup():
    P = loaded(no_plot=False)
    P.files = P.L.files
    return P


def reflectance(pf, norm, lo, hi, st, ph, n, env, swap=False):
    """(number of incidence angles, index, value)"""
    k, i, j = fresh("k", "I"), fresh("i", "I"), fresh("j", "I")
    th0 = (lo + k * st) * PI / 180
    hx, hy = PI / 2 / (n - 1), 2 * PI / (n - 1)
    th, phi = i * hx, j * hy
    w = lambda q: fn("w:simpson", q, n)
    f = fn(pf, th0, th, ph, phi, env) * sin(th) * cos(th)
    if swap:
        s = summ(j, ZERO, n, w(j) * summ(i, ZERO, n, w(i) * f))
    else:
        s = summ(i, ZERO, n, w(i) * summ(j, ZERO, n, w(j) * f))
    return fn("narange", canon(lo), canon(hi), canon(st)), k, norm * hx * hy * s


DEF = {"t_0_min": 0, "t_0_max": 90, "t_0_step": 5, "phi_0": 0, "simps_N": 1000}
VARS = {"t_0_min": Arr(LO, SCALAR, "py"), "t_0_max": Arr(HI, SCALAR, "py"), "t_0_step": Arr(STEP, SCALAR, "py"), "phi_0": Arr(PH, SCALAR, "py"),
        "simps_N": Arr(N, SCALAR, "int")}


def unit(how, kind=None, given=tuple(DEF)):
    def body(P):
        W.assume(Le(c(2), N))
        S = AbsScatter("SRF")
        d = PDict(v("P0", "U"), [("base", v("P0", "U"))], frozenset())
        kw = {n: VARS[n] for n in given}
        val = {n: VARS[n].t if n in given else c(DEF[n]) for n in DEF}
        plot = P.L.load("plot")
        env = d.env
        norms = None
        hemi = plot.hemreflect
        if how == "model":
            R = P.RT1(V=AbsScatter("V"), SRF=S)
            if kind != "default":
                R.NormBRDF = spec_value("NormBRDF", kind)
            if kind in ("expr", "default"):
                R.update_params(**PDict(v("P1", "U"), [("base", v("P1", "U"))], frozenset()))
            kw["R"] = R
            norms = [spec_term("NormBRDF", kind, d.env)]
            if kind in ("expr", "default"):
                norms.append(spec_term("NormBRDF", kind, env_merge(R.param_dict.env, d.env)))
        elif how == "model (values of the model)":
            # nothing is passed for the parameters of NormBRDF
            R = P.RT1(V=AbsScatter("V"), SRF=S)
            R.NormBRDF = spec_value("NormBRDF", kind)
            R.update_params(**PDict(v("P1", "U"), [("base", v("P1", "U"))], frozenset()))
            kw["R"] = R
            d = {}
            env = fn("env")
            norms = [spec_term("NormBRDF", kind, R.param_dict.env)]
        else:
            if how.startswith("method"):
                # the method of the distribution (its values are under contract)
                D = P.L.load("surface").HenyeyGreenstein(t=Arr(v("t"), SCALAR, "py"), ncoefs=3)
                D.calc = S.calc
                hemi = D.hemreflect
            else:
                kw["SRF"] = S
            if how in ("srf", "method"):
                W.assume(Not(d.has("NormBRDF")))
                norms = [ONE]
            else:
                x = Arr(v("NormBRDF"), SCALAR, "py")
                d["NormBRDF"] = x
                env = d.env
                norms = [x.t]
        if not isinstance(d, PDict):
            got = hemi(returnarray=True, **kw)
        else:
            got = hemi(returnarray=True, param_dict=d, **kw)
        out = [holds("one value for each incidence angle", lambda: isinstance(got, Arr) and len(got.sh.lead) == 1 and not got.sh.base)]
        g = got.sh.lead[0]
        alt = []
        for nm in norms:
            for swap in (False, True):
                n, k, t = reflectance("pf:SRF", nm, val["t_0_min"], val["t_0_max"], val["t_0_step"], val["phi_0"], val["simps_N"], env, swap)
                alt.append((n, subst(t, {k: g.k})))
        out.append(prove_eq("grid of incidence angles: arange(t_0_min, t_0_max, t_0_step)", g.n, alt[0][0]))
        obls = []
        for n, t in alt:
            o = prove_eq("NormBRDF * Simpson approximation of the integral of BRDF cos(theta) sin(theta)", got.t, t)
            obls.append(o)
            if o.status == "proved":
                break
        out.append(o if o.status == "proved" else obls[0])
        return out
    nm = f"C23 {how}" + (f" [NormBRDF: {kind}]" if kind else "") + f" given: {','.join(given) or '-'}"
    return Unit(nm, setup, body, auto=auto_default if kind == "default" else auto_complete, min_obls=3,
                contracts=["plot.hemreflect", "RT1._eval_param"],
                assume=[COMPLETE, "scipy.integrate.simps over equidistant samples = spacing * weighted sum (weights depend on index and number of samples)",
                        "the parameters passed are numbers"])


def units(tier):
    us = [unit("srf"), unit("srf + NormBRDF"), unit("srf", given=("t_0_min", "simps_N")), unit("srf", given=())]
    us += [unit("method"), unit("method + NormBRDF")]
    for k in ("py", "expr", "default"):
        us.append(unit("model", k))
    us.append(unit("model (values of the model)", "expr"))
    us.append(unit("model", "py", given=("phi_0",)))
    return us
