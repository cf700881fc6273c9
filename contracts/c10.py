"""C10: layout of the least-squares jacobian.

The matrix is compared with the list of derivatives (contract of jacobian(format='list'), proved for C08 and C09): one row
per element of the result (row-major), and per parameter, in the order of the list, one column with the derivative (values
of size 1) or one column for each item along the first axis, that is the derivative in the measurements of this item and 0
elsewhere (block diagonal). The sizes of the parameter values are arbitrary."""
from .cfg import *
from pyvc import sparse

KEY, KEY2 = SStr(v("key", "U"), "key"), SStr(v("key2", "U"), "key")
LISTS = [["omega", "tau", "NormBRDF", "bsf"], ["bsf", KEY, "tau"], [KEY, "omega", KEY2], ["tau"], [KEY], [KEY2, KEY, "NormBRDF", "tau", "omega"],
         ["NormBRDF", "bsf"]]


def unit(pl, geo, sig0, dB, int_Q, default=False):
    def setup():
        return loaded()

    def body(P):
        p0 = pdict("P0")
        W.assume(Not(ueq(KEY.u, KEY2.u)))
        for k in (KEY, KEY2):
            for n in QUANT:
                W.assume(Not(ueq(k.u, v("'" + n, "U"))))
        E = Env().update(p0)
        for k in QUANT + (KEY, KEY2):
            W.assume(E.d.has(k))

        def model():
            R = new_model(P, geo, "default", sig0=sig0, dB=dB, int_Q=int_Q)
            R.update_params(**p0)
            return R
        keys = ["omega", "tau", "NormBRDF"] if default else pl
        R = model()
        M = R.jacobian(format="scipy_least_squares") if default else R.jacobian(param_list=list(pl), format="scipy_least_squares")
        jac = [to_arr(x) for x in list(as_seq(model().jacobian(param_list=list(keys))))]
        R2 = model()
        tot = to_arr(R2.surface()) + to_arr(R2.volume())
        out = [holds("a matrix with a row for each measurement", isinstance(M, sparse.Mat) and M.t, f"{M}")]
        if out[0].status != "proved":
            return out
        rows = M.rows.segs
        i = 0
        for key, j in zip(keys, jac):
            if i >= len(rows):
                return out + [holds("a column for each parameter", False, f"{len(rows)} of {len(keys)}")]
            s = rows[i]
            i += 1
            static = W.decide(Eq(fn("sizeof", ustr(key)), ONE))
            r = s[1] if s[0] == "one" else s[3]
            nm = f"{'static' if static else 'timeseries'} parameter {key}"
            out.append(holds(f"{nm}: columns", (s[0] == "one" and r.k is None) if static else (s[0] == "gen" and r.k is s[2]), f"{s}"))
            out.append(holds(f"{nm}: a value for each measurement", r.a.sh.desc() == tot.sh.desc(), f"{r.a.sh} instead of {tot.sh}"))
            out.append(prove_eq(f"{nm}: derivative", r.a.t, j.t))
            if not static and s[0] == "gen":
                out.append(prove_eq(f"{nm}: number of columns", s[1], sparse.dim0(tot)))
        out.append(holds("no other columns", i == len(rows), f"{len(rows) - i} more"))
        return out
    nm = "default" if default else ",".join(str(x) for x in pl)
    return Unit(f"C10 RT1.jacobian(scipy_least_squares) [{nm}, {geo_name(geo)}, sig0={sig0}, dB={dB}, int_Q={int_Q}]", setup, body,
                auto=auto_default, contracts=["RT1.jacobian"], min_obls=6,
                assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0", "dB: total > 0",
                        "timeseries parameters vary along the first axis of the result"])


def units(tier):
    us = []
    q = tier == "quick"
    for sig0 in (False, True):
        for dB in (False, True):
            for g in GEO_FEW if q else GEO_MAIN:
                for pl in LISTS if (g == GEO_FEW[1] or not q) else LISTS[:2]:
                    us.append(unit(pl, g, sig0, dB, True))
    us.append(unit(None, GEO_FEW[1], True, True, False, default=True))
    us.append(unit(LISTS[1], GEO_FEW[0], True, True, False))
    return us
