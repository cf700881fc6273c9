"""Per-property generators and concrete checks on the real code (runs under /opt/venv)."""
import copy
import json
import math
import os
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
warnings.filterwarnings("ignore")
import numpy as np

np.seterr(all="ignore")
import logging

import sympy as sp
import rt1_model
from rt1_model import RT1, surface, volume

from . import gen, spec
from .gen import G

logging.getLogger("rt1_model").setLevel(logging.CRITICAL)
ANG = ("t_0", "t_ex", "p_0", "p_ex")
TOL = 2e-6


def dist(d, kind):
    mod = volume if kind == "V" else surface
    if d["cls"] == "LinComb":
        return mod.LinComb([(w, dist(o, kind)) for w, o in d["choices"]])
    return getattr(mod, d["cls"])(**copy.deepcopy(d["kw"]))


def val(v):
    return np.array(v) if isinstance(v, list) else v


def setgeom(R, c):
    g = c["geom"]
    if g["mode"] == "mono":
        R.set_monostatic(**g["fixed"])
    else:
        R.set_bistatic(**g["fixed"])
    if g["vals"]:
        R.set_geometry(**{k: val(v) for k, v in g["vals"].items()})


def build(c, params=True):
    rt1_model.set_lambda_backend(c["backend"])
    R = RT1(V=dist(c["V"], "V"), SRF=dist(c["SRF"], "SRF"), int_Q=c["int_Q"], sig0=c["sig0"], dB=c["dB"], I0=val(c["I0"]))
    for q, v in c["quant"].items():
        setattr(R, q, val(v))
    setgeom(R, c)
    if params:
        R.update_params(**{k: val(v) for k, v in c["params"].items()})
    return R


def close(a, b, tol=TOL, atol=1e-12, nan=True):
    """broadcast comparison; returns a message or None."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    try:
        a, b = np.broadcast_arrays(a, b)
    except ValueError:
        return f"shapes {a.shape} and {b.shape} do not match"
    ok = np.abs(a - b) <= atol + tol * np.abs(b)
    ok |= (a == b)
    if nan:
        ok |= np.isnan(a) & np.isnan(b)
    if ok.all():
        return None
    i = np.argwhere(~ok)[0]
    return f"got {a[tuple(i)]!r}, expected {b[tuple(i)]!r} at element {tuple(int(k) for k in i)}"


def shp(c):
    return spec.elements(c)[0]


def specmap(c, f):
    shape, envs = spec.elements(c)
    out = np.zeros(shape)
    for e in envs:
        out[e["idx"]] = f(e)
    return out


def scale_tol(x):
    x = np.abs(np.asarray(x, float))
    x = x[np.isfinite(x)]
    return 1e-10 + (1e-9 * x.max() if x.size else 0)


# ---------------------------------------------------------------------------------------
class Prop:
    weight = 1.0

    def gen(self, g):
        raise NotImplementedError

    def run(self, c):
        raise NotImplementedError


def clone(o):
    return json.loads(json.dumps(o))


class C01(Prop):
    fn, specf, row = "surface", staticmethod(spec.surface), 1

    def gen(self, g):
        c = gen.config(g, ncmax=3, int_Q=False, shapes=[(1,), (1,), (3,), (2, 3), (2, 1, 3)])
        if g.p(0.15):
            k = g.ch([k for k in list(c["geom"]["vals"]) + list(c["geom"]["fixed"]) if k[0] == "t"])
            d = c["geom"]["vals"] if k in c["geom"]["vals"] else c["geom"]["fixed"]
            d[k] = g.ch([0.0, 0, 1.55, 1e-3])
        return c

    def run(self, c):
        R = build(c)
        exp = specmap(c, lambda e: spec.conv(c, e, self.specf(c, e)))
        m = close(getattr(R, self.fn)(), exp, 1e-8)
        if m:
            return f"{self.fn}(): {m}"
        m = close(R.calc()[self.row], exp, 1e-8)
        if m:
            return f"calc()[{self.row}]: {m}"


class C02(C01):
    fn, specf, row = "volume", staticmethod(spec.volume), 2


class C03(Prop):
    def gen(self, g):
        c = gen.config(g, ncmax=g.ch([1, 2, 2, 3]), int_Q=True, shapes=[(1,), (1,), (1,), (2,), (3,), (2, 2)], dB=False)
        if g.p(0.1):
            k = g.ch([k for k in list(c["geom"]["vals"]) + list(c["geom"]["fixed"]) if k[0] == "t"])
            d = c["geom"]["vals"] if k in c["geom"]["vals"] else c["geom"]["fixed"]
            d[k] = g.ch([0.0, 0.01, 1e-4])
        return c

    def run(self, c):
        R = build(c)
        exp = specmap(c, lambda e: spec.conv(c, e, spec.interaction(c, e)))
        m = close(R.interaction(), exp, 1e-5, scale_tol(exp))
        if m:
            return f"interaction(): {m}"
        m = close(R.calc()[3], exp, 1e-5, scale_tol(exp))
        if m:
            return f"calc()[3]: {m}"


class C04(Prop):
    def gen(self, g):
        c = gen.config(g, ncmax=g.ch([2, 3, 4]), int_Q=True, shapes=[(1,)], fixed_ok=False, dB=False, exprs=0)
        c["th"] = [g.u(0.05, 1.5) for _ in range(3)]
        return c

    def run(self, c):
        R = build(c)
        _, envs = spec.elements(c)
        e = envs[0]
        th = np.array(c["th"])
        for swap in (False, True):
            if swap and c["geom"]["mode"] == "mono":
                continue
            a = dict(theta_0=e["t_0"], phi_0=e["p_0"], theta_ex=e["t_ex"], phi_ex=e["p_ex"])
            if swap:
                a = dict(theta_0=e["t_ex"], phi_0=e["p_ex"], theta_ex=e["t_0"], phi_ex=e["p_0"])
            fn = R._fnevals(**a, **{k: np.asarray(v, float) for k, v in e["params"].items()},
                            **({} if "bsf" in e["params"] else {"bsf": 0.0}))
            fn = [float(np.ravel(np.asarray(f, float))[0]) for f in fn]
            got = sum(f * np.cos(th) ** n for n, f in enumerate(fn))
            exp = spec.azimuth(c, e, swap, th)
            m = close(got, exp, 1e-8, scale_tol(exp))
            if m:
                return f"sum f_n cos^n (swap={swap}): {m}"
            n = max(2, spec.ncoefs(c["V"]) + spec.ncoefs(c["SRF"]) - 1)
            if len(fn) < n - (n == 2):
                return f"{len(fn)} coefficients instead of {n}"
        # the coefficients are used with the set geometry
        exp = specmap(c, lambda e: spec.conv(c, e, spec.interaction(c, e)))
        m = close(R.interaction(), exp, 1e-5, scale_tol(exp))
        if m:
            return f"interaction(): {m}"


class C05(Prop):
    def gen(self, g):
        return gen.config(g, ncmax=2)

    def run(self, c):
        R = build(c)
        res = R.calc()
        n = 4 if c["int_Q"] else 3
        if len(res) != n:
            return f"calc() returned {len(res)} entries instead of {n}"
        if tuple(np.shape(res)[1:]) != tuple(np.broadcast_shapes(*[np.shape(r) for r in res])):
            return "entries have different shapes"
        names = ["surface", "volume", "interaction"][: n - 1]
        for k, nm in enumerate(names):
            v = getattr(R, nm)()
            m = close(res[k + 1], v, 1e-10)
            if m:
                return f"calc()[{k + 1}] differs from {nm}(): {m}"
        if not c["dB"]:
            m = close(res[0], sum(res[1:]), 1e-9, 1e-14)
            if m:
                return f"total is not the sum of the contributions: {m}"
        lin, exp = spec.calc(c)
        m = close(res[0], exp[0], 1e-4, 1e-6 * (1 + c["dB"]) + scale_tol(lin))
        if m:
            return f"total: {m}"


class C06(Prop):
    def gen(self, g):
        c = gen.config(g, ncmax=2)
        c["I0b"] = round(g.u(0.2, 5), 3)
        if g.p(0.3):
            c["I0"] = g.arr(g.sub(shp(c), 0.3), lambda: round(g.u(0.3, 3), 2))
        return c

    def run(self, c):
        out = {}
        for sig0 in (False, True):
            for dB in (False, True):
                R = build({**c, "sig0": sig0, "dB": dB})
                o = {"calc": R.calc(), "surface": R.surface(), "volume": R.volume()}
                if c["int_Q"]:
                    o["interaction"] = R.interaction()
                out[sig0, dB] = o
        t0 = np.asarray(c["geom"]["vals"].get("t_0", c["geom"]["fixed"].get("t_0")), float)
        f = 4 * np.pi * np.cos(t0) / np.asarray(c["I0"], float)
        for k in out[False, False]:
            lin = out[False, False][k]
            for what, got, exp in [("sigma0", out[True, False][k], lin * f),
                                   ("intensity dB", out[False, True][k], 10 * np.log10(lin)),
                                   ("sigma0 dB", out[True, True][k], 10 * np.log10(lin * f))]:
                m = close(got, exp, 1e-9, 1e-9 if "dB" in what else 1e-14)
                if m:
                    return f"{k} in {what}: {m}"
        R1 = build({**c, "sig0": True})
        R2 = build({**c, "sig0": True, "I0": c["I0b"]})
        m = close(R2.calc(), R1.calc(), 1e-9, 1e-9)
        if m:
            return f"sigma0 depends on I0: {m}"
        # switching the units of one object
        R = build({**c, "sig0": True, "dB": True})
        R.calc()
        R.sig0, R.dB = False, False
        m = close(R.calc(), out[False, False]["calc"], 1e-10, 1e-15)
        if m:
            return f"after switching units: {m}"


class C07(Prop):
    def gen(self, g):
        kind = g.ch(["tau0", "tau0", "tau0", "bsf1", "omega0", "Norm0"])
        c = gen.config(g, ncmax=2, dB=False, exprs=0.2)
        c["kind"] = kind
        sh = shp(c)
        key = {"tau0": "tau", "bsf1": "bsf", "omega0": "omega", "Norm0": "NormBRDF"}[kind]
        z = 1 if kind == "bsf1" else 0
        for d in (c["quant"], c["params"]):
            d.pop(key, None)
        fz = g.ch([float, int])(z)
        if kind == "tau0":
            v = g.arr(g.sub(sh, 0.4), lambda: g.ch([0.0, 0.0, round(g.u(0.05, 1), 3)]))
            if not isinstance(v, list):
                v = fz
        else:
            v = g.arr(g.sub(sh, 0.6), lambda: fz)
        if kind == "bsf1" and g.p(0.5):
            c["quant"]["bsf"] = fz
        elif g.p(0.5):
            c["quant"][key] = v
        elif g.p(0.3) and kind == "tau0":
            nm = gen.new_param(g, c["params"], 0.1, 0.9, sh)
            c["params"][nm] = v
            c["quant"]["tau"] = f"0.5*{nm}"
        else:
            c["params"][key] = v
        return c

    def run(self, c):
        R = build(c)
        res = R.calc()
        lin, exp = spec.calc(c)
        for k in range(len(exp)):
            m = close(res[k], exp[k], 1e-5, 1e-6 if k in (0, 3) else 1e-13, nan=False)
            if m:
                return f"{c['kind']}: row {k}: {m}"
        if c["kind"] == "tau0":
            tau = specmap(c, lambda e: e["tau"])
            for k in range(2, len(exp)):
                r = np.broadcast_to(res[k], tau.shape)
                if not np.all(r[tau == 0] == 0):
                    return f"row {k} is not exactly zero where tau is 0"
        if c["kind"] == "bsf1":
            e1 = specmap(c, lambda e: spec.conv(c, e, spec.surface(c, {**e, "tau": 0.0})))
            m = close(res[0], e1, 1e-9)
            if m:
                return f"total for bsf=1 is not the bare surface: {m}"


class C08(Prop):
    keys = ("tau", "omega", "NormBRDF", "bsf")

    def gen(self, g):
        c = gen.config(g, ncmax=2, int_Q=False)
        n = g.ch([1, 2, 3, 4, 4, 5])
        c["keys"] = [g.ch(self.keys) for _ in range(n)]
        # every jacobian key must be a positive quantity for dB
        return c

    def run(self, c):
        R = build(c)
        jac = R.jacobian(list(c["keys"]))
        return cmpjac(c, c["keys"], jac)


def cmpjac(c, keys, jac):
    if len(jac) != len(keys):
        return f"{len(jac)} entries for {len(keys)} parameters"
    for k, j in zip(keys, jac):
        exp = spec.deriv(c, k)
        if c["dB"]:
            # the dB value has no derivative where there is no signal
            pos = specmap(c, lambda e: spec.surface(c, e) + spec.volume(c, e)) > 1e-9
            if not pos.any():
                continue
            j, exp = np.broadcast_to(j, exp.shape)[pos], exp[pos]
        s = np.abs(exp)[np.isfinite(exp)]
        m = close(j, exp, 2e-5, 1e-7 * (1 + (s.max() if s.size else 0)), nan=True)
        if m:
            return f"jacobian entry for {k!r}: {m}"


class C09(Prop):
    def gen(self, g):
        for _ in range(50):
            c = gen.config(g, ncmax=2, int_Q=False, exprs=0.75, nums=0.1, sharing=0.75)
            ks = [k for k in c["params"] if k not in spec.QUANT and not cos_param(c, k)]
            if ks:
                break
        else:
            ks = ["tau"]
            c["params"].setdefault("tau", 0.3)
        c["keys"] = [g.ch(ks) for _ in range(g.ch([1, 2, 3]))] + ([g.ch(["tau", "omega"])] if g.p(0.3) else [])
        return c

    run = C08.run


def cos_param(c, k):
    """parameters of a cosine lobe's scattering angle are not differentiable everywhere."""
    def f(d):
        if d["cls"] == "LinComb":
            return any(f(o) for _, o in d["choices"])
        return d["cls"] == "CosineLobe" and k in [i for i in d["kw"].get("a", []) if isinstance(i, str)]
    return f(c["SRF"])


class C10(Prop):
    def gen(self, g):
        T, M = g.ch([1, 2, 3, 4]), g.ch([1, 2, 3])
        c = gen.config(g, ncmax=2, int_Q=False, shapes=[(1,)], exprs=0.3, nums=0.0, fixed_ok=False)
        for k, v in list(c["params"].items()):
            if g.p(0.5):
                base = v if not isinstance(v, list) else np.ravel(v)[0]
                c["params"][k] = [[round(float(base) * (1 - 0.1 * i) + 0.001, 4)] for i in range(T)]
            elif isinstance(v, list):
                c["params"][k] = float(np.ravel(v)[0])
        full = g.p(0.6)
        for k, v in list(c["geom"]["vals"].items()):
            f = g.theta if k[0] == "t" else g.phi
            c["geom"]["vals"][k] = g.arr((T if full else 1, M), f) if k == "t_0" else g.arr(
                g.ch([(1,), (1, M), (T, 1), (T, M)]), f)
        ks = [k for k in c["params"] if not cos_param(c, k) and (k in c["params"])]
        ks = [k for k in ks if not (k in spec.QUANT and k in c["quant"])]
        c["keys"] = [ks[int(i)] for i in g.r.permutation(len(ks))[: g.ch([1, 2, 3])]] or ["tau"]
        if c["keys"] == ["tau"]:
            c["params"].setdefault("tau", 0.3)
            c["quant"].pop("tau", None)
        return c

    def run(self, c):
        R = build(c)
        m = R.jacobian(list(c["keys"]), format="scipy_least_squares").toarray()
        shape, envs = spec.elements(c)
        if c["dB"] and not (specmap(c, lambda e: spec.surface(c, e) + spec.volume(c, e)) > 1e-9).all():
            return
        if len(shape) < 2:
            shape = (1,) + shape
        T = shape[0]
        rs = np.shape(R.calc()[0])
        if (1,) * (2 - len(rs)) + tuple(rs) != shape:
            return  # angles that do not matter have more elements than the result
        cols = []
        for k in c["keys"]:
            d = np.broadcast_to(spec.deriv(c, k), shape)
            if np.size(c["params"][k]) == 1:
                cols.append(d.ravel())
            else:
                for t in range(np.size(c["params"][k])):
                    z = np.zeros(shape)
                    z[t] = d[t]
                    cols.append(z.ravel())
        exp = np.array(cols).T
        if m.shape != exp.shape:
            return f"shape {m.shape} instead of {exp.shape}"
        return close(m, exp, 2e-5, 1e-7 * (1 + np.abs(exp[np.isfinite(exp)]).max(initial=0)))


class C11(Prop):
    def gen(self, g):
        c = gen.config(g, ncmax=2, int_Q=g.p(0.3), exprs=0.6)
        upd = []
        for _ in range(g.ch([1, 2, 3])):
            ks = list(c["params"])
            d = {}
            for k in ks:
                if g.p(0.5):
                    d[k] = rescale(g, c["params"][k])
            upd.append([g.ch(["update_params", "calc", "surface", "volume"]), d])
        c["updates"] = upd
        c["quant2"] = {}
        if g.p(0.4) and c["params"]:
            pk = [k for k in c["params"] if gen.pos(c["params"][k])]
            if pk:
                q = g.ch(spec.QUANT)
                c["quant2"] = {q: g.ch([gen.sub_expr(g, [g.ch(pk)]), round(g.u(0.1, 0.9), 2)])}
        req = [k for k in c["params"] if k != "bsf"]
        c["missing"] = [k for k in req if g.p(0.3)] or req[:1]
        return c

    def run(self, c):
        R = build(c)
        cur = clone(c)

        def check(tag):
            _, envs = spec.elements(cur)
            for q in spec.QUANT:
                exp = specmap(cur, lambda e: e[q])
                m = close(getattr(R, q), exp, 1e-9)
                if m:
                    return f"{tag}: {q}: {m}"
            exp = {k: v for k, v in cur["params"].items()}
            exp.setdefault("bsf", 0)
            if not set(exp) <= set(R.param_dict):
                return f"{tag}: parameters {sorted(set(exp) - set(R.param_dict))} are not kept"
            for k in exp:
                m = close(R.param_dict[k], np.asarray(exp[k], float), 1e-12)
                if m:
                    return f"{tag}: param_dict[{k!r}]: {m}"
        m = check("initially")
        if m:
            return m
        for fn, d in c["updates"]:
            getattr(R, fn)(**{k: val(v) for k, v in d.items()})
            cur["params"].update(clone(d))
            m = check(f"after {fn}({sorted(d)})")
            if m:
                return m
        for q, v in c["quant2"].items():
            setattr(R, q, v)
            cur["quant"][q] = v
        m = check(f"after re-definition of {sorted(c['quant2'])}")
        if m:
            return m
        if not c["missing"]:
            return
        R = build(c, params=False)
        ps = {k: val(v) for k, v in c["params"].items() if k not in c["missing"]}
        need = needed(c)
        miss = [k for k in c["missing"] if k in need]
        if not miss:
            return
        try:
            R.calc(**ps)
        except TypeError as ex:
            if not any(repr(k) in str(ex) or k in str(ex) for k in miss):
                return f"the error does not name any of the missing parameters {miss}: {ex}"
            return
        except Exception as ex:
            return f"missing {miss}: {type(ex).__name__} instead of TypeError: {ex}"
        return f"no error although {miss} is missing"


def needed(c):
    out = set()

    def expr(x):
        if isinstance(x, str):
            out.update(map(str, sp.sympify(x, locals={n: sp.Symbol(n) for n in gen.NAMES}).free_symbols))
    for q in spec.QUANT:
        expr(c["quant"].get(q, q))

    def d(o):
        if o["cls"] == "LinComb":
            for w, x in o["choices"]:
                expr(w)
                d(x)
        elif o["cls"] != "Isotropic":
            expr(o["kw"].get("t"))
            for a in o["kw"].get("a", []):
                expr(a)
    d(c["V"])
    d(c["SRF"])
    return out


def rescale(g, v):
    if isinstance(v, list):
        return [rescale(g, i) for i in v]
    return round(v * g.u(0.5, 1.0), 4)


class C12(Prop):
    def gen(self, g):
        c = gen.config(g, ncmax=2, shapes=[(1,), (2,), (2, 2)])
        sh = shp(c)
        ops = []
        cur = clone(c)
        for _ in range(g.ch([2, 3, 4, 6])):
            ops.append(g.ch(["calc", "jac", "geom", "geom", "params", "params", "newparam", "mode", "quant", "quant", "units",
                             "intq", "quantities", "pickle"]))
        out = []
        for o in ops:
            if o == "geom":
                d = {}
                for k in list(cur["geom"]["vals"]):
                    if g.p(0.6):
                        d[k] = g.arr(g.sub(sh, 0.4), g.theta if k[0] == "t" else g.phi)
                if not d:
                    continue
                cur["geom"]["vals"].update(d)
                out.append(["geom", d])
            elif o == "params":
                d = {k: rescale(g, v) for k, v in cur["params"].items() if g.p(0.5)}
                cur["params"].update(d)
                out.append(["params", d, g.ch(["update_params", "calc", "volume"])])
            elif o == "newparam":
                pars = dict(cur["params"])
                nm = gen.new_param(g, pars, 0.15, 0.9, sh)
                cur["params"][nm] = pars[nm]
                d = {nm: pars[nm]}
                out.append(["params", d, g.ch(["update_params", "calc"])])
            elif o == "quant":
                q = g.ch(spec.QUANT)
                pk = [k for k in cur["params"] if gen.pos(cur["params"][k]) and k not in ("bsf",)]
                if not pk:
                    continue
                v = g.ch([gen.sub_expr(g, [g.ch(pk)]), round(g.u(0.1, 0.9), 2), gen.sub_expr(g, [g.ch(pk)])])
                cur["quant"][q] = v
                out.append(["quant", q, v])
            elif o == "units":
                cur["sig0"], cur["dB"], cur["I0"] = bool(g.p(0.5)), bool(g.p(0.3)), round(g.u(0.3, 3), 2)
                out.append(["units", cur["sig0"], cur["dB"], cur["I0"]])
            elif o == "intq":
                cur["int_Q"] = not cur["int_Q"]
                out.append(["intq", cur["int_Q"]])
            elif o == "mode":
                geom = gen.config(g, ncmax=1, shapes=[sh], lin=False, exprs=0)["geom"]
                cur["geom"] = geom
                out.append(["mode", geom])
            else:
                out.append([o])
        c["ops"] = out
        return c

    def run(self, c):
        cur = clone({k: v for k, v in c.items() if k != "ops"})
        R = build(cur)
        for i, op in enumerate([["calc"], ["jac"]] + c["ops"] if len(c["ops"]) % 2 else [["calc"]] + c["ops"]):
            if op[0] == "geom":
                R.set_geometry(**{k: val(v) for k, v in op[1].items()})
                cur["geom"]["vals"].update(clone(op[1]))
            elif op[0] == "params":
                getattr(R, op[2])(**{k: val(v) for k, v in op[1].items()})
                cur["params"].update(clone(op[1]))
            elif op[0] == "quant":
                setattr(R, op[1], op[2])
                cur["quant"][op[1]] = op[2]
            elif op[0] == "units":
                R.sig0, R.dB, R.I0 = op[1:]
                cur["sig0"], cur["dB"], cur["I0"] = op[1:]
            elif op[0] == "intq":
                R.int_Q = op[1]
                cur["int_Q"] = op[1]
            elif op[0] == "mode":
                cur["geom"] = clone(op[1])
                setgeom(R, cur)
            elif op[0] == "pickle":
                import cloudpickle
                R = cloudpickle.loads(cloudpickle.dumps(R))
            elif op[0] == "jac":
                pass
            m = self.same(R, cur, op)
            if m:
                return f"after step {i} {op}: {m}"

    def same(self, R, cur, op):
        F = build(cur)
        if op[0] != "jac":
            m = close(R.calc(), F.calc(), 1e-9, 1e-13)
            if m:
                return f"calc(): {m}"
        for n in ("tau", "omega", "NormBRDF", "bsf", "t_0", "t_ex", "p_0", "p_ex"):
            m = close(getattr(R, n), getattr(F, n), 1e-12)
            if m:
                return f"{n}: {m}"
        keys = ["tau", "omega", "NormBRDF", "bsf"] + [
            k for k in cur["params"] if k not in spec.QUANT and not cos_param(cur, k)][:3]
        a, b = R.jacobian(list(keys)), F.jacobian(list(keys))
        for k, x, y in zip(keys, a, b):
            m = close(x, y, 1e-9, 1e-13)
            if m:
                return f"jacobian {k}: {m}"
        m = close(R.surface(), F.surface(), 1e-9, 1e-13) or close(R.volume(), F.volume(), 1e-9, 1e-13)
        if m:
            return f"contribution: {m}"


class C13(Prop):
    def gen(self, g):
        ops = []
        for _ in range(g.ch([1, 2, 3, 4, 6])):
            k = g.r.random()
            if k < 0.2:
                ops.append(["mono", {} if g.p(0.5) else {"p_0": g.ch([g.phi(), 0, 0.0, "bad"] if g.p(0.3) else [g.phi()])}])
            elif k < 0.45:
                d = {a: (g.theta() if a[0] == "t" else g.phi()) for a in ANG if g.p(0.35)}
                if g.p(0.1) and d:
                    d[g.ch(list(d))] = g.ch(["bad", [0.1, 0.2]])
                if g.p(0.1):
                    d[g.ch(ANG)] = 0
                ops.append(["bi", d])
            else:
                sh = g.shape()
                d = {a: g.arr(g.sub(sh, 0.5), g.theta if a[0] == "t" else g.phi) for a in ANG if g.p(0.35)}
                if g.p(0.12) and d:
                    d[g.ch(list(d))] = None
                if g.p(0.1):
                    d[g.ch(["theta_0", "t0", "p", "tex", "phi_0", "t_s"])] = 0.3
                ops.append(["geom", d])
        return {"ops": ops, "backend": "sympy"}

    def run(self, c):
        rt1_model.set_lambda_backend("sympy")
        R = RT1(V=volume.Isotropic(), SRF=surface.Isotropic())
        mode, fixed, vals = "mono", set(), {}

        def isnum(v):
            return isinstance(v, (int, float))

        def attempt(f, *exc):
            try:
                f()
            except Exception as ex:
                return ex
            return None
        for i, (op, d) in enumerate(c["ops"]):
            kw = {k: val(v) for k, v in d.items()}
            tag = f"step {i} {op}({d})"
            if op in ("mono", "bi"):
                ok = all(isnum(v) for v in d.values())
                f = R.set_monostatic if op == "mono" else R.set_bistatic
                ex = attempt(lambda: f(**kw))
                if ok and ex is not None:
                    return f"{tag}: unexpected {ex!r}"
                if not ok:
                    if ex is None:
                        return f"{tag}: non-numeric fixed angle accepted"
                    return None
                mode, fixed = op, set(d)
                vals.update({k: np.atleast_1d(v) for k, v in kw.items()})
            else:
                bad = (not set(d) <= set(ANG)) or any(v is None for v in d.values()) or bool(set(d) & fixed) or (
                    mode == "mono" and bool({"t_ex", "p_ex"} & set(d)))
                ex = attempt(lambda: R.set_geometry(**kw))
                if bad and ex is None:
                    return f"{tag}: accepted (mode {mode}, fixed {sorted(fixed)})"
                if not bad and ex is not None:
                    return f"{tag}: unexpected {ex!r}"
                if bad:
                    # values that cannot change must not change
                    for k in fixed:
                        if close(getattr(R, k), vals[k], 0, 0):
                            return f"{tag}: rejected call changed fixed angle {k}"
                    if not set(d) <= set(ANG) or (mode == "mono" and {"t_ex", "p_ex"} & set(d)):
                        pass
                    else:
                        for k, v in d.items():
                            if v is not None and k not in fixed and k in ANG:
                                vals[k] = "?"
                else:
                    vals.update({k: np.atleast_1d(v) for k, v in kw.items()})
            exp = dict(vals)
            if mode == "mono":
                for k, s in (("t_ex", "t_0"), ("p_ex", "p_0")):
                    v = vals.get(s)
                    exp[k] = v if v is None or isinstance(v, str) else (v if s == "t_0" else v + np.pi)
            for k in ANG:
                v = exp.get(k)
                if isinstance(v, str):
                    # partially applied: either the old or the new value, take what is there
                    if k in vals and isinstance(vals[k], str):
                        try:
                            vals[k] = getattr(R, k)
                        except AttributeError:
                            vals.pop(k)
                    continue
                if v is None:
                    ex = attempt(lambda: getattr(R, k))
                    if not isinstance(ex, AttributeError):
                        return f"{tag}: {k} is not set but no AttributeError"
                    continue
                got = attempt(lambda: getattr(R, k))
                if got is not None:
                    return f"{tag}: {k}: {got!r}"
                got = getattr(R, k)
                if np.shape(got) != np.shape(v) or close(got, v, 1e-14, 1e-14):
                    return f"{tag}: {k} is {got!r} instead of {v!r}"


class C14(Prop):
    def gen(self, g):
        kind = g.ch(["fixed", "fixed", "monobi"])
        c = gen.config(g, ncmax=g.ch([1, 2, 2]), int_Q=True, fixed_ok=False, mode="mono" if kind == "monobi" else None,
                       shapes=[(1,), (1,), (2,), (2, 2)], dB=False, exprs=0.2)
        c["kind"] = kind
        v = c["geom"]["vals"]
        if kind == "fixed":
            cand = ["p_0"] if c["geom"]["mode"] == "mono" else list(ANG)
            c["fix"] = [k for k in cand if g.p(0.5)] or [g.ch(cand)]
            for k in c["fix"]:
                v[k] = g.theta() if k[0] == "t" else g.phi()
        return c

    def run(self, c):
        R1 = build(c)
        c2 = clone(c)
        if c["kind"] == "fixed":
            for k in c["fix"]:
                c2["geom"]["fixed"][k] = c2["geom"]["vals"].pop(k)
        else:
            v = c["geom"]["vals"]
            c2["geom"] = {"mode": "bi", "fixed": {}, "vals": {
                "t_0": v["t_0"], "t_ex": v["t_0"], "p_0": v["p_0"],
                "p_ex": (np.asarray(v["p_0"], float) + np.pi).tolist()}}
        R2 = build(c2)
        a, b = R1.calc(), R2.calc()
        m = close(b, a, 1e-8, scale_tol(a))
        if m:
            return f"calc(): {m}"
        ks = ["tau", "omega", "NormBRDF", "bsf"]
        for k, x, y in zip(ks, R1.jacobian(ks), R2.jacobian(ks)):
            m = close(y, x, 1e-8, 1e-10)
            if m:
                return f"jacobian {k}: {m}"


class C15(Prop):
    kind, classes = "V", ["Isotropic", "Rayleigh", "HenyeyGreenstein", "HGRayleigh"]

    def gen(self, g):
        params = {}
        sh = g.shape()
        cl = [g.ch(self.classes)]
        d = gen.dist(g, self.kind, params, 4, False, 0.5, cl, 0.5, sh, a_sym=0.2)
        if "t" in d["kw"] and not isinstance(d["kw"]["t"], str) and g.p(0.4):
            d["kw"]["t"] = g.ch([round(g.u(-0.95, 0.95), 3), 0.9, -0.9, 0.99])
        if d["cls"] == "CosineLobe" and g.p(0.3):
            d["kw"]["i"] = g.ch([0, 6, 8, 10, 15])
        if g.p(0.4):
            d["kw"].pop("ncoefs", None)
        ang = {k: g.arr(g.sub(sh, 0.3), (lambda: g.u(0, math.pi / 2 if k == "t_ex" else math.pi)) if k[0] == "t" else g.phi)
               for k in ANG}
        extra = {"unused": 0.3} if g.p(0.3) else {}
        order = list(params) + list(extra)
        pd = {**params, **extra}
        order = [order[int(i)] for i in g.r.permutation(len(order))]
        return {"d": d, "params": {k: pd[k] for k in order}, "ang": ang, "backend": g.ch(["sympy", "symengine"]),
                "norm": bool(g.p(0.25))}

    def run(self, c):
        rt1_model.set_lambda_backend(c["backend"])
        D = dist(c["d"], self.kind)
        names = list(ANG) + list(c["params"])
        arrs = [np.asarray(x, float) for x in [*[c["ang"][k] for k in ANG], *c["params"].values()]]
        bc = np.broadcast_arrays(*arrs)
        exp = np.zeros(bc[0].shape)
        for i in np.ndindex(*exp.shape):
            v = {n: float(b[i]) for n, b in zip(names, bc)}
            exp[i] = spec.phase(c["d"], self.kind, *[v[k] for k in ANG], {k: v[k] for k in c["params"]})
        args = [val(c["ang"][k]) for k in ANG]
        got = D.calc(*args, param_dict={k: val(v) for k, v in c["params"].items()})
        m = close(got, exp, 1e-8, 1e-11)
        if m:
            return f"calc: {m}"
        a_ok = c["d"]["cls"] != "Rayleigh" or True
        if np.any(np.asarray(got) < -1e-12) and default_a(c["d"], self.kind):
            return "negative value"
        if c["norm"]:
            return self.norm(c, D)

    def norm(self, c, D):
        if not default_a(c["d"], "V"):
            return
        x, w = spec.GL_X, spec.GL_W
        p = {k: float(np.ravel(v)[0]) for k, v in c["params"].items()}
        th = np.arccos(x)
        ph = np.arange(64) * 2 * np.pi / 64
        f = np.broadcast_to(D.calc(0.7, th[:, None], 0.3, ph[None, :], param_dict=p), (len(th), 64))
        t = spec.ev(c["d"]["kw"].get("t", 0), p)
        if abs(t) > 0.6:
            return
        return close(np.sum(w[:, None] * f) * 2 * np.pi / 64, 1.0, 1e-6)


def default_a(d, kind):
    return not d["kw"].get("a") or d["cls"] == "Isotropic"


class C16(C15):
    kind, classes = "SRF", ["Isotropic", "CosineLobe", "HenyeyGreenstein", "HG_nadirnorm"]

    def norm(self, c, D):
        p = {k: float(np.ravel(v)[0]) for k, v in c["params"].items()}
        if c["d"]["cls"] not in ("Isotropic", "HG_nadirnorm") or not default_a(c["d"], "SRF"):
            return
        t = spec.ev(c["d"]["kw"].get("t", 0), p)
        if abs(t) > 0.7:
            return
        mu, w = 0.5 * (spec.GL_X + 1), 0.5 * spec.GL_W
        t0 = 0.0 if c["d"]["cls"] == "HG_nadirnorm" else 0.9
        ph = np.arange(32) * 2 * np.pi / 32
        f = np.broadcast_to(D.calc(t0, np.arccos(mu)[:, None], 0.3, ph[None, :], param_dict=p), (len(mu), 32))
        return close(np.sum((w * mu)[:, None] * f) * 2 * np.pi / 32, 1.0, 1e-6)


def numexpr(expr, syms, vals):
    import symengine
    f = sp.lambdify(list(syms), sp.sympify(expr), modules=["numpy", "sympy"])
    return np.asarray(f(*vals), float)


class C17(Prop):
    def gen(self, g):
        kind = g.ch(["V", "SRF"])
        params = {}
        d = gen.dist(g, kind, params, g.ch([3, 5, 9]), False, 0.4, None, 0.4, (1,), a_sym=0.15)
        if d["cls"] == "CosineLobe":
            d["kw"]["i"] = g.ch([1, 2, 3, 4, 5, 8])
        params = {k: (v if not isinstance(v, list) else float(np.ravel(v)[0])) for k, v in params.items()}
        return {"kind": kind, "d": d, "params": params, "ang": [g.u(0.1, 3), g.u(0.1, 1.5), g.phi(), g.phi()],
                "backend": g.ch(["sympy", "symengine"]), "symbolic": bool(g.p(0.5))}

    def run(self, c):
        rt1_model.set_lambda_backend(c["backend"])
        D = dist(c["d"], c["kind"])
        n = spec.ncoefs(c["d"])
        if D.ncoefs != n:
            return f"ncoefs is {D.ncoefs} instead of {n}"
        got = legval_real(D, c)
        exp = spec.expansion(spec.groups(c["d"], c["kind"], c["params"]), *c["ang"])
        return close(got, exp, 1e-7, 1e-9)


def legval_real(D, c):
    ang = c["ang"]
    if c["symbolic"]:
        s = sp.symbols("A B C D")
        e = D.legendre_expansion(*s).doit()
        syms = list(s) + [sp.Symbol(k) for k in c["params"]]
        return numexpr(e, syms, list(ang) + list(c["params"].values()))
    e = D.legendre_expansion(*ang).doit()
    return numexpr(e, [sp.Symbol(k) for k in c["params"]], list(c["params"].values()))


class C18(Prop):
    def gen(self, g):
        kind = g.ch(["V", "SRF"])
        params = {}
        while True:
            d = gen.dist(g, kind, params, 4, True, 0.4, None, 0.4, (1,))
            if d["cls"] == "LinComb":
                break
            params.clear()
        if g.p(0.3):
            d["choices"].append(clone(g.ch(d["choices"])))
        params = {k: (v if not isinstance(v, list) else float(np.ravel(v)[0])) for k, v in params.items()}
        return {"kind": kind, "d": d, "params": params, "ang": [g.u(0.1, 3), g.u(0.1, 1.5), g.phi(), g.phi()],
                "backend": g.ch(["sympy", "symengine"]), "symbolic": bool(g.p(0.5)), "nested": bool(g.p(0.2))}

    def run(self, c):
        rt1_model.set_lambda_backend(c["backend"])
        D = dist(c["d"], c["kind"])
        if D.ncoefs != spec.ncoefs(c["d"]):
            return f"ncoefs is {D.ncoefs} instead of {spec.ncoefs(c['d'])}"
        args = c["ang"]
        got = D.calc(*[np.array([a]) for a in args], param_dict={k: np.array([v]) for k, v in c["params"].items()})
        exp = spec.phase(c["d"], c["kind"], *args, c["params"])
        m = close(got, exp, 1e-8, 1e-10)
        if m:
            return f"calc: {m}"
        m = close(legval_real(D, c), spec.expansion(spec.groups(c["d"], c["kind"], c["params"]), *args), 1e-7, 1e-9)
        if m:
            return f"expansion: {m}"
        if c["nested"]:
            mod = volume if c["kind"] == "V" else surface
            N = mod.LinComb([(0.3, D), ("w9", mod.Isotropic())])
            iso = 1 / (4 * np.pi) if c["kind"] == "V" else 1 / np.pi
            got = N.calc(*[np.array([a]) for a in args], param_dict={**{k: np.array([v]) for k, v in c["params"].items()},
                                                                      "w9": np.array([0.4])})
            m = close(got, 0.3 * exp + 0.4 * iso, 1e-8, 1e-10)
            if m:
                return f"nested combination: {m}"


class C19(Prop):
    def gen(self, g):
        nv = g.ch([1, 2, 3, 4, 5])
        names = [gen.NAMES[int(i)] for i in g.r.permutation(len(gen.NAMES))[:nv]]
        ne = g.ch([1, 1, 2, 3])
        exprs = []
        for _ in range(ne):
            ks = [names[int(i)] for i in g.r.permutation(nv)[: g.ch([1, 2])]]
            exprs.append(gen.sub_expr(g, ks))
        sh = g.shape()
        vals = {n: g.arr(g.sub(sh, 0.3), lambda: round(g.u(0.1, 0.9), 3)) for n in names}
        npos = int(g.r.integers(0, nv + 1))
        kworder = [names[npos + int(i)] for i in g.r.permutation(nv - npos)]
        return {"names": names, "exprs": exprs, "vals": vals, "npos": npos, "kw": kworder, "list": ne > 1 or bool(g.p(0.5)),
                "sym": bool(g.p(0.5)), "strs": bool(g.p(0.4)), "d": C15().gen(g)}

    def run(self, c):
        from rt1_model.helpers import _lambdify, _parse_sympy_param
        var = [sp.Symbol(n) for n in c["names"]] if c["sym"] else list(c["names"])
        ex = [e if c["strs"] else _parse_sympy_param(e) for e in c["exprs"]]
        if not c["list"]:
            ex = ex[0]
        exp = [spec.ev(e, {k: np.asarray(v, float) for k, v in c["vals"].items()}) for e in c["exprs"]]
        for b in ("sympy", "symengine"):
            rt1_model.set_lambda_backend(b)
            f = _lambdify(var, ex)
            pos = [np.asarray(c["vals"][n], float) for n in c["names"][: c["npos"]]]
            kw = {n: np.asarray(c["vals"][n], float) for n in c["kw"]}
            got = f(*pos, **kw)
            if c["list"]:
                if len(got) != len(exp):
                    return f"{b}: {len(got)} results for {len(exp)} expressions"
                for i, (a, x) in enumerate(zip(got, exp)):
                    m = close(a, x, 1e-10)
                    if m:
                        return f"{b}: expression {i}: {m}"
            else:
                shp = np.broadcast_shapes(*[np.shape(v) for v in c["vals"].values()])
                if len(np.shape(got)) > len(shp):
                    return f"{b}: result has shape {np.shape(got)} for a single expression"
                m = close(got, exp[0], 1e-10)
                if m:
                    return f"{b}: {m}"
        for b in ("sympy", "symengine"):
            m = C15().run({**c["d"], "backend": b, "norm": False})
            if m:
                return f"{b}: {m}"


class C20(Prop):
    def gen(self, g):
        c = gen.config(g, ncmax=2, shapes=[(1,), (2,)])
        c["before"] = g.ch([[], ["calc"], ["calc", "jac"], ["jac"]])
        c["times"] = g.ch([1, 1, 2])
        return c

    def run(self, c):
        import cloudpickle
        R = build(c)
        F = build(c)
        keys = ["tau", "omega", "NormBRDF", "bsf"] + [
            k for k in c["params"] if k not in spec.QUANT and not cos_param(c, k)][:2]
        for o in c["before"]:
            R.calc() if o == "calc" else R.jacobian(list(keys))
        L = R
        for _ in range(c["times"]):
            L = cloudpickle.loads(cloudpickle.dumps(L))
        exp = F.calc()
        for tag, X in (("restored", L), ("original", R)):
            for n in ("int_Q", "sig0", "dB", "I0"):
                if not np.all(getattr(X, n) == getattr(F, n)):
                    return f"{tag}: {n} differs"
            for n in spec.QUANT:
                m = close(getattr(X, n), getattr(F, n), 1e-12)
                if m:
                    return f"{tag}: {n}: {m}"
            if set(X.param_dict) != set(F.param_dict):
                return f"{tag}: parameters differ"
            m = close(X.calc(), exp, 1e-10, 1e-14)
            if m:
                return f"{tag}: calc(): {m}"
            m = cmp_lists(X.jacobian(list(keys)), F.jacobian(list(keys)))
            if m:
                return f"{tag}: jacobian: {m}"
            fx = set(c["geom"]["fixed"])
            for k in fx:
                try:
                    X.set_geometry(**{k: 0.4})
                    return f"{tag}: fixed angle {k} can be changed"
                except AssertionError:
                    pass
            for k in ("analyze", "analyze3d", "calc", "surface", "volume", "interaction", "jacobian", "update_params"):
                if hasattr(F, k) and not callable(getattr(X, k, None)):
                    return f"{tag}: method {k} is lost"
            for a, d in (("V", X.V), ("SRF", X.SRF)):
                if not callable(getattr(d, "polarplot", None)):
                    return f"{tag}: {a}.polarplot is lost"
                if type(d).__name__ != c[a]["cls"]:
                    return f"{tag}: {a} has another type"
        upd = {k: (np.asarray(v) * 0.9) for k, v in c["params"].items()}
        for X in (L, R):
            m = close(X.calc(**upd), F.calc(**upd), 1e-10, 1e-14)
            if m:
                return f"after update: {m}"
        geo = {k: np.asarray(v) * 0.9 for k, v in c["geom"]["vals"].items()}
        if geo:
            F.set_geometry(**geo)
            for X in (L, R):
                X.set_geometry(**geo)
                m = close(X.calc(), F.calc(), 1e-10, 1e-14)
                if m:
                    return f"after changing the geometry: {m}"


def cmp_lists(a, b):
    for x, y in zip(a, b):
        m = close(x, y, 1e-10, 1e-14)
        if m:
            return m


class C21(Prop):
    def gen(self, g):
        c = gen.config(g, ncmax=2, shapes=[(3,), (2, 3), (2, 1, 3), (2, 2, 2), (3, 1), (1, 3)], fixed_ok=False)
        if g.p(0.15):
            k = g.ch([k for k in c["params"]] or ["tau"])
            if k == "tau" and "tau" in c["params"] and isinstance(c["params"]["tau"], list):
                c["params"]["tau"][0] = clone(zero(c["params"]["tau"][0]))
        return c

    def run(self, c):
        R = build(c)
        res = R.calc()
        keys = ["tau", "omega", "NormBRDF", "bsf"] + [k for k in c["params"] if k not in spec.QUANT and not cos_param(c, k)][:2]
        jac = R.jacobian(list(keys))
        shape, envs = spec.elements(c)
        used = {**c["geom"]["vals"], **{"p:" + k: v for k, v in c["params"].items()},
                **{"q:" + k: v for k, v in c["quant"].items() if not isinstance(v, str)}}
        arrs = {k: np.asarray(v, float) for k, v in used.items()}
        shape = np.broadcast_shapes(*[np.atleast_1d(a).shape for a in arrs.values()])
        res = np.asarray(res)
        res = res.reshape(res.shape[:1] + (1,) * (len(shape) + 1 - res.ndim) + res.shape[1:])
        res = np.broadcast_to(res, (len(res),) + shape)
        E = build(c)
        rnd = list(np.ndindex(*shape))
        for idx in rnd:
            el = {k: float(np.broadcast_to(a, shape)[idx]) for k, a in arrs.items()}
            for q in c["quant"]:
                if "q:" + q in el:
                    setattr(E, q, np.array([el["q:" + q]]))
            E.set_geometry(**{k: el[k] for k in c["geom"]["vals"]})
            E.update_params(**{k: el["p:" + k] for k in c["params"]})
            r = E.calc()
            m = close(res[(slice(None),) + idx], r.reshape(len(r), -1)[:, 0], 1e-8, 1e-9)
            if m:
                return f"element {idx}: {m}"
            for k, j, j1 in zip(keys, jac, E.jacobian(list(keys))):
                m = close(np.broadcast_to(j, shape)[idx], np.ravel(j1)[0], 1e-8, 1e-9)
                if m:
                    return f"jacobian {k}, element {idx}: {m}"


def zero(v):
    return [zero(i) for i in v] if isinstance(v, list) else 0.0


class C22(Prop):
    def gen(self, g):
        c = gen.config(g, ncmax=2, mode="bi", fixed_ok=False, dB=False, sig0=False, int_Q=True, shapes=[(1,), (2,)])
        return c

    def run(self, c):
        c2 = clone(c)
        v = c["geom"]["vals"]
        c2["geom"]["vals"] = {"t_0": v["t_ex"], "t_ex": v["t_0"], "p_0": v["p_ex"], "p_ex": v["p_0"]}
        R1, R2 = build(c), build(c2)
        m1, m2 = np.cos(np.asarray(v["t_0"], float)), np.cos(np.asarray(v["t_ex"], float))
        for k in ("surface", "volume", "interaction"):
            a, b = getattr(R1, k)() / m1, getattr(R2, k)() / m2
            m = close(b, a, 1e-8, scale_tol(a))
            if m:
                return f"{k}: {m}"
        m = close(R2.calc() / m2, R1.calc() / m1, 1e-8, 1e-12)
        if m:
            return f"calc: {m}"


class C23(Prop):
    def gen(self, g):
        params = {}
        d = gen.dist(g, "SRF", params, 2, True, 0.4, None, 0.3, (1,), a_sym=0.0)
        params = {k: (v if not isinstance(v, list) else float(np.ravel(v)[0])) for k, v in params.items()}
        how = g.ch(["srf", "srf", "param", "model", "modelexpr", "method"])
        return {"d": d, "params": params, "how": how, "N": round(g.u(0.1, 2), 2), "phi": g.ch([0.0, g.phi()]),
                "n": g.ch([5, 11, 20, 31]), "lo": g.ch([0.0, 10.0, 20]), "hi": g.ch([90.0, 60.0, 45]), "step": g.ch([15.0, 10.0, 7.5]),
                "backend": g.ch(["sympy", "symengine"])}

    def run(self, c):
        from rt1_model.plot import hemreflect
        from scipy.integrate import simpson
        rt1_model.set_lambda_backend(c["backend"])
        S = dist(c["d"], "SRF")
        kw = dict(phi_0=c["phi"], t_0_step=c["step"], t_0_min=c["lo"], t_0_max=c["hi"], simps_N=c["n"], returnarray=True)
        pd = dict(c["params"])
        N = c["N"]
        if c["how"] in ("srf", "method"):
            N = 1
            got = hemreflect(SRF=S, param_dict=pd, **kw) if c["how"] == "srf" else S.hemreflect(param_dict=pd, **kw)
        elif c["how"] == "param":
            got = hemreflect(SRF=S, param_dict={**pd, "NormBRDF": N}, **kw)
        else:
            R = RT1(V=volume.Isotropic(), SRF=S, int_Q=False)
            if c["how"] == "model":
                R.NormBRDF = N
            else:
                R.NormBRDF = "nn*2"
                if c["N"] > 1:
                    R.update_params(nn=N / 2 if c["N"] > 1.5 else 7)
                if c["N"] <= 1.5:
                    pd["nn"] = N / 2
            got = hemreflect(R=R, param_dict=pd, **kw)
        inc = np.deg2rad(np.arange(c["lo"], c["hi"], c["step"]))
        x, y = np.linspace(0, np.pi / 2, c["n"]), np.linspace(0, 2 * np.pi, c["n"])
        exp = []
        for t in inc:
            z = spec.phase(c["d"], "SRF", t, x[:, None], c["phi"], y[None, :], c["params"]) * np.sin(x)[:, None] * np.cos(x)[:, None]
            z = np.broadcast_to(z, (len(x), len(y)))
            exp.append(simpson(simpson(z, x=y), x=x))
        if np.shape(got) != (len(inc),):
            return f"shape {np.shape(got)} for {len(inc)} incidence angles"
        return close(got, np.array(exp) * N, 1e-7, 1e-12)


class C24(Prop):
    def gen(self, g):
        c = gen.config(g, ncmax=2, mode="mono", shapes=[(1,)], fixed_ok=False, nums=0.1, exprs=0.3)
        c["params"] = {k: (v if not isinstance(v, list) else float(np.ravel(v)[0])) for k, v in c["params"].items()}
        sl = {}
        for k, v in c["params"].items():
            if g.p(0.75):
                w = round(g.u(0.02, 0.1), 3)
                lo, hi = round(v - w, 4), round(v + 2 * w, 4)
                if gen.pos(v):
                    lo = max(lo, 0.01)
                s = [lo, hi]
                if g.p(0.5):
                    s.append(round(g.u(lo, hi), 4))
                    if g.p(0.5):
                        s.append(g.ch(["Optical Depth", "lbl", "x"]))
                sl[k] = s
        c["sliders"] = sl
        c["quant"] = {k: (v if not isinstance(v, list) else float(np.ravel(v)[0])) for k, v in c["quant"].items()}
        c["range"] = g.ch([None, None] + list(sl))
        c["move"] = {k: round(g.u(v[0], v[1]), 4) for k, v in sl.items() if g.p(0.5)}
        c["int_Q"] = bool(g.p(0.6))
        c["parse"] = {k: [round(g.u(-5, 5), 3)] for k in ("a", "b", "c")}
        for v in c["parse"].values():
            v.append(round(v[0] + g.u(0.1, 9), 3))
            if g.p(0.6):
                v.append(round(g.u(v[0], v[1]), 3))
                if g.p(0.5):
                    v.append("label " + g.ch("xyz"))
        c["only_parse"] = bool(g.p(0.6))
        return c

    def run(self, c):
        import matplotlib.pyplot as plt
        from rt1_model.plot import Analyze
        p = Analyze._parse_parameters(**{k: tuple(v) for k, v in c["parse"].items()})
        for k, v in c["parse"].items():
            exp = dict(valmin=v[0], valmax=v[1], valinit=v[2] if len(v) > 2 else (v[0] + v[1]) / 2,
                       label=v[3] if len(v) > 3 else k)
            for n, x in exp.items():
                y = p[k].get(n)
                if (y != x) if isinstance(x, str) else not abs(y - x) < 1e-9:
                    return f"{k}={v}: {n} is {y!r} instead of {x!r}"
        if list(p) != list(c["parse"]):
            return "parameters are reordered or lost"
        if c["only_parse"]:
            return
        R = build(c)
        used = needed(c)
        kw = {k: tuple(v) for k, v in c["sliders"].items()}
        rp = c["range"] if c["range"] in used else None
        try:
            A = R.analyze(range_parameter=rp, **kw)
            cur = {}
            for k, v in c["sliders"].items():
                if k not in used:
                    continue
                s = A.sliders[k]
                cur[k] = v[2] if len(v) > 2 else (v[0] + v[1]) / 2
                if abs(s.valmin - v[0]) > 1e-9 or abs(s.valmax - v[1]) > 1e-9 or abs(s.val - cur[k]) > 1e-9:
                    return f"slider {k}: {s.valmin}, {s.valmax}, {s.val} for {v}"
                if s.label.get_text() != (v[3] if len(v) > 3 else k):
                    return f"slider {k}: label {s.label.get_text()!r} for {v}"
            for step in range(2):
                if step == 1:
                    for k, v in c["move"].items():
                        if k in cur:
                            A.sliders[k].set_val(v)
                            cur[k] = v
                t0 = np.linspace(10, 80, 100)
                sel = [0, 33, 99]
                c2 = {**clone(c), "params": {**c["params"], **cur},
                      "geom": {"mode": "mono", "fixed": {"p_0": 0.0}, "vals": {"t_0": np.deg2rad(t0)[sel].tolist()}}}
                lin, exp = spec.calc(c2)
                names = ["Total", "Surface", "Volume", "Interaction"][: len(exp)]
                labels = [l.get_label() for l in A.ax.lines[: len(exp)]]
                if labels != names:
                    return f"curves are {labels}"
                for k in range(len(exp)):
                    l = A.ax.lines[k]
                    m = close(np.asarray(l.get_xdata())[sel], t0[sel], 1e-12) or close(
                        np.broadcast_to(np.asarray(l.get_ydata(), float), (100,))[sel], exp[k], 1e-4, 1e-5)
                    if m:
                        return f"curve {names[k]} (step {step}): {m}"
        finally:
            plt.close("all")


PROPS = {n: v() for n, v in list(globals().items()) if isinstance(v, type) and issubclass(v, Prop) and v is not Prop}
