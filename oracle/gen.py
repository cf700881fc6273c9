"""Seeded random generation of (JSON-able) model configurations."""
import math

NAMES = ["x", "y", "N", "S", "Q", "t_v", "k1", "alpha", "tt", "a1", "w", "lai", "sm", "e1", "d_x"]


class G:
    def __init__(self, rng):
        self.r = rng

    def u(self, a, b):
        return float(self.r.uniform(a, b))

    def ch(self, seq):
        return seq[int(self.r.integers(len(seq)))]

    def p(self, q):
        return self.r.random() < q

    # -- values -------------------------------------------------------------------------
    def shape(self, kinds=((1,), (3,), (2, 3), (2, 1, 3), (2, 2, 2))):
        return self.ch(list(kinds))

    def sub(self, shape, scalar=0.4):
        """a shape broadcastable to `shape`; None for a scalar."""
        if self.p(scalar):
            return None
        k = int(self.r.integers(0, len(shape)))
        s = [d if self.p(0.7) else 1 for d in shape[k:]]
        return tuple(s)

    def arr(self, shape, f):
        if shape is None:
            return f()
        if len(shape) == 0:
            return f()
        return [self.arr(shape[1:], f) for _ in range(shape[0])]

    def theta(self, special=True):
        if special and self.p(0.04):
            return self.ch([1.4, 0.02, 0.7853981633974483])
        return self.u(0.03, 1.35)

    def phi(self):
        return self.ch([0.0, self.u(-3, 7), self.u(0, 3), 1])


def sub_expr(g, names, lo=0.05, hi=1.0, consts=True):
    """an expression in the given names that is positive for values in (0.1, 1)."""
    if len(names) == 1:
        x = names[0]
        forms = [x, f"{x}*0.5", f"0.1 + {x}*0.4", f"{x}**2", f"0.3*{x} + 0.02*sin({x})", f"exp(-{x})", f"sqrt({x})",
                 f"1/(1+{x})", f"(1-{x})*0.5 + {x}**3*0.2"]
        return g.ch(forms)
    x, y = names[:2]
    return g.ch([f"{x}*{y}", f"0.2*{x} + 0.3*{y}", f"{x}/(1+{y})", f"{x}*exp(-{y})", f"({x}+{y})**2*0.3", f"{x}**{y}"])


def dist(g, kind, params, ncmax=4, lin=True, sym=0.5, classes=None, a_p=0.35, shape=(1,), need_nc=True, a_sym=0.08):
    cls = classes or (["Isotropic", "Rayleigh", "HenyeyGreenstein", "HenyeyGreenstein", "HGRayleigh"] if kind == "V" else
                      ["Isotropic", "CosineLobe", "HenyeyGreenstein", "HenyeyGreenstein", "HG_nadirnorm"])
    if lin and g.p(0.3):
        n = g.ch([1, 2, 2, 3])
        ch = []
        aset = [None, [round(g.u(-1, 1), 2) for _ in range(3)]]
        for _ in range(n):
            o = dist(g, kind, params, ncmax, False, sym, classes, 0.0, shape, a_sym=0.0)
            a = g.ch(aset)
            if a is not None:
                o["kw"]["a"] = ([min(abs(a[0]) + 0.1, 1.0)] + a[1:]) if o["cls"] == "HG_nadirnorm" else a
            if g.p(0.4):
                nm = new_param(g, params, 0.1, 0.9, shape)
                w = g.ch([nm, f"1 - {nm}", f"{nm}*0.5"])
            else:
                w = g.ch([round(g.u(0.1, 1), 3), 1, 0.5])
            ch.append([w, o])
        return {"cls": "LinComb", "choices": ch, "kw": {}}
    c = g.ch(cls)
    kw = {}
    if c in ("HenyeyGreenstein", "HGRayleigh", "HG_nadirnorm"):
        lo, hi = (-0.6, 0.6)
        if g.p(sym):
            nm = new_param(g, params, lo, hi, shape)
            kw["t"] = g.ch([nm, nm, f"{nm}*0.7", f"-{nm}", f"{nm}**2+0.1"])
        else:
            kw["t"] = round(g.u(lo, hi), 3)
            if kw["t"] == 0:
                kw["t"] = 0.1
    if c == "CosineLobe":
        kw["i"] = g.ch([1, 2, 3, 4, 5, 7])
    if c not in ("Isotropic", "Rayleigh"):
        kw["ncoefs"] = int(g.r.integers(1, ncmax + 1))
    if g.p(a_p) and c != "Isotropic":
        a = [round(g.u(-1, 1), 2) for _ in range(3)]
        if c == "HG_nadirnorm":
            a[0] = min(abs(a[0]) + 0.1, 1.0)
        if g.p(0.2):
            a = [int(round(i)) or 1 for i in a]
        if g.p(a_sym):
            nm = new_param(g, params, 0.3, 1.0, shape)
            a[g.ch([1, 2])] = nm
        kw["a"] = a
    return {"cls": c, "kw": kw}


def new_param(g, params, lo, hi, shape):
    free = [n for n in NAMES if n not in params]
    nm = g.ch(free)

    def f():
        v = round(g.u(lo, hi), 3)
        return v if abs(v) > 0.02 else 0.1
    params[nm] = g.arr(g.sub(shape, 0.6), f)
    return nm


def config(g, ncmax=3, int_Q=None, mode=None, fixed_ok=True, lin=True, dB=None, sig0=None, shapes=None, tau0=0.0,
           exprs=0.4, nums=0.25, backend=None, I0=True, sharing=0.4, classes=None):
    shape = g.shape(shapes) if shapes else g.shape()
    params = {}
    V = dist(g, "V", params, ncmax, lin, shape=shape)
    S = dist(g, "SRF", params, ncmax, lin, shape=shape)
    quant = {}
    rng = {"tau": (0.02, 2.0), "omega": (0.05, 1.0), "NormBRDF": (0.05, 1.2), "bsf": (0.0, 1.0)}
    extra = []
    for q, (lo, hi) in rng.items():
        def val():
            if q == "tau" and g.p(tau0):
                return g.ch([0.0, 0])
            if q in ("omega", "NormBRDF", "bsf") and g.p(0.04):
                return g.ch([1, 1.0])
            return round(g.u(lo, hi), 3)
        k = g.r.random()
        if k < exprs * (0.5 if q == "bsf" else 1):
            n = g.ch([1, 1, 2])
            names = []
            for _ in range(n):
                pool = extra + [p for p in params if p not in rng and p not in names and pos(params[p])]
                if pool and g.p(sharing):
                    names.append(g.ch(pool))
                else:
                    nm = new_param(g, params, 0.15, 0.9, shape)
                    extra.append(nm)
                    names.append(nm)
            quant[q] = sub_expr(g, sorted(set(names)))
        elif k < exprs + nums:
            quant[q] = g.arr(g.sub(shape, 0.8), val)
        elif q == "bsf" and g.p(0.5):
            pass
        else:
            params[q] = g.arr(g.sub(shape, 0.5), val)
    mode = mode or g.ch(["mono", "bi"])
    angs = ["t_0", "p_0"] if mode == "mono" else ["t_0", "t_ex", "p_0", "p_ex"]
    fixed, vals = {}, {}
    for a in angs:
        f = g.theta if a[0] == "t" else g.phi
        if fixed_ok and (mode == "bi" or a == "p_0") and g.p(0.3):
            fixed[a] = f()
        else:
            vals[a] = g.arr(g.sub(shape, 0.35), f)
    c = {"backend": backend or g.ch(["sympy", "symengine"]), "V": V, "SRF": S,
         "int_Q": bool(g.p(0.7)) if int_Q is None else int_Q,
         "sig0": bool(g.p(0.5)) if sig0 is None else sig0,
         "dB": bool(g.p(0.3)) if dB is None else dB,
         "I0": g.ch([1.0, 1, round(g.u(0.2, 4), 2), 2]) if I0 else 1.0,
         "quant": quant, "params": params, "geom": {"mode": mode, "fixed": fixed, "vals": vals}}
    return c


def pos(v):
    if isinstance(v, list):
        return all(pos(i) for i in v)
    return v > 0
