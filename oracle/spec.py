"""Independent numerical specification of the documented model (numpy only).

Nothing here imports rt1_model or sympy: formulas are taken from the property statements and the
theory documentation, integrals are done numerically."""
import math
import numpy as np
from numpy.polynomial.legendre import leggauss, legval

GL_X, GL_W = leggauss(160)

_FUNCS = {k: getattr(np, k) for k in ("sin", "cos", "exp", "sqrt", "log", "tanh")}


def ev(expr, params):
    """value of a number or of an expression string."""
    if isinstance(expr, str):
        return eval(expr, {"__builtins__": {}}, {**_FUNCS, "pi": math.pi, **params})
    return expr


A_DEF = {"V": [-1.0, 1.0, 1.0], "SRF": [1.0, 1.0, 1.0]}


def a_of(d, kind, params):
    a = d["kw"].get("a")
    if a is None:
        a = A_DEF[kind]
    return [ev(i, params) for i in a]


def cosang(a, t0, tx, p0, px):
    return (a[0] * np.cos(t0) * np.cos(tx)
            + np.sin(t0) * np.sin(tx) * (a[1] * np.cos(p0) * np.cos(px) + a[2] * np.sin(p0) * np.sin(px)))


def hg(t, x):
    return (1 - t * t) / (1 + t * t - 2 * t * x) ** 1.5


def nadir_norm(a0, t):
    """hemispherical reflectance of (1/pi) HG at nadir incidence, by numerical integration."""
    from scipy.integrate import quad
    # BRDF(nadir -> mu) depends on cos(angle) = a0 * mu
    return quad(lambda mu: 2 * mu * hg(t, a0 * mu), 0, 1, epsabs=0, epsrel=1e-11, limit=400)[0]


def shape_fn(d, kind, params):
    """closed form as a function of the cosine of the scattering angle."""
    c = d["cls"]
    t = ev(d["kw"].get("t"), params) if "t" in d["kw"] else None
    pi = math.pi
    if kind == "V":
        if c == "Isotropic":
            return lambda x: 1 / (4 * pi) + 0 * x
        if c == "Rayleigh":
            return lambda x: 3 / (16 * pi) * (1 + x * x)
        if c == "HenyeyGreenstein":
            return lambda x: hg(t, x) / (4 * pi)
        if c == "HGRayleigh":
            return lambda x: 3 / (8 * pi) / (2 + t * t) * (1 + x * x) * hg(t, x)
    else:
        if c == "Isotropic":
            return lambda x: 1 / pi + 0 * x
        if c == "CosineLobe":
            i = d["kw"]["i"]
            if i == 0:
                return lambda x: 1 / pi + 0 * x
            return lambda x: np.where(x > 0, x, 0.0) ** i / pi
        if c == "HenyeyGreenstein":
            return lambda x: hg(t, x) / pi
        if c == "HG_nadirnorm":
            n = nadir_norm(a_of(d, kind, params)[0], t)
            return lambda x: hg(t, x) / pi / n
    raise KeyError(c)


def phase(d, kind, t0, tx, p0, px, params):
    if d["cls"] == "LinComb":
        return sum(ev(w, params) * phase(o, kind, t0, tx, p0, px, params) for w, o in d["choices"])
    return shape_fn(d, kind, params)(cosang(a_of(d, kind, params), t0, tx, p0, px))


def ncoefs(d):
    if d["cls"] == "LinComb":
        return max(ncoefs(o) for _, o in d["choices"])
    return {"Isotropic": 1, "Rayleigh": 3}.get(d["cls"], d["kw"].get("ncoefs"))


def legcoefs(d, kind, params, N):
    """Legendre coefficients c_0..c_{N-1} of the closed form, by quadrature."""
    f = shape_fn(d, kind, params)
    if d["cls"] == "CosineLobe":
        x, w = 0.5 * (GL_X + 1), 0.5 * GL_W
    else:
        x, w = GL_X, GL_W
    fx = f(x)
    return np.array([(2 * n + 1) / 2 * np.sum(w * fx * legval(x, [0] * n + [1])) for n in range(N)])


def groups(d, kind, params):
    """[(a, coefficients)] of the truncated expansion."""
    if d["cls"] != "LinComb":
        return [(a_of(d, kind, params), legcoefs(d, kind, params, ncoefs(d)))]
    g = {}
    for w, o in d["choices"]:
        assert o["cls"] != "LinComb"
        key = tuple(str(float(i)) if not isinstance(i, str) else i for i in (o["kw"].get("a") or A_DEF[kind]))
        g.setdefault(key, []).append((w, o))
    out = []
    for key, lst in g.items():
        N = max(ncoefs(o) for _, o in lst)
        out.append((a_of(lst[0][1], kind, params),
                    sum(ev(w, params) * legcoefs(o, kind, params, N) for w, o in lst)))
    return out


def expansion(grps, t0, tx, p0, px):
    return sum(legval(cosang(a, t0, tx, p0, px), c) for a, c in grps)


def surface(c, e):
    m0, mx, tau = np.cos(e["t_0"]), np.cos(e["t_ex"]), e["tau"]
    f = phase(c["SRF"], "SRF", e["t_0"], e["t_ex"], e["p_0"], e["p_ex"], e["params"])
    return e["I0"] * m0 * e["NormBRDF"] * f * ((1 - e["bsf"]) * np.exp(-tau / m0 - tau / mx) + e["bsf"])


def volume(c, e):
    m0, mx, tau = np.cos(e["t_0"]), np.cos(e["t_ex"]), e["tau"]
    p = phase(c["V"], "V", e["t_0"], e["t_ex"], e["p_0"], e["p_ex"], e["params"])
    return (1 - e["bsf"]) * e["I0"] * e["omega"] * m0 / (m0 + mx) * (1 - np.exp(-tau / m0 - tau / mx)) * p


def _quad_nodes(tau, mu):
    pts = {0.0, 1.0, float(mu)}
    for k in range(-18, 1):
        pts.add(2.0 ** k)
    for k in (0.003, 0.01, 0.03, 0.1, 0.3, 1.0, 3.0):
        if 0 < tau * k < 1:
            pts.add(tau * k)
    p = np.array(sorted(pts))
    x, w = leggauss(24)
    X = (0.5 * (p[1:] - p[:-1])[:, None] * x + 0.5 * (p[1:] + p[:-1])[:, None]).ravel()
    W = (0.5 * (p[1:] - p[:-1])[:, None] * w).ravel()
    return X, W


def azimuth(c, e, swap=False, th=None):
    """integral over phi of p(pi-t0,th,p0,phi)*BRDF(th,tx,phi,px) of the truncated expansions."""
    t0, tx, p0, px = e["t_0"], e["t_ex"], e["p_0"], e["p_ex"]
    if swap:
        t0, tx, p0, px = tx, t0, px, p0
    gv, gs = groups(c["V"], "V", e["params"]), groups(c["SRF"], "SRF", e["params"])
    M = 2 * (ncoefs(c["V"]) + ncoefs(c["SRF"])) + 2
    phi = np.arange(M) * 2 * np.pi / M + 0.1
    th = np.asarray(th)[:, None]
    v = expansion(gv, np.pi - t0, th, p0, phi) * expansion(gs, th, tx, phi, px)
    return np.sum(v, axis=1) * 2 * np.pi / M


def fint(c, e, swap=False):
    tau, mu = e["tau"], np.cos(e["t_ex"] if swap else e["t_0"])
    X, W = _quad_nodes(tau, mu)
    phi = azimuth(c, e, swap, np.arccos(X))
    z = tau * (X - mu) / (mu * X)          # e^{-tau/x} = e^{-tau/mu} e^{z}
    # (e^{-tau/mu}-e^{-tau/x})/(mu-x) without cancellation
    with np.errstate(all="ignore"):
        r = np.where(X == mu, np.exp(-tau / mu) * tau / mu ** 2,
                     np.exp(-tau / mu) * np.expm1(z) / (X - mu))
    r = np.where(z > 600, (np.exp(-tau / X) - np.exp(-tau / mu)) / (X - mu), r)
    return np.sum(W * X * phi * r)


def interaction(c, e):
    m0, mx, tau = np.cos(e["t_0"]), np.cos(e["t_ex"]), e["tau"]
    if tau == 0:
        return 0.0
    return (e["NormBRDF"] * (1 - e["bsf"]) * e["I0"] * e["omega"] * m0
            * (np.exp(-tau / mx) * fint(c, e) + np.exp(-tau / m0) * fint(c, e, True)))


def conv(c, e, val):
    if c["sig0"]:
        val = val * 4 * np.pi * np.cos(e["t_0"]) / e["I0"]
    if c["dB"]:
        with np.errstate(all="ignore"):
            val = 10 * np.log10(val)
    return val


QUANT = ("tau", "omega", "NormBRDF", "bsf")


def elements(c):
    """broadcast shape and one environment per element."""
    g = {k: np.asarray(v, float) for k, v in {**c["geom"]["fixed"], **c["geom"]["vals"]}.items()}
    if c["geom"]["mode"] == "mono":
        g["t_ex"], g["p_ex"] = g["t_0"], g["p_0"] + np.pi
    pars = {k: np.asarray(v, float) for k, v in c["params"].items()}
    q = {k: ev(c["quant"].get(k, 0 if k == "bsf" else k), pars) if not (k == "bsf" and "bsf" not in c["quant"])
         else pars.get("bsf", 0.0) for k in QUANT}
    q = {k: np.asarray(v, float) for k, v in q.items()}
    arrs = {**{"g_" + k: v for k, v in g.items()}, **{"p_" + k: v for k, v in pars.items()},
            **{"q_" + k: v for k, v in q.items()}, "I0": np.asarray(c["I0"], float)}
    used = list(arrs)
    bc = np.broadcast_arrays(*[np.atleast_1d(arrs[k]) for k in used])
    shape = bc[0].shape
    envs = []
    for idx in np.ndindex(*shape):
        v = {k: float(b[idx]) for k, b in zip(used, bc)}
        e = {k: v["g_" + k] for k in ("t_0", "t_ex", "p_0", "p_ex")}
        e.update({k: v["q_" + k] for k in QUANT})
        e["params"] = {k: v["p_" + k] for k in pars}
        e["I0"] = v["I0"]
        e["idx"] = idx
        envs.append(e)
    return shape, envs


def calc(c):
    """expected rows (total, surface, volume[, interaction]) in linear intensity and in units."""
    shape, envs = elements(c)
    n = 4 if c["int_Q"] else 3
    lin = np.zeros((n,) + shape)
    out = np.zeros((n,) + shape)
    for e in envs:
        s, v = surface(c, e), volume(c, e)
        i = interaction(c, e) if c["int_Q"] else 0.0
        row = [s + v + i, s, v, i][:n]
        for k, r in enumerate(row):
            lin[(k,) + e["idx"]] = r
            out[(k,) + e["idx"]] = conv(c, e, r)
    return lin, out


def total_sv(c, e):
    return conv(c, e, surface(c, e) + volume(c, e))


def deriv(c, key, h=1e-5):
    """derivative of surface+volume (in units) for each element; by high-order differences of the spec."""
    shape, envs = elements(c)
    out = np.zeros(shape)
    for e in envs:
        def f(d):
            e2 = dict(e)
            if key in QUANT:
                e2[key] = e[key] + d
            else:
                pars = dict(e["params"])
                pars[key] = pars[key] + d
                e2["params"] = pars
                for q in QUANT:
                    ex = c["quant"].get(q, q)
                    if isinstance(ex, str) and not (q == "bsf" and "bsf" not in c["quant"]):
                        e2[q] = float(ev(ex, pars))
            return total_sv(c, e2)
        # Richardson extrapolated central differences
        d1 = (f(h) - f(-h)) / (2 * h)
        d2 = (f(2 * h) - f(-2 * h)) / (4 * h)
        d4 = (f(4 * h) - f(-4 * h)) / (8 * h)
        r1, r2 = (4 * d1 - d2) / 3, (4 * d2 - d4) / 3
        out[e["idx"]] = (16 * r1 - r2) / 15
    return out
