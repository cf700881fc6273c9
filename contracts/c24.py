"""C24: analyzer sliders and curves.

Contract of matplotlib: Slider(ax, label, valmin, valmax, valinit=...) keeps the range and has the value valinit limited to the range;
set_val calls the observers; ax.plot(x, y) adds a line with these data, set_ydata replaces them."""
import math

from .cfg import *
from pyvc import stubs
from pyvc.stubs import Stub

CURVES = ["Total", "Surface", "Volume", "Interaction"]


class Any:
    """an object whose behaviour is not looked at"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Any()

    def __call__(self, *a, **k): return Any()
    def __getitem__(self, i): return Any()


class Line:
    def __init__(self, x, y, kw):
        self.x, self.y, self.kw = x, y, kw
        self.shown = True

    def set_ydata(self, y): self.y = y
    def set_xdata(self, x): self.x = x

    def set_data(self, x, y):
        self.x, self.y = x, y

    def get_xdata(self, *a, **k): return self.x
    def get_ydata(self, *a, **k): return self.y
    def get_label(self): return self.kw.get("label")
    def set_label(self, x): self.kw = {**self.kw, "label": x}
    def remove(self): self.shown = False

    def set_visible(self, b):
        if b is not True:
            raise Unsupported("hidden line")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Any()


class Ax(Any):
    def __init__(self):
        self.drawn = []

    @property
    def lines(self):
        return [l for l in self.drawn if l.shown]

    def plot(self, *a, **kw):
        if len(a) == 3:
            return [Any()]      # (3D)
        if len(a) != 2:
            raise Unsupported("plot arguments")
        l = Line(a[0], a[1], kw)
        self.drawn.append(l)
        return [l]

    def clear(self):
        self.drawn = []

    cla = clear


class Grid:
    """grid of positions"""

    def __init__(self, nrows=1, ncols=1, subplot_spec=None, **kw):
        self.n = int(nrows) * int(ncols)

    def __len__(self): return self.n

    def __getitem__(self, i):
        if isinstance(i, int):
            if not -self.n <= i < self.n:
                raise IndexError(i)
        return Any()

    def update(self, **k): pass


class Slider:
    made = []

    def __init__(self, ax, label, valmin, valmax, *, valinit=0.5, valstep=None, **kw):
        if not set(kw) <= {"valfmt", "closedmin", "closedmax", "dragging", "orientation", "initcolor", "track_color", "handle_style", "color",
                           "facecolor", "alpha", "lw", "fc"}:
            raise Unsupported(f"slider options {sorted(kw)}")
        if valstep is not None:
            raise Unsupported("valstep")
        self.valmin, self.valmax, self.label = valmin, valmax, label
        lo, hi, x = [to_arr(y).t for y in (valmin, valmax, valinit)]
        self.val = valinit
        if not core.entails(W.pc, And(Le(lo, x), Le(x, hi))):
            self.val = Arr(ite(Lt(x, lo), lo, ite(Lt(hi, x), hi, x)), SCALAR, "py")
        self.valinit = self.val
        self.obs = []
        Slider.made.append(self)

    def on_changed(self, f):
        self.obs.append(f)
        return len(self.obs)

    def set_val(self, x):
        self.val = x
        for f in self.obs:
            f(x)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Any()


class Radio(Any):
    def __init__(self, ax, labels, **kw):
        self.labels, self.fs = labels, []

    def on_clicked(self, f):
        self.fs.append(f)


class Fig(Any):
    def add_subplot(self, *a, **k): return Ax()


def mpl():
    plt = Stub("matplotlib.pyplot", {"figure": lambda *a, **k: Fig(), "subplots": lambda *a, **k: (Fig(), Ax())})
    mods = {
        "pyplot": plt,
        "lines": Stub("matplotlib.lines", {}),
        "collections": Stub("matplotlib.collections", {"LineCollection": lambda *a, **k: Any()}),
        "widgets": Stub("matplotlib.widgets", {"Slider": Slider, "RadioButtons": Radio}),
        "gridspec": Stub("matplotlib.gridspec", {"GridSpec": Grid, "GridSpecFromSubplotSpec": Grid}),
    }
    out = {"matplotlib." + n: m for n, m in mods.items()}
    out["matplotlib"] = Stub("matplotlib", mods)
    return out


def results(self, rows):
    """contract of the evaluation of a model: functions of the current configuration (C05, C12)."""
    ang = [to_arr(x) for x in (self.t_0, self.t_ex, self.p_0, self.p_ex)]
    qs = [to_arr(getattr(self, n)) for n in QUANTS]
    d = self.param_dict
    for kind in ("V", "SRF"):
        if not W.decide(pred("covered", v("names:pf:" + kind, "U"), d.env)):
            raise KeyError("missing parameter")
    bodies, sh = broadcast([(a.t, a.sh) for a in ang + qs + [to_arr(self.I0)]] + [(ZERO, Shape((), d.val_base))])
    sw = "".join("1" if x is True else "0" if x is False else "?" for x in (self.sig0, self.dB, self.int_Q))
    if "?" in sw:
        raise Unsupported("switches")
    k = fresh("row", "I")
    t = fn("calc:" + sw, k, *bodies[:9], d.env)
    if rows is None:
        n = 4 if self.int_Q else 3
        return Arr(t, Shape((Dim(n, k),) + sh.lead, sh.base), "np")
    return Arr(subst(t, {k: c(rows)}), sh, "np")


def c_calc(self, **params):
    self.update_params(**params)
    return results(self, None)


def single(row):
    def f(self, **params):
        self.update_params(**params)
        return results(self, row)
    return f


def numpy_drawing():
    """numpy of the drawing code: arrays of segments are only drawn"""
    np = stubs.make_numpy()
    np.__dict__["dstack"] = lambda *a: Any()
    return np


def setup():
    P = loaded(no_plot=False, extra_stubs={**mpl(), "numpy": numpy_drawing()})
    cls = P.RT1
    cls.calc = c_calc
    for n, row in (("surface", 1), ("volume", 2), ("interaction", 3), ("_surface_volume", 4)):
        if hasattr(cls, n):
            setattr(cls, n, single(row))
    return P


def num(n):
    return Arr(v(n), SCALAR, "py")


def given(n, size):
    """specification of a parameter: (min, max[, start[, name]]) and what it means"""
    lo, hi, st = num(n + "_min"), num(n + "_max"), num(n + "_start")
    W.assume(Lt(lo.t, hi.t))
    W.assume(And(Le(lo.t, st.t), Le(st.t, hi.t)))
    name = SStr(v("label:" + n, "U"), "label")
    W.assume(Not(ueq(name.u, v("'", "U"))))     # (names are not empty)
    tup = (lo, hi, st, name)[:size]
    return tup, (lo.t, hi.t, st.t if size > 2 else (lo.t + hi.t) / 2, name if size > 3 else n)


def same_label(a, b):
    if isinstance(a, SStr) and isinstance(b, SStr):
        return a.u is b.u
    return isinstance(a, str) and isinstance(b, str) and a == b


def check_slider(n, s, want):
    lo, hi, x, label = want
    return [prove_eq(f"slider {n}: minimum", to_arr(s.valmin).t, lo), prove_eq(f"slider {n}: maximum", to_arr(s.valmax).t, hi),
            prove_eq(f"slider {n}: initial value", to_arr(s.val).t, x), holds(f"slider {n}: label", same_label(s.label, label), f"{s.label} for {label}")]


QUANTS = ("tau", "omega", "NormBRDF", "bsf")


def model(P, sw):
    R = P.RT1(V=AbsScatter("V"), SRF=AbsScatter("SRF"), sig0=sw[0], dB=sw[1], int_Q=sw[2])
    u = v("P0", "U")
    R.update_params(**PDict(u, [("base", u)], frozenset()))
    return R


def curves(R, P, sw, ax, vals, tag):
    """the first lines of the plot are the results of a model with the values of the sliders"""
    n = 4 if sw[2] else 3
    ls = ax.lines
    out = [holds(f"{tag}: curves {', '.join(CURVES[:n])}", len(ls) >= n and [l.kw.get("label") for l in ls[:n]] == CURVES[:n],
                 str([l.kw.get("label") for l in ls]))]
    if out[0].status != "proved":
        return out
    x = to_arr(ls[0].x)
    R2 = model(P, sw)
    R2.set_monostatic(p_0=0)
    R2.set_geometry(t_0=Arr(x.t * PI / 180, x.sh, "np"))
    R2.update_params(**{k: Arr(t, SCALAR, "py") for k, t in vals.items()})
    res = R2.calc()
    for i in range(n):
        xi, yi, want = to_arr(ls[i].x), to_arr(ls[i].y), res.at(c(i))
        ok = len(xi.sh.lead) == 1 and len(yi.sh.lead) == 1 and tm.equal(xi.sh.lead[0].n, yi.sh.lead[0].n)
        out.append(holds(f"{tag}: {CURVES[i]}: one value for each angle", ok, f"{xi.sh} {yi.sh}"))
        if not ok:
            continue
        k = x.sh.lead[0].k
        out.append(prove_eq(f"{tag}: {CURVES[i]}: angles", subst(xi.t, {xi.sh.lead[0].k: k}), x.t))
        kw = want.sh.lead[-1].k
        out.append(prove_eq(f"{tag}: {CURVES[i]} is the result of the model", subst(yi.t, {yi.sh.lead[0].k: k}), subst(want.t, {kw: k})))
    return out


def analyze_unit(sizes, sw, how="class", moved=(), rng=None):
    names = list(sizes)

    def body(P):
        plot = P.L.load("plot")
        Slider.made = []
        R = model(P, sw)
        for n in names:
            W.assume(Not(env_has(v("P0", "U"), v("'" + n, "U"))))
            if n not in QUANTS:
                W.assume(Or(*[pred("insym", v("'" + n, "U"), v("names:pf:" + k, "U")) for k in ("V", "SRF")]))
        sp = {n: given(n, sizes[n]) for n in names}
        kw = {n: t for n, (t, _) in sp.items()}
        if rng is not None:
            kw["range_parameter"] = rng
        A = plot.Analyze(R, **kw) if how == "class" else R.analyze(**kw)
        out = [holds("one slider for each parameter", sorted(A.sliders) == sorted(names), str(list(A.sliders)))]
        for n in names:
            if n in A.sliders:
                out += check_slider(n, A.sliders[n], sp[n][1])
        vals = {n: sp[n][1][2] for n in names}
        out += curves(R, P, sw, A.ax, vals, "initial")
        for i, ms in enumerate(moved):
            for n in ms:
                x = num(f"{n}_moved{i}")
                W.assume(And(Le(v(n + "_min"), x.t), Le(x.t, v(n + "_max"))))
                vals[n] = x.t
                A.sliders[n].set_val(x)
            out += curves(R, P, sw, A.ax, vals, f"moved {','.join(ms)}")
        return out
    nm = f"C24 {how} {sizes} {'sig0 ' if sw[0] else ''}{'dB ' if sw[1] else ''}{'int_Q ' if sw[2] else ''}" + (f"moved {moved}" if moved else "") + (f" range of {rng}" if rng else "")
    u = Unit(nm, setup, body, auto=auto_default, min_obls=4 + 4 * len(names),
                contracts=["plot.Analyze.__init__", "plot.Analyze._parse_parameters", "plot.Analyze._update"],
                assume=["matplotlib: Slider, plot and set_ydata as documented", "min <= start <= max", "number of parameters of a unit: " + str(len(names))])
    u.bounded = f"{len(names)} analyzed parameters"
    return u


def analyze3d_unit(sizes, how="class", contributions=None):
    """sliders of the 3D analyzer (its surfaces are not part of the property)"""
    names = list(sizes)

    def body(P):
        plot = P.L.load("plot")
        Slider.made = []
        R = model(P, (False, False, True))
        for n in names:
            W.assume(Not(env_has(v("P0", "U"), v("'" + n, "U"))))
            if n not in QUANTS:
                W.assume(Or(*[pred("insym", v("'" + n, "U"), v("names:pf:" + k, "U")) for k in ("V", "SRF")]))
        sp = {n: given(n, sizes[n]) for n in names}
        kw = {n: t for n, (t, _) in sp.items()}
        if contributions:
            kw["contributions"] = contributions
        A = plot.Analyze3D(R, **kw) if how == "class" else R.analyze3d(**kw)
        have = {n: s for n, s in A.sliders.items() if n in names}
        out = [holds("one slider for each parameter", sorted(have) == sorted(names), str(list(have)))]
        for n in have:
            out += check_slider(n, have[n], sp[n][1])
        return out
    u = Unit(f"C24 3D {how} {sizes}" + (f" {contributions}" if contributions else ""), setup, body, auto=auto_default, min_obls=1 + 4 * len(names),
                contracts=["plot.Analyze3D.__init__", "plot.Analyze._parse_parameters"],
                assume=["matplotlib: Slider as documented", "min <= start <= max", "number of parameters of a unit: " + str(len(names))])
    u.bounded = f"{len(names)} analyzed parameters"
    return u


def units(tier):
    us = []
    sws = [(a, b, q) for a in (False, True) for b in (False, True) for q in (True, False)]
    lin = (False, False, True)
    for n in (2, 3, 4):
        us.append(analyze_unit({"tau": n}, lin, moved=[("tau",)]))
    us.append(analyze_unit({}, lin))
    us.append(analyze_unit({"tau": 3, "omega": 2}, lin, "method", moved=[("tau",), ("omega",), ("tau",)]))
    us.append(analyze_unit({"omega": 4, "x": 2, "tau": 3}, lin, moved=[("omega", "x", "tau")]))
    us.append(analyze_unit({"bsf": 2, "omega": 3, "NormBRDF": 4, "tau": 2, "x": 3}, lin, moved=[("x",), ("bsf",)]))
    us.append(analyze_unit({"tau": 3, "omega": 2}, lin, moved=[("tau",), ("omega",)], rng="tau"))
    us.append(analyze3d_unit({"tau": 2, "omega": 4, "x": 3}))
    us.append(analyze3d_unit({"tau": 3, "omega": 2}, "method", "tsvi"))
    for sw in sws:
        us.append(analyze_unit({"x": 3, "tau": 2}, sw, moved=[("tau",), ("x",)]))
    return us
