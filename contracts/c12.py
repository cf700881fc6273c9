"""C12: results only depend on the current configuration, not on the history.

lru_cache is modelled with its real meaning (a store per function, keyed by the arguments, emptied by cache_clear).
Every unit: arbitrary configuration, evaluated before (any of the listed evaluations: caches filled), change of the
configuration (, evaluation, second change); then every result must equal the one of a new model, and every entry that
is stored afterwards must be the one which the new model has (the invariant that makes the step inductive)."""
from .cfg import *
from pyvc import stubs

KEY = SStr(v("key", "U"), "key")
NAMES = ["tau", "omega", "NormBRDF", "bsf"]


class Store:
    """the meaning of functools.lru_cache (without evictions: they only lead to a new evaluation)."""

    def __init__(self):
        self.d = {}

    @staticmethod
    def key(a, k):
        return tuple((id(x) if not isinstance(x, (str, int, SStr)) else (x.u if isinstance(x, SStr) else x)) for x in a) + tuple(sorted(k.items()))

    def call(self, cf, a, k):
        m = self.d.setdefault(id(cf), {})
        q = self.key(a, k)
        if q not in m:
            m[q] = (a, cf.f(*a, **k))
        return m[q][1]

    def clear(self, cf):
        self.d.pop(id(cf), None)


class Cfg:
    """the current configuration."""

    def __init__(self):
        self.mode, self.fixed, self.ang = "mono", {}, {}
        self.q = {}
        self.env = Env()
        self.sw = {"sig0": False, "dB": False, "int_Q": True, "I0": I0()}
        self.n, self.params = 0, []

    def name(self, b):
        self.n += 1
        return f"{b}{self.n}"

    def val(self, n, fixed=False):
        x = self.name(n)
        if n in ("t_0", "t_ex"):
            W.assume(Lt(ZERO, cos(v(x))))
            W.assume(Lt(cos(v(x)), ONE))
        return Arr(v(x), SCALAR if fixed else Shape((), frozenset({x})), "py" if fixed else "np")

    def free(self):
        return [a for a in (("t_0", "p_0") if self.mode == "mono" else ANG) if a not in self.fixed]


def geom(mode, fixed=()):
    def op(R, C):
        C.mode = mode
        C.fixed = {a: C.val(a, True) for a in fixed}
        (R.set_monostatic if mode == "mono" else R.set_bistatic)(**C.fixed)
        C.ang.update(C.fixed)
        angles(None)(R, C)
    op.__name__ = geo_name((mode, fixed))
    return op


def angles(names):
    def op(R, C):
        kw = {a: C.val(a) for a in (names or C.free()) if a in C.free()}
        C.ang.update(kw)
        if kw:
            R.set_geometry(**kw)
    op.__name__ = "set_geometry(" + ",".join(names or ()) + ")"
    return op


def params(how):
    def op(R, C):
        p = pdict(C.name("P"))
        C.env.update(p)
        C.params.append(p)
        if how != "update_params":
            with fresh_caches():
                new_model(C)    # precondition tau > 0, also with the new values
        getattr(R, how)(**p)
    op.__name__ = how + "(params)"
    return op


def quantity(n, kind):
    def op(R, C):
        if kind == "np":
            x = C.name(n)
            val = Arr(v(x), Shape((), frozenset({x})), "np")
        else:
            val = SStr(v("e:" + C.name(n), "U"), "expr")
        C.q[n] = val
        setattr(R, n, val)
    op.__name__ = f"{n} = {kind}"
    return op


def switch(n, val):
    def op(R, C):
        x = I0() if val is None else val
        if val is None:
            nm = C.name("I0")
            W.assume(Lt(ZERO, v(nm)))
            x = Arr(v(nm), Shape((), frozenset({nm})), "np")
        C.sw[n] = x
        setattr(R, n, x)
    op.__name__ = f"{n} = {val}"
    return op


def seq(*ops):
    def op(R, C):
        for o in ops:
            o(R, C)
    op.__name__ = "; ".join(o.__name__ for o in ops)
    return op


def ev_all(R, C, what=("surface", "volume", "interaction", "calc", "jac")):
    out = []
    for w in what:
        if w == "jac":
            pl = list(NAMES) + ([KEY] if C.has_key else [])
            out += [("jacobian " + str(k), to_arr(x).t) for k, x in zip(pl, list(as_seq(R.jacobian(param_list=pl))))]
        elif w == "calc":
            r = to_arr(R.calc())
            out += [(f"calc {i}", r.at(c(i)).t) for i in range(int(cval(canon(r.length()))))]
        elif w == "interaction" and not C.sw["int_Q"]:
            continue
        else:
            out.append((w, to_arr(getattr(R, w)()).t))
    return out


class fresh_caches:
    """a new model does not share the caches of the one under test (nor does creating it clear them)."""

    def __enter__(self):
        self.old, stubs.CacheFn.mode = stubs.CacheFn.mode, Store()

    def __exit__(self, *a):
        stubs.CacheFn.mode = self.old


def new_model(C):
    """a new model with the current configuration (within fresh_caches)."""
    F = C.P.RT1(V=C.V, SRF=C.S, **C.sw)
    for n, x in C.q.items():
        setattr(F, n, x)
    (F.set_monostatic if C.mode == "mono" else F.set_bistatic)(**C.fixed)
    kw = {a: C.ang[a] for a in C.free()}
    if kw:
        F.set_geometry(**kw)
    for p in C.params:
        F.update_params(**p)
    W.assume(Lt(ZERO, to_arr(F.tau).t))
    return F


ALL = ("surface", "volume", "interaction", "calc", "jac")
REV = ALL[::-1]


def unit(first, before, ops, between=None, has_key=True, order=ALL, other=False):
    """first: operations that define the first configuration; before: evaluations; ops: changes."""
    def setup():
        return loaded()

    def body(P):
        st = Store()
        stubs.CacheFn.mode = st
        try:
            return run(P, st)
        finally:
            stubs.CacheFn.mode = None

    def run(P, st):
        V, S = AbsScatter("V"), AbsScatter("SRF")
        C = Cfg()
        C.has_key = has_key
        C.P, C.V, C.S = P, V, S
        R = P.RT1(V=V, SRF=S, **C.sw)
        for o in first:
            o(R, C)
        if has_key:
            for n in QUANT:
                W.assume(Not(ueq(KEY.u, v("'" + n, "U"))))
            W.assume(C.env.d.has(KEY))
        W.assume(Lt(ZERO, to_arr(R.tau).t))
        ev_all(R, C, before)
        for i, o in enumerate(ops):
            o(R, C)
            if between and i + 1 < len(ops):
                ev_all(R, C, between)
        with fresh_caches():
            F = new_model(C)
            b = ev_all(F, C, order)
        if other:
            # another model is used in between (the caches are shared by all objects)
            for n in ("N_V2", "N_S2"):
                W.assume(Le(ONE, v(n, "I")))
            O = P.RT1(V=AbsScatter("V2"), SRF=AbsScatter("S2"), **C.sw)
            O.set_bistatic()
            O.set_geometry(**{n: C.val(n) for n in ANG})
            O.update_params(**pdict("PO"))
            W.assume(Lt(ZERO, to_arr(O.tau).t))
            for w in ("surface", "volume", "interaction"):
                if w != "interaction" or C.sw["int_Q"]:
                    getattr(O, w)()
        a = ev_all(R, C, order)
        out = [holds("same number of results", len(a) == len(b))]
        for (n, x), (_, y) in zip(a, b):
            out.append(prove_eq(f"{n} equals the result of a new model", x, y))
        return out
    o = "" if order is ALL else " (results in the order " + ",".join(order) + ")"
    nm = o + (" (other model in between)" if other else "") + " | ".join(o.__name__ for o in ops)
    f = "; ".join(o.__name__ for o in first)
    return Unit(f"C12 [{f}] evaluated: {','.join(before)} | {nm}" + (f" (evaluated in between: {','.join(between)})" if between else ""), setup, body,
                auto=auto_default, contracts=["RT1 (cache invariant)"], min_obls=5,
                assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0", "tau > 0"])


def base(geo, quants="expr"):
    o = [quantity(n, quants) for n in QUANT] if quants != "default" else []
    return o + [geom(*geo), params("update_params")]


def ops_list():
    g = [geom("mono"), geom("mono", ("p_0",)), geom("bi"), geom("bi", ("t_0",)), geom("bi", ("t_ex", "p_ex")), geom("bi", ANG)]
    a = [angles(("t_0",)), angles(("p_0",)), angles(("t_ex",)), angles(("p_ex",)), angles(ANG)]
    p = [params(h) for h in ("update_params", "calc", "surface", "volume", "interaction")]
    q = [quantity(n, k) for n in QUANT for k in ("expr", "np")]
    s = [switch("sig0", True), switch("dB", True), switch("int_Q", False), switch("I0", None)]
    return g, a, p, q, s


def units(tier):
    g, a, p, q, s = ops_list()
    us = []
    bi, mono, fx = ("bi", ()), ("mono", ()), ("bi", ("t_0", "p_0"))
    for o in g + a + p + q + s:
        us.append(unit(base(bi), ALL, [o]))
    for o in g + a[:2] + p[:2]:
        us.append(unit(base(mono), ALL, [o], order=REV))
    for o in g + a[2:4] + p[:2]:
        us.append(unit(base(fx), ALL, [o], order=REV))
    us.append(unit(base(bi), ALL, [a[2]], other=True))
    us.append(unit(base(mono), ALL, [p[0]], other=True))
    if tier == "thorough":
        for o in a + p:
            us += [unit(base(mono), ALL, [o]), unit(base(fx), ALL, [o])]
        for o in g + a + p[:1] + q + s:
            us.append(unit(base(bi), ALL, [o], order=REV))
        few = [g[0], g[2], g[4], a[0], a[2], p[0], p[4], q[0], q[1], q[4], q[6], s[0], s[1], s[2]]
        for x in few:
            for w in ALL:
                us.append(unit(base(bi), (w,), [x]))
            for y in few:
                us.append(unit(base(bi), ALL, [x, y]))
                us.append(unit(base(mono), ALL, [x, y], between=ALL, order=REV))
    return us
