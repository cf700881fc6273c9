"""C20: pickling preserves the model and leaves the original intact.

Contract of the pickle protocol (pickled): a new object of the class, whose state is a copy of the state that the class hands
over (__getstate__), restored by __setstate__ or by updating __dict__."""
import functools
import types

from .c12 import *
from .c12 import unit as _unit
from pyvc.runtime import VDict, VSet

COPY = object()


def copied(x, memo):
    """copy of a value, as made by dumping and loading it."""
    if id(x) in memo:
        return memo[id(x)]
    if x is None or isinstance(x, (bool, int, float, str, SStr, SExpr, LamFn, T)):
        return x
    if isinstance(x, XPoly):
        return x
    if isinstance(x, BArr):
        r = BArr(x.t, x.sh, x.kind)
    elif isinstance(x, Arr):
        r = Arr(x.t, x.sh, x.kind)
    elif isinstance(x, AbsScatter):
        r = AbsScatter(x.kind, None)
        r.n = x.n
    elif isinstance(x, PDict):
        r = x.copy()
    elif isinstance(x, VDict):
        r = VDict({copied(k, memo): copied(y, memo) for k, y in x.items()})
    elif isinstance(x, dict):
        r = {copied(k, memo): copied(y, memo) for k, y in x.items()}
    elif isinstance(x, (set, frozenset)):
        r = VSet({copied(y, memo) for y in x})
    elif isinstance(x, tuple):
        r = tuple(copied(y, memo) for y in x)
    elif isinstance(x, list):
        r = VList([y if isinstance(y, Splat) else copied(y, memo) for y in list.__iter__(x)])
    elif isinstance(x, SSeq):
        r = x
    elif isinstance(x, types.FunctionType) and x.__qualname__.find("<locals>") < 0:
        r = x
    else:
        raise Unsupported(f"pickling of {type(x).__name__}")
    memo[id(x)] = r
    return r


XPoly = M.XPolyBase


def pickled(R):
    cls = type(R)
    for n in ("__reduce__", "__reduce_ex__", "__getnewargs__", "__getnewargs_ex__", "__copy__", "__deepcopy__"):
        if n in vars(cls) or any(n in vars(b) for b in cls.__mro__[:-1]):
            raise Unsupported(n)
    st = copied(R.__getstate__(), {})
    L = cls.__new__(cls)
    if hasattr(cls, "__setstate__"):
        L.__setstate__(st)
    elif isinstance(st, dict):
        L.__dict__.update(st)
    return L


def same_attr(a, b):
    if a is b:
        return True
    if isinstance(a, PDict) and isinstance(b, PDict):
        return a.env is b.env and a.order == b.order
    return rt.same_value(a, b)


METHODS = ("analyze", "analyze3d", "calc", "surface", "volume", "interaction", "jacobian", "update_params", "set_geometry", "set_monostatic",
           "set_bistatic")


def methods(X, tag):
    return [holds(f"{tag}: method {n} is available", lambda: callable(getattr(X, n, None))) for n in METHODS]


def config(X, C, tag):
    out = [holds(f"{tag}: volume distribution", lambda: getattr(X.V, "kind", None) == "V"),
           holds(f"{tag}: surface distribution", lambda: getattr(X.SRF, "kind", None) == "SRF")]
    for n, x in C.sw.items():
        y = getattr(X, n)
        out.append(holds(f"{tag}: {n}", lambda: type(y) is bool and y == x) if isinstance(x, bool) else prove_eq(f"{tag}: {n}", to_arr(y).t, to_arr(x).t))
    out.append(prove_eq(f"{tag}: parameter values", X.param_dict.env, C.env.env))
    return out


def unit(first, before, ops, times=1, on="both", after=ALL):
    """first: configuration, before: evaluations before pickling, ops: changes afterwards (of the restored model, the original or both)."""
    def setup():
        return loaded(no_plot=False)

    def body(P):
        stubs.CacheFn.mode = Store()
        try:
            return run(P)
        finally:
            stubs.CacheFn.mode = None

    def run(P):
        V, S = AbsScatter("V"), AbsScatter("SRF")
        C = Cfg()
        C.has_key = True
        C.P, C.V, C.S = P, V, S
        R = P.RT1(V=V, SRF=S, **C.sw)
        for o in first:
            o(R, C)
        for n in QUANT:
            W.assume(Not(ueq(KEY.u, v("'" + n, "U"))))
        W.assume(C.env.d.has(KEY))
        W.assume(Lt(ZERO, to_arr(R.tau).t))
        ev_all(R, C, before)
        old = dict(R.__dict__)
        L = R
        for _ in range(times):
            L = pickled(L)
        now = R.__dict__
        out = [holds("pickling does not change the state of the original", lambda: set(now) == set(old) and all(same_attr(now[k], old[k]) for k in old)),
               holds("the restored model is another object", lambda: L is not R)]
        for tag, X in (("original", R), ("restored", L)):
            out += methods(X, tag) + config(X, C, tag)
        if not ops:
            b = results(C)
            for tag, X in (("restored", L), ("original", R)):
                out += same(tag, ev_all(X, C, after), b)
            return out
        for o in ops:
            if on == "both":
                C2 = fork(C)
                o(R, C2)
                o(L, C)
            else:
                o(L if on == "restored" else R, C)
        b = results(C)
        for tag, X in (("restored", L), ("original", R)):
            if on in ("both", tag):
                out += same(tag, ev_all(X, C, after), b)
        return out

    def results(C):
        with fresh_caches():
            return ev_all(new_model(C), C, after)

    def same(tag, a, b):
        out = [holds("same number of results", len(a) == len(b))]
        return out + [prove_eq(f"{tag}: {n} equals the one of a model that was never pickled", x, y) for (n, x), (_, y) in zip(a, b)]
    f = "; ".join(o.__name__ for o in first)
    nm = f"C20 [{f}] evaluated: {','.join(before) or '-'} | pickled" + (f" {times} times" if times > 1 else "")
    if ops:
        nm += f" | {on}: " + "; ".join(o.__name__ for o in ops)
    return Unit(nm, setup, body, auto=auto_default, contracts=["RT1.__getstate__"], min_obls=12,
                assume=[COMPLETE, "zenith angles in (0, pi/2)", "I0 > 0", "tau > 0",
                        "the library (cloudpickle) copies the values of the state faithfully", "fn_input, if given, are the model's own coefficients"])


def fork(C):
    import copy
    r = copy.copy(C)
    r.fixed, r.ang, r.q, r.sw, r.params = dict(C.fixed), dict(C.ang), dict(C.q), dict(C.sw), list(C.params)
    r.env = Env()
    r.env.d = C.env.d.copy()
    return r


def units(tier):
    us = []
    bi, mono, fx, mf = ("bi", ()), ("mono", ()), ("bi", ("t_0", "p_0")), ("mono", ("p_0",))
    for g in (bi, mono, fx, mf):
        for b in ((), ALL, ("calc",), ("jac",)):
            us.append(unit(base(g), b, []))
    us.append(unit(base(bi), ALL, [], times=2))
    us.append(unit(base(bi) + [switch("sig0", True), switch("dB", True)], ALL, []))
    us.append(unit(base(bi) + [switch("int_Q", False), switch("I0", None)], ALL, []))
    us.append(unit(base(bi, "np"), ALL, []))
    us.append(unit(base(bi, "default"), ALL, []))
    g, a, p, q, s = ops_list()
    for o in g[:1] + g[2:4] + a[:1] + a[4:] + p[:2] + q[:2] + s:
        for on in ("restored", "original"):
            us.append(unit(base(bi), ALL, [o], on=on))
    if tier == "thorough":
        for o in g + a[:2] + p + q + s:
            for on in ("restored", "original"):
                us.append(unit(base(mono), ALL, [o], on=on))
                us.append(unit(base(bi), (), [o], on=on))
    return us
