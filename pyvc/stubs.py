"""Contracts of the libraries that the verified code uses (numpy, sympy, symengine, scipy, functools, ...).

Everything in this file is a trusted assumption about a dependency. Names that are not listed are unsupported."""
import builtins
import contextlib
import functools
import types

from .terms import *
from . import terms as tm
from . import core
from .core import W, Unsupported, Failed
from . import values as V
from .values import *
from . import runtime as rt


class Stub:
    """module whose unknown names are unsupported (when they are used)."""

    def __init__(self, name, entries):
        self.__dict__["_name"] = name
        self.__dict__.update(entries)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(f"{self._name}.{n}")


class Missing:
    def __init__(self, n):
        self.n = n

    def __call__(self, *a, **k):
        raise Unsupported(self.n)

    def __getattr__(self, n):
        if n.startswith("__") or n == "_vc_instance":
            raise AttributeError(n)
        return Missing(f"{self.n}.{n}")

    def __iter__(self):
        raise Unsupported(self.n)

    def __bool__(self):
        raise Unsupported(self.n)

    def _bad(self, *a):
        raise Unsupported(self.n)

    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __eq__ = _bad
    __hash__ = object.__hash__


# ------------------------------------------------------------------------------------ numpy
def numeric(x):
    if isinstance(x, (SExpr, SStr, str)) or x is None:
        raise Unsupported(f"numpy function of {type(x).__name__}")
    return x


def plain(d, integer=False):
    """dtypes that keep the (mathematical) value."""
    if d is None or d is object or getattr(d, "__name__", d) in ("float", "float64", "number", "floating", "object", "object_", "complex", "d", "float64"):
        return
    if integer and getattr(d, "__name__", d) in ("int", "int64", "integer"):
        return
    raise Unsupported(f"dtype {d}")


def options(kw, *ok):
    """keyword arguments without an influence on values."""
    for k in kw:
        if k not in ok:
            raise Unsupported(f"option {k}={kw[k]}")


def ufunc(f, name=None):
    def g(x, out=None, **kw):
        if out is not None or kw:
            raise Unsupported("ufunc options")
        r = ew(f, numeric(np_array(x) if isinstance(x, (list, tuple)) else x))
        return Arr(r.t, r.sh, "np")
    return g


def binary(f):
    def g(x, y, **kw):
        if kw:
            raise Unsupported("ufunc options")
        r = ew(f, numeric(x), numeric(y))
        return Arr(r.t, r.sh, "np")
    return g


def cmp2(f):
    def g(x, y):
        r = cmpop(f, x, y)
        return r if isinstance(r, BArr) else BArr(formula(r))
    return g


def log10_(x):
    return mul(log(x), power(log(c(10)), c(-1)))


def np_array(x, dtype=None, **kw):
    options(kw, "copy", "subok", "order")
    plain(dtype, isinstance(x, Arr) and x.kind == "int")
    if isinstance(x, (BArr,)):
        return BArr(x.t, x.sh)
    if isinstance(x, Arr):
        return Arr(x.t, x.sh, "np")
    if isinstance(x, ToList):
        return Arr(x.a.t, x.a.sh)
    if isinstance(x, (list, tuple, SSeq)):
        return stack_items(as_seq(x), "array")
    if isinstance(x, (int, float, SBool)):
        return Arr(to_arr(x).t, to_arr(x).sh, "np")
    if isinstance(x, SExpr):
        return Arr(x.t)
    raise Unsupported(f"np.array of {type(x).__name__}")


def stack_items(seq, what):
    segs = seq.segs
    if not segs:
        raise Unsupported("empty array")
    vals = [to_arr(s[1] if s[0] == "one" else s[3] if s[0] == "gen" else _bad_seg(s)) for s in segs]
    desc = {v_.sh.desc() for v_ in vals}
    if len(desc) > 1:
        raise Failed("stack-shapes", f"np.{what} of arrays with the shapes {sorted(map(str, [v_.sh for v_ in vals]))}")
    if any(not v_.sh.exact for v_ in vals) and (len(vals) > 1 or segs[0][0] == "gen"):
        raise Failed("stack-shapes", f"np.{what} of arrays that may have different shapes")
    kind_b = all(isinstance(v_, BArr) for v_ in vals)
    n = canon(seq.length())
    if isc(n) and cval(n) == 1 and segs[0][0] == "one" and not vals[0].sh.lead and not vals[0].sh.base and what == "array":
        # an axis of length 1 (broadcasts like a number)
        return type(vals[0])(vals[0].t, SCALAR, "np")
    k = fresh("ax", "I")
    inner = vals[0].sh
    t, off, parts = None, ZERO, []
    bodies = [a.t for a in vals]
    if inner.lead and len(vals) > 1:
        # the other axes are those of all items
        bodies, inner = broadcast([(a.t, a.sh) for a in vals])
    for s, b in zip(segs, bodies):
        if s[0] == "one":
            parts.append((Eq(k, off), b, off))
            off = canon(add(off, ONE))
        else:
            nxt = canon(add(off, s[1]))
            parts.append((Lt(k, nxt), subst(b, {s[2]: canon(add(k, neg(off)))}), off))
            off = nxt
    t = parts[-1][1]
    for g, b, _ in reversed(parts[:-1]):
        t = ite(g, b, t)
    return Arr(t, Shape((Dim(n, k),) + inner.lead, inner.base, inner.exact))


def _bad_seg(s):
    raise Unsupported("array of a concatenation")


def np_stack(xs, axis=0, **kw):
    options(kw)
    if axis != 0 or kw:
        raise Unsupported("np.stack options")
    if isinstance(xs, Arr):
        return np_array(xs)
    return stack_items(as_seq(xs), "stack")


def np_atleast_1d(*xs):
    if len(xs) != 1:
        return tuple(np_atleast_1d(x) for x in xs)
    x = xs[0]
    if isinstance(x, Arr):
        # the identity of arrays is preserved
        return x if x.kind == "np" else type(x)(x.t, x.sh, "np")
    if isinstance(x, (int, float)):
        return Arr(c(x), SCALAR, "np")
    if isinstance(x, (str, SStr, SExpr, MarkStr)):
        return VList_([x])
    if isinstance(x, (list, tuple, SSeq)):
        items = list(x)
        if any(not isinstance(y, (int, float, Arr)) or isinstance(y, bool) for y in items):
            return ObjArr(items)
        return np_array(x)
    if isinstance(x, (RestVals, Marker)):
        return x
    raise Unsupported(f"np.atleast_1d of {type(x).__name__}")


class ObjArr(list):
    """1D object array."""


def VList_(xs):
    return ObjArr(xs)


def np_broadcast_arrays(*xs, subok=False):
    items = []
    for x in xs:
        if isinstance(x, RestVals):
            items.append((ZERO, Shape((), x.val_base)))
        elif isinstance(x, Splat):
            for s in x.seq.segs:
                a = to_arr(s[1] if s[0] == "one" else s[3])
                items.append((ZERO, a.sh))
        else:
            a = x if isinstance(x, Arr) else to_arr(x)
            items.append((a.t, a.sh))
    bodies, sh = broadcast(items)
    if not sh.exact:
        # the result has the real common shape
        sh = Shape(sh.lead, sh.base, True)
        if not all(s.exact or s.base == sh.base for _, s in items):
            pass
    out, j = [], 0
    for x in xs:
        if isinstance(x, RestVals):
            out.append(RestVals(env=x.env, base=x.base, kind=x.kind, val_base=sh.base))
            j += 1
        elif isinstance(x, Splat):
            segs = []
            for s in x.seq.segs:
                a = to_arr(s[1] if s[0] == "one" else s[3])
                b = Arr(bodies[j] if not a.sh.lead else a.t, sh)
                b = Arr(a.t, Shape(sh.lead, sh.base, sh.exact))
                segs.append(("one", b) if s[0] == "one" else s[:3] + (b,) + tuple(s[4:]))
                j += 1
            out.append(Splat(SSeq(segs)))
        else:
            out.append((BArr if isinstance(x, BArr) else Arr)(bodies[j], sh, "np", view=x if isinstance(x, Arr) else None))
            j += 1
    return rt.VList(out)


def np_broadcast_to(x, shape, **kw):
    options(kw, "subok")
    a = x if isinstance(x, Arr) else to_arr(x)
    if isinstance(shape, tuple) and shape and not a.sh.base and all(isinstance(n, (int, Arr)) for n in shape):
        if len(a.sh.lead) > len(shape):
            raise Failed("broadcast-to", f"{a.sh} to {shape}")
        lead = []
        for n, d in zip(shape, (None,) * (len(shape) - len(a.sh.lead)) + a.sh.lead):
            if d is not None and not same_len(d.n, lift_num(n)):
                raise Failed("broadcast-to", f"{a.sh} to {shape}")
            lead.append(d if d is not None else Dim(lift_num(n), fresh("ax", "I")))
        return Arr(a.t, Shape(lead), "np", view=a)
    if isinstance(shape, SymShape):
        bodies, sh = broadcast([(a.t, a.sh), (ZERO, shape.sh)])
        if not (sh.base <= shape.sh.base and len(sh.lead) == len(shape.sh.lead)):
            raise Failed("broadcast-to", f"{a.sh} to {shape.sh}")
        return Arr(bodies[0], Shape([d or e for d, e in zip(sh.lead, shape.sh.lead)], shape.sh.base, True), "np", view=a)
    raise Unsupported("np.broadcast_to")


def like(val):
    def f(x, *a, **kw):
        options(kw, "dtype", "fill_value", "order", "subok")
        plain(kw.get("dtype"))
        for d in a[0 if val is not None else 1:]:
            plain(d)
        xx = to_arr(x)
        t = c(val) if val is not None else lift_num(a[0] if a else kw["fill_value"])
        sh = xx.sh
        # new index variables are not needed: the value is constant
        return Arr(t, sh, "np")
    return f


def filled(val):
    def f(shape, *a, **kw):
        options(kw, "dtype", "fill_value", "order")
        plain(kw.get("dtype"))
        for d in a[0 if val is not None else 1:]:
            plain(d)
        fill = to_arr(c(val)) if val is not None else to_arr(a[0] if a else kw["fill_value"])
        if isinstance(shape, SymShape):
            return Arr(fill.t, Shape([d if d is None else Dim(d.n, fresh("ax", "I")) for d in shape.sh.lead], shape.sh.base), "np")
        dims = shape if isinstance(shape, (tuple, list)) else (shape,)
        lead = []
        for d in dims:
            if not isinstance(d, (int, Arr)):
                raise Unsupported("array shape")
            lead.append(Dim(lift_num(d), fresh("ax", "I")))
        return Arr(fill.t, Shape(lead), "np")
    return f


def np_where(cond, *ab):
    if not isinstance(cond, BArr):
        if isinstance(cond, (SBool, bool)):
            cond = BArr(formula(cond))
        elif isinstance(cond, Arr):
            cond = BArr(Ne(cond.t, ZERO), cond.sh)
        else:
            raise Unsupported("np.where")
    if not ab:
        return Where(cond)
    a, b = [to_arr(x) for x in ab]
    bodies, sh = broadcast([(cond.t, cond.sh), (a.t, a.sh), (b.t, b.sh)])
    return Arr(ite(*bodies), sh)


def np_isnan(x):
    a = to_arr(x)
    return BArr(is_nan(a.t), a.sh)


def np_isfinite(x):
    a = to_arr(x)
    n, p, m = extended(a.t)
    return BArr(Not(Or(n, p, m)), a.sh)


def np_allclose(a, b, *r, **kw):
    if isinstance(a, BArr) and isinstance(b, BArr):
        bodies, sh = broadcast([(a.t, a.sh), (b.t, b.sh)])
        f = Iff(*bodies)
        if core.entails(W.pc, f):
            return True
        if W.decide(pred("allclose", f)):
            W.assume(f)
            return True
        return False
    raise Unsupported("np.allclose of floats")


def as_b(x):
    if isinstance(x, BArr):
        return x
    if isinstance(x, (bool, SBool)):
        return BArr(formula(x))
    return BArr(Ne(to_arr(x).t, ZERO), to_arr(x).sh)


def np_any_(x, *a, **k):
    if a or k:
        raise Unsupported("np.any with axis")
    return np_any(as_b(x))


def np_all_(x, *a, **k):
    if a or k:
        raise Unsupported("np.all with axis")
    return np_all(as_b(x))


def np_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    plain(dtype)
    a, b, n = to_arr(a), to_arr(b), lift_num(num)
    if retstep or axis != 0 or a.sh.lead or a.sh.base or b.sh.lead or b.sh.base:
        raise Unsupported("np.linspace options")
    k = fresh("ax", "I")
    h = div(add(b.t, neg(a.t)), add(n, c(-1)) if endpoint else n)
    return Arr(add(a.t, mul(k, h)), Shape((Dim(n, k),)), "np")


def np_meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    xs = [to_arr(x) for x in xs]
    if len(xs) != 2 or any(x.sh.base or len(x.sh.lead) > 1 for x in xs) or indexing not in ("xy", "ij"):
        raise Unsupported("np.meshgrid")
    ds = [x.sh.lead[0] if x.sh.lead else None for x in xs]
    if ds[0] is not None and ds[1] is not None and ds[0].k is ds[1].k:
        k = fresh("ax", "I")
        xs[1] = Arr(subst(xs[1].t, {ds[1].k: k}))
        ds[1] = Dim(ds[1].n, k)
    sh = Shape((ds[0], ds[1]) if indexing == "ij" else (ds[1], ds[0]))
    shs = [sh, sh]
    if sparse:
        shs = [Shape(tuple(d if d is ds[i] else None for d in sh.lead)) for i in range(2)]
    return rt.VList([Arr(x.t, s, "np") for x, s in zip(xs, shs)])


def int_axis(a, axis):
    if not isinstance(axis, int) or a.sh.base or not -len(a.sh.lead) <= axis < len(a.sh.lead):
        raise Unsupported("axis of an array")
    return axis % len(a.sh.lead)


def quadrature(name):
    """integration rule over samples at equidistant positions: sum of weight(index, number of samples) * spacing * value."""
    def f(y, x=None, dx=1.0, axis=-1, even=None):
        if even is not None:
            raise Unsupported(f"{name}: even")
        y = to_arr(y)
        i = int_axis(y, axis)
        d = y.sh.lead[i]
        if x is None:
            h = lift_num(dx)
        else:
            x = to_arr(x)
            if len(x.sh.lead) != 1 or x.sh.base or x.sh.lead[0] is None:
                raise Unsupported(f"{name}: positions")
            e = x.sh.lead[0]
            h = canon(add(subst(x.t, {e.k: add(e.k, ONE)}), neg(x.t)))
            if e.k in vars_of(h):
                raise Unsupported(f"{name}: positions that are not equidistant")
            if d is None or not same_len(d.n, e.n):
                raise Failed("integration", f"{name}: number of samples and positions")
        if d is None:
            raise Unsupported(f"{name}: single sample")
        t = mul(h, summ(d.k, ZERO, d.n, mul(fn("w:" + name, d.k, d.n), y.t)))
        return Arr(t, Shape(y.sh.lead[:i] + y.sh.lead[i + 1:]), "np")
    return f


def np_arange(*a, dtype=None, **kw):
    plain(dtype, True)
    xs = [to_arr(x) for x in a]
    if not kw and any(x.kind != "int" for x in xs):
        if any(x.sh.lead or x.sh.base for x in xs) or len(xs) > 3:
            raise Unsupported("np.arange")
        lo, hi, st = (ZERO, xs[0].t, ONE) if len(xs) == 1 else (xs[0].t, xs[1].t, xs[2].t if len(xs) == 3 else ONE)
        k = fresh("ax", "I")
        return Arr(add(lo, mul(k, st)), Shape((Dim(fn("narange", canon(lo), canon(hi), canon(st)), k),)), "np")
    if all(isinstance(x, int) for x in a):
        return rt.VList([Arr(c(i), SCALAR, "int") for i in range(*a)])
    if any(isinstance(x, float) for x in a) or kw:
        raise Unsupported("np.arange of floats")
    r = rt.b_range(*a)
    return r


def np_sum(x, axis=None, dtype=None, keepdims=False, **k):
    plain(dtype)
    if k or not isinstance(x, Arr):
        raise Unsupported("np.sum")
    if axis is None:
        if x.sh.base:
            raise Unsupported("np.sum")
        axis = tuple(range(len(x.sh.lead)))
    axes = axis if isinstance(axis, tuple) else (axis,)
    if x.sh.base:
        if axes != (0,) or not x.sh.lead:
            raise Unsupported("np.sum")
        axes = [0]
    else:
        axes = sorted(int_axis(x, a) for a in axes)
    t, lead = x.t, list(x.sh.lead)
    for i in reversed(axes):
        d = lead[i]
        if d is not None:
            t = summ(d.k, ZERO, d.n, t)
        lead[i:i + 1] = [None] if keepdims else []
    return Arr(t, Shape(lead, x.sh.base, x.sh.exact))


def extremum(name):
    """an uninterpreted function of the multiset of the values along the axes.
    (written as f(sum of g(value)): g maps numbers to linearly independent ones, so that the sum determines the multiset)"""
    def f(x, axis=None, keepdims=False, **k):
        x = to_arr(x)
        if k or x.sh.base:
            raise Unsupported(f"np.{name}")
        axis = tuple(range(len(x.sh.lead))) if axis is None else axis
        t, lead = x.t, list(x.sh.lead)
        for i in sorted((int_axis(x, a) for a in (axis if isinstance(axis, tuple) else (axis,))), reverse=True):
            d = lead[i]
            if d is not None:
                t = fn(name, summ(d.k, ZERO, d.n, fn("independent", t)))
            lead[i:i + 1] = [None] if keepdims else []
        return Arr(t, Shape(lead, x.sh.base, x.sh.exact))
    return f


class NumType:
    def __init__(self, name, kinds, conv=None):
        self.__name__, self.kinds, self.conv = name, kinds, conv

    def _vc_instance(self, x):
        return isinstance(x, Arr) and x.kind in self.kinds

    def __call__(self, x=0):
        x = to_arr(x)
        if self.__name__ not in ("float64",) and x.kind != "int" and not (isc(x.t) and cval(x.t).denominator == 1):
            raise Unsupported(f"conversion to {self.__name__}")
        return Arr(x.t, x.sh, "np")

    def __getattr__(self, n):
        raise AttributeError(n)


@contextlib.contextmanager
def errstate(**kw):
    yield


EULER = v("euler_gamma")


def np_transpose_like(name):
    def f(*a, **k):
        raise Unsupported("np." + name)
    return f


def np_reshape(x, *sh, **k):
    options(k, "shape")
    sh = (k["shape"],) if k else sh
    if isinstance(x, (Ravel, Arr)):
        return x.reshape(*sh)
    raise Unsupported("np.reshape")


def np_array_equal(a, b, **kw):
    """(equal shapes are not distinguished from broadcastable ones)"""
    a, b = to_arr(a), to_arr(b)
    if a.sh.desc() != b.sh.desc():
        raise Unsupported("np.array_equal of different shapes")
    bodies, sh = broadcast([(a.t, a.sh), (b.t, b.sh)])
    if tm.equal(*bodies):
        return True
    if W.decide(pred("all-elements", Eq(*bodies))):
        W.assume(Eq(*bodies))
        return True
    return False


def np_size(x, *a):
    if a:
        raise Unsupported("np.size axis")
    x = to_arr(x)
    r = x.size
    return int(cval(r.t)) if isc(r.t) else r


def rounding(name):
    import math
    f = getattr(math, name)
    g = ufunc(lambda t: c(f(cval(t))) if isc(t) else fn(name, t))

    def h(x, **kw):
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return float(f(x))
        return g(x, **kw)
    return h


def make_numpy():
    e = {
        "ceil": rounding("ceil"), "floor": rounding("floor"),
        "cos": ufunc(tm.cos), "sin": ufunc(tm.sin), "exp": ufunc(tm.exp), "log": ufunc(tm.log), "log10": ufunc(log10_),
        "sqrt": ufunc(tm.sqrt), "abs": ufunc(lambda a: fn("abs", a)), "absolute": ufunc(lambda a: fn("abs", a)),
        "tan": ufunc(lambda a: div(sin(a), cos(a))), "square": ufunc(lambda a: power(a, c(2))),
        "reciprocal": ufunc(lambda a: power(a, c(-1))), "negative": ufunc(neg), "expm1": ufunc(lambda a: add(exp(a), c(-1))),
        "log1p": ufunc(lambda a: log(add(ONE, a))),
        "deg2rad": ufunc(lambda a: mul(a, PI, c(Q(1, 180)))), "radians": ufunc(lambda a: mul(a, PI, c(Q(1, 180)))),
        "rad2deg": ufunc(lambda a: mul(a, power(PI, c(-1)), c(180))), "degrees": ufunc(lambda a: mul(a, power(PI, c(-1)), c(180))),
        "add": binary(add), "subtract": binary(lambda a, b: add(a, neg(b))), "multiply": binary(mul),
        "divide": binary(div), "true_divide": binary(div), "power": binary(power),
        "maximum": binary(lambda a, b: ite(Le(b, a), a, b)), "minimum": binary(lambda a, b: ite(Le(a, b), a, b)),
        "equal": cmp2(Eq), "less": cmp2(Lt), "greater": cmp2(Gt), "less_equal": cmp2(Le), "greater_equal": cmp2(Ge),
        "not_equal": cmp2(Ne),
        "logical_not": lambda x: BArr(Not(as_b(x).t), as_b(x).sh),
        "logical_and": lambda a, b: bool_ew(And, as_b(a), as_b(b)), "logical_or": lambda a, b: bool_ew(Or, as_b(a), as_b(b)),
        "array": np_array, "asarray": lambda x, *a, **k: x if isinstance(x, Arr) and x.kind == "np" and not a and not k else np_array(x, *a, **k),
        "asanyarray": lambda x, *a, **k: x if isinstance(x, Arr) and x.kind == "np" and not a and not k else np_array(x, *a, **k),
        "copy": lambda x: np_array(x),
        "stack": np_stack, "atleast_1d": np_atleast_1d, "broadcast_arrays": np_broadcast_arrays,
        "broadcast_to": np_broadcast_to, "zeros_like": like(0), "ones_like": like(1), "full_like": like(None),
        "zeros": filled(0), "ones": filled(1), "full": filled(None),
        "where": np_where, "isnan": np_isnan, "isfinite": np_isfinite, "any": np_any_, "all": np_all_,
        "allclose": np_allclose, "shape": lambda x: to_arr(x).shape, "size": np_size, "ndim": lambda x: to_arr(x).ndim, "reshape": np_reshape, "array_equal": np_array_equal,
        "arange": np_arange, "linspace": np_linspace, "meshgrid": np_meshgrid, "trapz": quadrature("trapezoid"), "sum": np_sum, **{n: extremum(n) for n in ("min", "max", "nanmin", "nanmax", "amin", "amax")}, "errstate": errstate, "ravel": lambda x, *a, **k: x.ravel(*a, **k),
        "pi": Arr(PI, SCALAR, "py"), "euler_gamma": Arr(EULER, SCALAR, "py"), "newaxis": None,
        "number": NumType("number", ("np64",)), "floating": NumType("floating", ("np64",)), "integer": NumType("integer", ("np64",)),
        "ndarray": NumType("ndarray", ("np",)), "float64": NumType("float64", ("np64",)), "int64": NumType("int64", ("np64",)),
        "seterr": lambda **k: {}, "nan": Arr(fn("float:nan"), SCALAR, "py"), "inf": Arr(fn("float:inf"), SCALAR, "py"),
        "object_": object, "bool_": NumType("bool_", ()),
    }
    return Stub("numpy", e)


# ------------------------------------------------------------------------------------ extended reals
def is_nan(t):
    f = extended(t)[0]
    if f is TRUE or f is FALSE:
        return f
    # an equivalent simple formula, if there is one
    atoms = {canonF(x) for x in walk(f) if isinstance(x, F) and x.op in ("<", "<=", "==")
             and not any(y.args[0].startswith("#") for y in vars_of(x))}
    for g in [FALSE, TRUE] + sorted((x for x in atoms if x.op == "=="), key=lambda x: len(repr(x))):
        if core.entails(W.pc, Iff(f, g), 1000):
            return g
    return f


_EXT = {"pc": None, "memo": {}, "atoms": {}}


def extended(t):
    """formulas (nan, +inf, -inf) for the IEEE value of a term under the path condition
    (variables and uninterpreted functions are finite)."""
    pc = tuple(W.pc)
    if _EXT["pc"] != pc:
        _EXT.update(pc=pc, memo={}, atoms={})
    r = _EXT["memo"].get(t)
    if r is None:
        r = _extended(t)
        _EXT["memo"][t] = r
    return r


def A(f):
    """comparison, decided by the path condition if possible."""
    if f is TRUE or f is FALSE or any(x.args[0].startswith("#") for x in vars_of(f)):
        return f
    f = canonF(f)
    m = _EXT["atoms"]
    r = m.get(f)
    if r is None:
        if core.entails(W.pc, Not(f), 500):
            r = FALSE
        elif core.entails(W.pc, f, 500):
            r = TRUE
        else:
            r = f
        m[f] = r
    return r


def _fin(f):
    return Not(Or(*f))


def _zero(t, f):
    return And(_fin(f), A(Eq(t, ZERO)))


def _pos(t, f):
    return Or(f[1], And(_fin(f), A(Lt(ZERO, t))))


def _neg(t, f):
    return Or(f[2], And(_fin(f), A(Lt(t, ZERO))))


FIN = (FALSE, FALSE, FALSE)


def _extended(t):
    o, a = t.op, t.args
    if o in ("c", "v"):
        return FIN
    if o == "+":
        r = FIN
        acc = None
        for x in a:
            f = extended(x)
            r = (Or(r[0], f[0], And(r[1], f[2]), And(r[2], f[1])),
                 Or(And(r[1], Not(f[0]), Not(f[2])), And(f[1], Not(r[0]), Not(r[2]))),
                 Or(And(r[2], Not(f[0]), Not(f[1])), And(f[2], Not(r[0]), Not(r[1]))))
        return r
    if o == "*":
        r, acc = extended(a[0]), a[0]
        for x in a[1:]:
            f = extended(x)
            if r == FIN and f == FIN:
                acc = mul(acc, x)
                continue
            inf1, inf2 = Or(r[1], r[2]), Or(f[1], f[2])
            nan = Or(r[0], f[0], And(inf1, _zero(x, f)), And(inf2, _zero(acc, r)))
            pp, nn = _pos(acc, r), _neg(acc, r)
            qp, qn = _pos(x, f), _neg(x, f)
            inf = And(Or(inf1, inf2), Not(nan))
            r = (nan, And(inf, Or(And(pp, qp), And(nn, qn))), And(inf, Or(And(pp, qn), And(nn, qp))))
            acc = mul(acc, x)
        return r
    if o == "^":
        b, e = a
        f, g = extended(b), extended(e)
        if isc(e):
            q = cval(e)
            if q < 0:
                z = _zero(b, f)
                return (f[0], z, FALSE) if True else None      # (sign of zero is not modelled: 1/0 = +inf)
            if q.denominator != 1:
                return (Or(f[0], _neg(b, f)), f[1], FALSE)
            if int(q) % 2 == 0:
                return (f[0], Or(f[1], f[2]), FALSE)
            return f
        if f == FIN and g == FIN:
            return FIN
        raise Unsupported("isnan of a power")
    if o == "fn":
        n = a[0]
        if n.startswith("float:"):
            return (TRUE if "nan" in n else FALSE, TRUE if n.endswith(":inf") else FALSE, TRUE if "-inf" in n else FALSE)
        args = [x for x in a[1:] if isinstance(x, T)]
        fs = [extended(x) for x in args]
        if n == "exp":
            f = fs[0]
            return (f[0], f[1], FALSE)
        if n == "log":
            f, x = fs[0], args[0]
            return (Or(f[0], _neg(x, f)), f[1], _zero(x, f))
        if n == "expi":
            f, x = fs[0], args[0]
            return (f[0], f[1], _zero(x, f))
        if n == "expn":
            f, x = fs[1], args[1]
            return (Or(f[0], _neg(x, f)), And(_zero(x, f), Le(args[0], ONE)), FALSE)
        if all(f == FIN for f in fs):
            return FIN
        if n in ("cos", "sin"):
            return (Or(*fs[0]), FALSE, FALSE)
        # uninterpreted functions are finite for finite arguments and propagate nan
        return (Or(*[g for f in fs for g in f]), FALSE, FALSE)
    if o == "ite":
        g = a[0]
        x, y = extended(a[1]), extended(a[2])
        return tuple(Or(And(g, p), And(Not(g), q)) for p, q in zip(x, y))
    if o == "sum":
        k, lo, hi, body = a
        f = extended(body)
        if f == FIN:
            return FIN
        if k not in set().union(*[vars_of(g) for g in f]):
            ne = Lt(lo, hi)
            # all terms are of the same kind
            return tuple(And(ne, g) for g in f)
        rng = And(Le(lo, k), Lt(k, hi))
        if core.entails(list(W.pc) + [rng], And(*[Not(g) for g in f])):
            return FIN
        # nan as soon as one term is nan; other infinities are not resolved
        first = subst(f[0], {k: lo})
        for cand in (f[0],):
            other = Or(f[1], f[2])
            if core.entails(list(W.pc) + [rng], Not(other)):
                # nan is decided by the formula without k if it is the same for all k
                g = [x for x in (subst(f[0], {k: lo}),)][0]
                if core.entails(list(W.pc) + [rng], Iff(f[0], g)):
                    return (And(Lt(lo, hi), g), FALSE, FALSE)
        raise Unsupported("isnan of a sum")
    raise Unsupported(f"isnan of {o}")


# ------------------------------------------------------------------------------------ sympy (abstract)
class SymbolT:
    __name__ = "Symbol"

    def __call__(self, n, **kw):
        if kw:
            raise Unsupported("assumptions of symbols")
        if isinstance(n, MarkStr):
            return n
        if isinstance(n, SExpr):
            return n
        return SExpr(symv(n))

    def _vc_instance(self, x):
        if isinstance(x, MarkStr):
            return False
        return isinstance(x, SExpr) and (x.t.op == "v" and x.t.args[0].startswith("s:") or x.t.op == "fn" and x.t.args[0] == "sym")


class BasicT:
    __name__ = "Basic"

    def _vc_instance(self, x):
        return isinstance(x, (SExpr, XPolyBase))


class XPolyBase:
    pass


Symbol = SymbolT()


def sp_symbols(names, **kw):
    if kw:
        raise Unsupported("assumptions of symbols")
    if isinstance(names, (str, SStr)) and not isinstance(names, MarkStr):
        if isinstance(names, str):
            parts = [p for p in names.replace(",", " ").split() if p]
            if len(parts) > 1 or names.rstrip().endswith(","):
                return tuple(Symbol(p) for p in parts)
        return Symbol(names)
    return tuple(Symbol(n) if not isinstance(n, Splat) else n for n in names)


def sp_parse_expr(s, local_dict=None, **kw):
    if isinstance(s, SStr):
        names = list(local_dict.keys()) if local_dict is not None else []
        need = {"N", "S", "Q"}
        if not need <= set(names):
            raise Failed("parse-names", "names such as N, S, Q are not parsed as symbols")
        return SExpr(fn("expr", s.u, DSYM))
    if isinstance(s, str):
        import sympy
        ld = {}
        for k, x in (local_dict.items() if local_dict is not None else ()):
            if isinstance(x, SExpr):
                ld[k] = sympy.Symbol(k)
        return SExpr(from_sympy(sympy.parse_expr(s, local_dict=ld)))
    raise Unsupported("parse_expr")


def from_sympy(e, names=None):
    """term of a sympy expression."""
    import sympy
    if isinstance(e, (int, float)):
        return c(e)
    if e.is_Integer or e.is_Rational:
        return c(Q(int(e.p), int(e.q)))
    if e.is_Float:
        return c(Q(repr(float(e))))
    if e is sympy.pi:
        return PI
    if e.is_Symbol:
        if names and e.name in names:
            return names[e.name]
        return v("s:" + e.name)
    if e.is_Add:
        return add(*[from_sympy(x, names) for x in e.args])
    if e.is_Mul:
        return mul(*[from_sympy(x, names) for x in e.args])
    if e.is_Pow:
        return power(from_sympy(e.base, names), from_sympy(e.exp, names))
    if isinstance(e, sympy.exp):
        return exp(from_sympy(e.args[0], names))
    if isinstance(e, (sympy.cos, sympy.sin, sympy.log, sympy.sign, sympy.gamma, sympy.Abs)):
        n = type(e).__name__
        return fn({"Abs": "abs"}.get(n, n), from_sympy(e.args[0], names))
    if isinstance(e, sympy.KroneckerDelta):
        return fn("delta", from_sympy(e.args[0], names), from_sympy(e.args[1], names))
    if isinstance(e, sympy.legendre):
        return fn("legendre", from_sympy(e.args[0], names), from_sympy(e.args[1], names))
    if isinstance(e, sympy.Sum):
        (k, lo, hi), = e.limits
        kk = fresh("k", "I")
        nn = dict(names or {})
        nn[k.name] = kk
        return summ(kk, from_sympy(lo, names), add(from_sympy(hi, names), ONE), from_sympy(e.function, nn))
    if isinstance(e, sympy.Piecewise):
        r = None
        for val, cond in reversed(e.args):
            x = from_sympy(val, names)
            r = x if r is None else ite(form_sympy(cond, names), x, r)
        return r
    raise Unsupported(f"sympy {type(e).__name__}")


def form_sympy(cnd, names=None):
    import sympy
    if cnd is sympy.true:
        return TRUE
    if cnd is sympy.false:
        return FALSE
    m = {sympy.StrictLessThan: Lt, sympy.LessThan: Le, sympy.StrictGreaterThan: Gt, sympy.GreaterThan: Ge,
         sympy.Equality: Eq, sympy.Unequality: Ne}
    for k, f in m.items():
        if isinstance(cnd, k):
            return f(from_sympy(cnd.args[0], names), from_sympy(cnd.args[1], names))
    if isinstance(cnd, sympy.And):
        return And(*[form_sympy(x, names) for x in cnd.args])
    if isinstance(cnd, sympy.Or):
        return Or(*[form_sympy(x, names) for x in cnd.args])
    if isinstance(cnd, sympy.Not):
        return Not(form_sympy(cnd.args[0], names))
    raise Unsupported(f"sympy condition {type(cnd).__name__}")


def sp_diff(e, *xs):
    t = se(e)
    for x in xs:
        if isinstance(x, (str, SStr)):
            x = Symbol(x)
        t = sdiff(t, se(x))
    return SExpr(t)


def sp_fn(f):
    def g(x):
        return SExpr(f(se(x)))
    return g


def sign_of(x):
    return ite(Lt(ZERO, x), ONE, ite(Lt(x, ZERO), c(-1), ZERO))


def sp_extremum(mx):
    def f(*xs):
        r = se(xs[0])
        for x in xs[1:]:
            x = se(x)
            r = ite(Le(x, r) if mx else Le(r, x), r, x)
        return SExpr(r)
    return f


def sp_sum(e, *lims):
    if len(lims) != 1:
        raise Unsupported("nested Sum")
    k, lo, hi = lims[0]
    if not Symbol._vc_instance(k):
        raise Unsupported("summation variable")
    kk = fresh("k", "I")
    return SExpr(summ(kk, canon(se(lo)), canon(add(se(hi), ONE)), subst(se(e), {k.t: kk})))


def sp_piecewise(*cases, **kw):
    options(kw, "evaluate")
    r = fn("float:nan")
    for val, cond in reversed([tuple(x) for x in cases]):
        r = ite(formula(cond), se(val), r)
    return SExpr(r)


def make_sympy(extra=None):
    e = {
        "Symbol": Symbol, "symbols": sp_symbols, "Basic": BasicT(), "Expr": BasicT(), "pi": SExpr(PI),
        "cos": sp_fn(tm.cos), "sin": sp_fn(tm.sin), "exp": sp_fn(tm.exp), "log": sp_fn(tm.log), "sqrt": sp_fn(tm.sqrt),
        "diff": sp_diff, "parse_expr": sp_parse_expr, "sympify": sp_parse_expr, "expand": lambda x, *a, **k: x.expand(),
        "Rational": lambda a, b=1: SExpr(div(se(a), se(b))), "Integer": lambda a: SExpr(se(a)), "Float": lambda a: SExpr(se(a)),
        "KroneckerDelta": lambda i, j: SExpr(ite(Eq(canon(se(i)), canon(se(j))), ONE, ZERO)), "sign": sp_fn(sign_of), "gamma": sp_fn(lambda x: fn("gamma", x)),
        "Abs": sp_fn(lambda x: ite(Lt(x, ZERO), neg(x), x)), "Max": sp_extremum(True), "Min": sp_extremum(False),
        "Heaviside": lambda x, h=Q(1, 2): SExpr(ite(Eq(se(x), ZERO), se(h), ite(Lt(ZERO, se(x)), ONE, ZERO))),
        "legendre": lambda n, x: SExpr(fn("legendre", canon(se(n)), se(x))), "Sum": sp_sum, "Piecewise": sp_piecewise,
        "Pow": lambda a, b: SExpr(power(se(a), se(b))), "Add": lambda *a: SExpr(add(*map(se, a))), "Mul": lambda *a: SExpr(mul(*map(se, a))),
        "true": True, "false": False,
        "S": Missing("sympy.S"), "binomial": lambda n, k: SExpr(fn("binom", canon(se(n)), canon(se(k)))),
    }
    e.update(extra or {})
    return Stub("sympy", e)


# ------------------------------------------------------------------------------------ functools
class CacheFn:
    """lru_cache: transparent (results only depend on the arguments while nothing is cached); see caches.py for C12."""
    ALL = []
    mode = None          # None: call through

    def __init__(self, f):
        self.f = f
        functools.update_wrapper(self, f)
        self.name = f.__qualname__
        CacheFn.ALL.append(self)

    def __call__(self, *a, **k):
        if CacheFn.mode is not None:
            return CacheFn.mode.call(self, a, k)
        return self.f(*a, **k)

    def __get__(self, obj, typ=None):
        if obj is None:
            return self
        return BoundCache(self, obj)

    def cache_clear(self):
        if CacheFn.mode is not None:
            CacheFn.mode.clear(self)

    def cache_info(self):
        return (0, 0, 128, 0)


class BoundCache:
    def __init__(self, cf, obj):
        self.cf, self.obj = cf, obj
        self.__name__ = cf.__name__
        self.__doc__ = cf.__doc__

    def __call__(self, *a, **k):
        return self.cf(self.obj, *a, **k)

    def cache_clear(self):
        self.cf.cache_clear()

    def cache_info(self):
        return self.cf.cache_info()


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return CacheFn(maxsize)
    return CacheFn


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: Quiet()

    def __call__(self, *a, **k):
        return Quiet()

    DEBUG, INFO, WARNING = 10, 20, 30
    BASIC_FORMAT = ""


class Chain:
    def __call__(self, *its):
        out = []
        for it in its:
            out += list(it)
        return out if not any(isinstance(x, Splat) for x in out) else SSeq(as_seq(out).segs)

    def from_iterable(self, its):
        return self(*list(its))


class Repeat:
    def __call__(self, *a):
        raise Unsupported("itertools.repeat")


class DefaultDict(rt.VDict):
    def __init__(self, factory=None, *a, **k):
        super().__init__(*a, **k)
        self.factory = factory

    def copy(self):
        raise Unsupported("copy of a defaultdict")


NONE = object()


def reduce_(f, it, init=NONE):
    """functools.reduce; over symbolic sequences: recurrences that have a closed form."""
    if not is_symbolic_seq(it) and not isinstance(it, SSeq):
        return functools.reduce(f, it) if init is NONE else functools.reduce(f, it, init)
    acc = init
    for s in as_seq(it).segs:
        if s[0] == "one":
            acc = s[1] if acc is NONE else f(acc, s[1])
            continue
        if acc is NONE or s[0] not in ("gen", "filt"):
            raise Unsupported("reduce over an unknown number of items")
        box = [acc]

        def body(item):
            box[0] = f(box[0], item)
        rt.sym_loop(s, body, lambda: [box[0]], lambda xs: box.__setitem__(0, xs[0]), ["acc"], [])
        acc = box[0]
    return acc


# ------------------------------------------------------------------------------------ scipy
def scipy_fns():
    return {
        "expi": ufunc(lambda x: fn("expi", x)),
        "expn": binary(lambda n, x: fn("expn", n, x)),
        "exp1": ufunc(lambda x: fn("expn", ONE, x)),
    }


def base_stubs():
    import itertools
    np_ = make_numpy()
    sp_ = make_sympy()
    special = Stub("scipy.special", scipy_fns())
    from . import sparse as sparse_
    sparse = Stub("scipy.sparse", sparse_.entries())
    simp, trap = quadrature("simpson"), quadrature("trapezoid")
    integrate = Stub("scipy.integrate", {"simps": simp, "simpson": simp, "trapz": trap, "trapezoid": trap})
    scipy = Stub("scipy", {"special": special, "sparse": sparse, "integrate": integrate})
    ft = Stub("functools", {"lru_cache": lru_cache, "cache": CacheFn, "wraps": functools.wraps, "partial": functools.partial,
                            "update_wrapper": functools.update_wrapper, "reduce": reduce_})
    import collections
    coll = Stub("collections", {"defaultdict": DefaultDict, "OrderedDict": rt.VDict, "namedtuple": collections.namedtuple,
                                "abc": collections.abc})
    return {
        "numpy": np_, "sympy": sp_, "scipy": scipy, "scipy.special": special, "scipy.sparse": sparse,
        "scipy.integrate": integrate, "functools": ft,
        "itertools": Stub("itertools", {"chain": Chain(), "product": itertools.product, "repeat": Repeat()}),
        "timeit": Stub("timeit", {"default_timer": lambda: 0.0}), "time": Stub("time", {"time": lambda: 0.0, "perf_counter": lambda: 0.0}),
        "collections": coll, "logging": Quiet(), "symengine": Stub("symengine", {"expand": lambda x, *a, **k: x.expand()}),
        "pickle": Stub("pickle", {}), "math": Stub("math", {"pi": Arr(PI, SCALAR, "py"), "cos": ufunc(tm.cos), "sin": ufunc(tm.sin),
                                                            "exp": ufunc(tm.exp), "log": ufunc(tm.log), "log10": ufunc(log10_),
                                                            "sqrt": ufunc(tm.sqrt)}),
        "sys": Stub("sys", {}), "os": Stub("os", {}),
    }
