"""Symbolic values that take the place of numpy arrays, strings, expressions, dicts and sequences while the
real source text is executed."""
import builtins

from .terms import *
from . import terms as tm
from . import core
from .core import W, Unsupported, Failed, entails


class LenUnknown(TypeError):
    """len() of a symbolic collection (a TypeError, so that it is ignored as a length hint)."""


# ------------------------------------------------------------------------------ shapes
class Dim:
    """a known axis: length n (term), index variable k."""
    __slots__ = ("n", "k")

    def __init__(self, n, k):
        self.n, self.k = lift(n), k

    def __repr__(self):
        return f"Dim({self.n},{self.k})"


class Shape:
    """lead: known (leading) axes; base: set of names of arrays of unknown rank whose broadcast shape follows.
    exact=False: the real shape may be anything that broadcasts to the given one."""
    __slots__ = ("lead", "base", "exact")

    def __init__(self, lead=(), base=frozenset(), exact=True):
        self.lead, self.base, self.exact = tuple(lead), frozenset(base), exact

    def __repr__(self):
        return f"Shape({list(self.lead)},{sorted(self.base)}{'' if self.exact else ',<='})"

    def desc(self):
        return (tuple(canon(d.n) if d else None for d in self.lead), self.base)


SCALAR = Shape()


def same_len(a, b):
    return a is b or tm.equal(a, b) or entails(W.pc, Eq(a, b))


def unit_axis(d):
    return isc(d.n) and cval(d.n) == 1


def broadcast(items):
    """items: list of (body, Shape) -> (list of bodies with unified index variables, Shape)."""
    exact = all(s.exact for _, s in items)
    withlead = [s for _, s in items if s.lead]
    if not withlead:
        return [b for b, _ in items], Shape((), frozenset().union(*[s.base for _, s in items]) if items else frozenset(), exact)
    bases = {s.base for s in withlead}
    if len(bases) > 1:
        raise Failed("broadcast-alignment", f"operands with a leading axis have different trailing shapes: {[sorted(b) for b in bases]}")
    base = next(iter(bases))
    for _, s in items:
        if not s.lead and not s.base <= base:
            raise Failed("broadcast-alignment", f"a trailing operand of shape {sorted(s.base)} does not broadcast into {sorted(base)}")
    rank = max(len(s.lead) for s in withlead)
    lead = [None] * rank
    for _, s in items:
        off = rank - len(s.lead)
        for i, d in enumerate(s.lead):
            j = off + i
            if d is None:
                continue
            if lead[j] is None or unit_axis(lead[j]):
                lead[j] = d
            elif unit_axis(d):
                pass
            elif not same_len(lead[j].n, d.n):
                raise Failed("broadcast-length", f"axes of length {lead[j].n} and {d.n}")
    out = []
    for b, s in items:
        off = rank - len(s.lead)
        m = {}
        for i, d in enumerate(s.lead):
            if d is not None and d.k is not lead[off + i].k:
                m[d.k] = ZERO if unit_axis(d) else lead[off + i].k
        out.append(subst(b, m) if m else b)
    # distinct axes must not share an index variable
    ks = [d.k for d in lead if d is not None]
    if len(set(ks)) != len(ks):
        raise Unsupported("axes share an index variable")
    return out, Shape(lead, base, exact)


# ------------------------------------------------------------------------------ numbers / arrays
class Arr:
    """a number or an array: .t is its generic element. kind: 'np' | 'py' (float) | 'int' (python int) | 'b' suffix."""
    __array_priority__ = 1000
    isbool = False
    key = None

    def __init__(self, t, sh=SCALAR, kind="np", view=None):
        self.t, self.sh, self.kind, self.view = t, sh, kind, view

    def mut(self):
        if self.view is not None:
            raise Unsupported("assignment to a view of an array")
        W.undo.append((self, self.t))

    def __repr__(self):
        return f"<{self.kind}:{self.t} {self.sh}>"

    # -- elementwise operators
    def __add__(self, o): return ew(add, self, o)
    def __radd__(self, o): return ew(add, o, self)
    def __sub__(self, o): return ew(lambda a, b: add(a, neg(b)), self, o)
    def __rsub__(self, o): return ew(lambda a, b: add(a, neg(b)), o, self)
    def __mul__(self, o): return ew(mul, self, o)
    def __rmul__(self, o): return ew(mul, o, self)
    def __truediv__(self, o): return ew(div, self, o)
    def __rtruediv__(self, o): return ew(div, o, self)
    def __pow__(self, o): return ew(power, self, o)
    def __rpow__(self, o): return ew(power, o, self)
    def __neg__(self): return ew(neg, self)
    def __pos__(self): return self
    def __abs__(self): return ew(lambda a: fn("abs", a), self)
    def __mod__(self, o): return ew(lambda a, b: mod_(a, b), self, o)
    def __floordiv__(self, o): return ew(lambda a, b: fn("idiv", a, b), self, o)
    def __lt__(self, o): return cmpop(Lt, self, o)
    def __le__(self, o): return cmpop(Le, self, o)
    def __gt__(self, o): return cmpop(Gt, self, o)
    def __ge__(self, o): return cmpop(Ge, self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (builtins.str, SStr)):
            return False
        return cmpop(Eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (builtins.str, SStr)):
            return True
        return cmpop(Ne, self, o)

    def __hash__(self):
        if self.kind in ("py", "int"):
            return hash(self.t)
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def inplace(self, f, o):
        """x op= y: arrays are modified in place, numbers are replaced."""
        if self.kind != "np":
            return ew(f, self, o)
        r = ew(f, self, o)
        if r.sh.desc() != self.sh.desc():
            if not (r.sh.base <= self.sh.base and len(r.sh.lead) == len(self.sh.lead)):
                raise Failed("in-place-shape", f"in-place operation changes the shape {self.sh} -> {r.sh}")
        self.mut()
        self.t = r.t
        return self

    def __iadd__(self, o): return self.inplace(add, o)
    def __isub__(self, o): return self.inplace(lambda a, b: add(a, neg(b)), o)
    def __imul__(self, o): return self.inplace(mul, o)
    def __itruediv__(self, o): return self.inplace(div, o)
    def __ipow__(self, o): return self.inplace(power, o)

    def __bool__(self):
        if self.sh.lead or self.sh.base:
            raise Unsupported(f"truth value of an array {self.t} {self.sh} {self.kind}")
        return W.decide(Ne(self.t, ZERO))

    def __format__(self, spec):
        return repr(self)

    def __float__(self):
        raise Unsupported("float() of a symbolic number")

    def __int__(self):
        raise Unsupported("int() of a symbolic number")

    def __index__(self):
        raise Unsupported("symbolic number used as a concrete index")

    # -- array attributes
    dtype = property(lambda self: "float")
    real = property(lambda self: self)

    @property
    def ndim(self):
        if self.key is not None:
            return Arr(fn("ndimof", self.key), SCALAR, "int")
        if self.sh.base:
            raise Unsupported("rank of an array of unknown rank")
        return len(self.sh.lead)

    @property
    def shape(self):
        return SymShape(self.sh)

    @property
    def size(self):
        return size_of(self)

    def astype(self, d, **k):
        from .stubs import plain
        plain(d, self.kind == "int")
        return Arr(self.t, self.sh, self.kind)

    def copy(self): return Arr(self.t, self.sh, self.kind)
    def item(self): return Arr(self.t, SCALAR, "py")

    def squeeze(self, *a, **k):
        lead = self.sh.lead
        if not self.sh.base and self.sh.exact and not a and not k:
            lead = tuple(d for d in lead if d is not None and not (isc(d.n) and cval(d.n) == 1))
        return type(self)(self.t, Shape(lead, self.sh.base, self.sh.exact), self.kind, view=self)

    def ravel(self, order="C"):
        if order != "C":
            raise Failed("row-major", f"the elements are taken in the order {order!r}")
        return Ravel(self)

    flatten = ravel

    def reshape(self, *sh):
        return Ravel(self).reshape(*sh)

    def tolist(self):
        return ToList(self)

    def sum(self, *a, **k):
        from .stubs import np_sum
        return np_sum(self, *a, **k)

    def min(self, *a, **k):
        from .stubs import extremum
        return extremum("min")(self, *a, **k)

    def max(self, *a, **k):
        from .stubs import extremum
        return extremum("max")(self, *a, **k)

    def any(self, *a, **k):
        raise Unsupported("ndarray.any")

    def __len__(self):
        raise LenUnknown("len() of an array")

    def length(self):
        if not self.sh.lead:
            raise Unsupported("length of an array of unknown rank")
        d = self.sh.lead[0]
        return ONE if d is None else d.n

    def at(self, i):
        """element i along the leading axis."""
        d = self.sh.lead[0]
        t = self.t if d is None else subst(self.t, {d.k: i})
        return type(self)(t, Shape(self.sh.lead[1:], self.sh.base, self.sh.exact), "np", view=self)

    def __iter__(self):
        if not self.sh.lead:
            raise Unsupported("iteration over an array of unknown rank")
        n = canon(self.length())
        if isc(n):
            return iter([self.at(c(i)) for i in builtins.range(int(cval(n)))])
        return iter([Splat(as_seq(self))])

    def __getitem__(self, i):
        if i is Ellipsis or (isinstance(i, slice) and i == slice(None)):
            return self
        if isinstance(i, (int, Arr)) and not isinstance(i, bool) and self.sh.lead:
            ix = lift_num(i)
            if isc(ix) and cval(ix) < 0:
                ix = add(self.length(), ix)
            if not entails(W.pc, And(Le(ZERO, ix), Lt(ix, self.length()))):
                raise Failed("index-range", f"index {ix} may be outside of [0, {self.length()})")
            return self.at(ix)
        if isinstance(i, tuple) and not self.sh.base:
            # known rank: full slices and new axes
            lead, src, ok = [], list(self.sh.lead), True
            for x in i:
                if x is None:
                    lead.append(None)
                elif isinstance(x, slice) and x == slice(None) and src:
                    lead.append(src.pop(0))
                elif x is Ellipsis:
                    lead += src
                    src = []
                else:
                    ok = False
            if ok:
                return type(self)(self.t, Shape(lead + src, frozenset(), self.sh.exact), "np", view=self)
        if i is None and not self.sh.base:
            return type(self)(self.t, Shape((None,) + self.sh.lead, frozenset(), self.sh.exact), "np", view=self)
        if i is None or isinstance(i, tuple) and all(x is None or x is Ellipsis for x in i) and i[-1:] != (None,):
            # prepending axes of length 1 does not affect elementwise semantics
            return type(self)(self.t, self.sh, "np", view=self)
        if isinstance(i, builtins.list) and i and all(isinstance(x, int) and not isinstance(x, bool) for x in i) and self.sh.lead:
            from .stubs import np_stack
            return np_stack([self[x] for x in i])
        raise Unsupported(f"indexing an array with {i!r}")

    def __setitem__(self, i, val):
        self.mut()
        if isinstance(i, Where):
            i = i.mask
        if isinstance(i, BArr):
            if i.sh.lead or self.sh.lead or not i.sh.base == self.sh.base:
                raise Failed("mask-shape", f"mask of shape {i.sh} for an array of shape {self.sh}")
            vv = to_arr(val)
            if vv.sh.base or vv.sh.lead:
                if vv.masked is not i.t:
                    raise Unsupported("masked assignment of an array")
            self.t = ite(i.t, vv.t, self.t)
            return
        if i is Ellipsis or (isinstance(i, slice) and i == slice(None)):
            vv = to_arr(val)
            self.t = vv.t
            return
        if isinstance(i, (int, Arr)) and self.sh.lead and len(self.sh.lead) >= 1:
            d = self.sh.lead[0]
            ix = lift_num(i)
            vv = to_arr(val)
            sub = Shape(self.sh.lead[1:], self.sh.base)
            _, s2 = broadcast([(vv.t, vv.sh), (ZERO, sub)])
            if not s2.base <= sub.base:
                raise Failed("assignment-shape", f"value of shape {vv.sh} assigned to an item of shape {sub}")
            if not entails(W.pc, And(Le(ZERO, ix), Lt(ix, d.n))):
                raise Failed("index-range", f"index {ix} may be outside of [0, {d.n})")
            self.t = ite(Eq(d.k, ix), vv.t, self.t)
            return
        raise Unsupported(f"assignment to array[{i!r}]")

    masked = None


class BArr(Arr):
    """boolean array: .t is a formula."""
    isbool = True

    def __invert__(self): return BArr(Not(self.t), self.sh, self.kind)
    def __and__(self, o): return bool_ew(And, self, o)
    def __or__(self, o): return bool_ew(Or, self, o)
    __rand__, __ror__ = __and__, __or__
    def __hash__(self): return hash(self.t)

    def any(self):
        return np_any(self)

    def all(self):
        return np_all(self)

    def __bool__(self):
        if self.sh.lead or self.sh.base:
            raise Unsupported(f"truth value of an array {self.t} {self.sh} {self.kind}")
        return W.decide(self.t)


class SBool:
    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return W.decide(self.f)

    def __repr__(self):
        return f"<bool {self.f}>"

    def __and__(self, o): return SBool(And(self.f, formula(o)))
    def __or__(self, o): return SBool(Or(self.f, formula(o)))
    __rand__, __ror__ = __and__, __or__
    def __invert__(self): return SBool(Not(self.f))


def formula(x):
    if isinstance(x, SBool):
        return x.f
    if isinstance(x, BArr):
        return x.t
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    raise Unsupported(f"boolean {x!r}")


class Where:
    def __init__(self, mask):
        self.mask = mask


def mod_(a, b):
    if isc(a) and isc(b):
        return c(cval(a) % cval(b))
    return fn("mod", a, b)


def to_arr(x):
    if isinstance(x, Arr):
        if x.isbool:
            return Arr(ite(x.t, ONE, ZERO), x.sh, x.kind)
        return x
    if isinstance(x, SBool):
        return Arr(ite(x.f, ONE, ZERO), SCALAR, "py")
    if isinstance(x, bool):
        return Arr(c(int(x)), SCALAR, "py")
    if isinstance(x, int):
        return Arr(c(x), SCALAR, "int")
    if isinstance(x, float):
        return Arr(c(x), SCALAR, "py")
    if isinstance(x, Ravel):
        raise Unsupported("arithmetic on a ravelled array")
    if isinstance(x, T):
        return Arr(x)
    if isinstance(x, SExpr):
        return Arr(x.t, SCALAR, "np")
    if isinstance(x, (list, SSeq)):
        from .stubs import np_array
        return np_array(x)
    raise Unsupported(f"{type(x).__name__} used as a number")


def lift_num(x):
    return to_arr(x).t


def ew(f, *xs):
    for x in xs:
        if not isinstance(x, (Arr, int, float, T, SBool, list, SSeq)):
            return NotImplemented
    ys = [to_arr(x) for x in xs]
    bodies, sh = broadcast([(y.t, y.sh) for y in ys])
    kinds = {y.kind for y in ys}
    kind = "np" if "np" in kinds else "py" if "py" in kinds else "int"
    if kind == "int" and f in (div, power):
        kind = "py" if f is div else "int"
    return Arr(f(*bodies), sh, kind)


def bool_ew(f, *xs):
    ys = []
    for x in xs:
        if isinstance(x, BArr):
            ys.append((x.t, x.sh))
        else:
            ys.append((formula(x), SCALAR))
    bodies, sh = broadcast(ys)
    return BArr(f(*bodies), sh)


def cmpop(f, *xs):
    for x in xs:
        if not isinstance(x, (Arr, int, float, T)):
            return NotImplemented
    ys = [to_arr(x) for x in xs]
    bodies, sh = broadcast([(y.t, y.sh) for y in ys])
    kinds = {y.kind for y in ys}
    r = f(*bodies)
    if not sh.base and not sh.lead and "np" not in kinds:
        if r is TRUE or r is FALSE:
            return r is TRUE
        return SBool(r)
    return BArr(r, sh)


def atoms(a):
    return sorted(a.sh.base)


def exists_elem(f):
    """some element of the broadcast satisfies f: the generic element stands for all of them."""
    if f is TRUE or f is FALSE:
        return f
    return F("exel", (f,))


def np_any(b):
    f = b.t if isinstance(b, BArr) else Ne(to_arr(b).t, ZERO)
    if entails(W.pc, Not(f)):
        return False
    if W.decide(pred("some-element", f)):
        return True
    # no element satisfies f, in particular not the generic one
    W.assume(Not(f))
    return False


def np_all(b):
    f = b.t if isinstance(b, BArr) else Ne(to_arr(b).t, ZERO)
    if entails(W.pc, f):
        return True
    if W.decide(pred("all-elements", f)):
        W.assume(f)
        return True
    return False


def size_of(a):
    if isinstance(a, Arr):
        if a.key is not None:
            return Arr(fn("sizeof", a.key), SCALAR, "int")
        t = ONE
        for d in a.sh.lead:
            if d is not None:
                t = mul(t, d.n)
        if a.sh.base or not a.sh.exact:
            t = mul(t, fn("size", *sorted_base(a)))
        return Arr(t, SCALAR, "int")
    raise Unsupported("size")


def sorted_base(a):
    return [v("sh:" + b, "U") for b in sorted(a.sh.base)]


class SymShape:
    """shape of an array."""

    def __init__(self, sh):
        self.sh = sh

    def __eq__(self, o):
        if isinstance(o, SymShape):
            return self.sh.desc() == o.sh.desc()
        return False

    def __hash__(self):
        return hash(self.sh.desc()[1])

    def __iter__(self):
        if self.sh.base:
            raise Unsupported("iteration over an unknown shape")
        return iter([Arr(ONE if d is None else d.n, SCALAR, "int") for d in self.sh.lead])

    def __getitem__(self, i):
        if not self.sh.base:
            return list(self)[i]
        raise Unsupported("item of an unknown shape")

    def __len__(self):
        if self.sh.base:
            raise LenUnknown("rank of an unknown shape")
        return len(self.sh.lead)


class Ravel:
    """row-major flattened array."""

    def __init__(self, a):
        self.a = a

    def ravel(self, order="C"):
        return self

    flatten = ravel

    def reshape(self, *sh):
        sh = tuple(sh[0]) if len(sh) == 1 and isinstance(sh[0], (tuple, list)) else sh
        if sh in ((-1,), (1, -1)):
            return self
        raise Unsupported("reshape")


class ToList:
    """nested lists of an array."""

    def __init__(self, a):
        self.a = a


# ------------------------------------------------------------------------------ strings
class SStr:
    """an arbitrary string; .u is a term of sort U. role: 'name' or 'expr' (a parsable expression)."""

    def __init__(self, u, role="name"):
        self.u, self.role = u, role

    def __eq__(self, o):
        if isinstance(o, SStr):
            if o.u is self.u:
                return True
            return SBool(pred("streq", *sorted((self.u, o.u), key=lambda x: x.key)))
        if isinstance(o, builtins.str):
            return SBool(pred("streq:" + o, self.u))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(Not(r.f))

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __str__(self):
        return f"‹{self.u}›"

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __add__(self, o):
        raise Unsupported("string concatenation")

    __radd__ = __add__

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported(f"str.{name} of a symbolic string")


def ustr(x):
    """term of sort U for a name."""
    if isinstance(x, SStr):
        return x.u
    if isinstance(x, builtins.str):
        return v("'" + x, "U")
    raise Unsupported(f"name {x!r}")


def uname(u):
    """python value for a term of sort U."""
    if u.op == "v" and u.args[0].startswith("'"):
        return u.args[0][1:]
    return SStr(u)


def ueq(a, b):
    """formula: two names are equal."""
    if a is b:
        return TRUE
    ca = a.op == "v" and a.args[0].startswith("'")
    cb = b.op == "v" and b.args[0].startswith("'")
    if ca and cb:
        return FALSE
    if ca:
        return pred("streq:" + a.args[0][1:], b)
    if cb:
        return pred("streq:" + b.args[0][1:], a)
    return pred("streq", *sorted((a, b), key=lambda x: x.key))


# ------------------------------------------------------------------------------ environments (parameter dicts)
def env_has(env, k):
    if env.op == "fn":
        n = env.args[0]
        if n == "upd":
            return Or(ueq(env.args[2], k), env_has(env.args[1], k))
        if n == "merge":
            return Or(env_has(env.args[1], k), env_has(env.args[2], k))
        if n == "env":
            return FALSE
        if n == "without":
            return And(Not(ueq(env.args[2], k)), env_has(env.args[1], k))
    return pred("in", k, env)


def env_get(env, k):
    if env.op == "fn":
        n = env.args[0]
        if n == "upd":
            q = ueq(env.args[2], k)
            if q in W.pc:
                return env.args[3]
            if Not(q) in W.pc:
                return env_get(env.args[1], k)
            return ite(q, env.args[3], env_get(env.args[1], k))
        if n == "merge":
            h = env_has(env.args[2], k)
            if h in W.pc:
                return env_get(env.args[2], k)
            if Not(h) in W.pc:
                return env_get(env.args[1], k)
            return ite(h, env_get(env.args[2], k), env_get(env.args[1], k))
    return fn("get", env, k)


def env_upd(env, k, val):
    if env_has(env, k) in W.pc and env_get(env, k) is val:
        return env
    if env.op == "fn" and env.args[0] == "upd":
        if env.args[2] is k:
            return env_upd(env.args[1], k, val)
        if env.args[2].key > k.key and ueq(env.args[2], k) is FALSE:
            return fn("upd", env_upd(env.args[1], k, val), env.args[2], env.args[3])
    return fn("upd", env, k, val)


def env_merge(env, e):
    """the values of e overwrite those of env (idempotent)."""
    x = env
    while x.op == "fn" and x.args[0] == "merge":
        if x.args[2] is e:
            return env
        break
    return fn("merge", env, e)


class Marker:
    """stands for an unknown number of items when a symbolic collection is unpacked."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return f"<marker {self.__dict__}>"


class MarkStr(str):
    """dictionary key that stands for all keys of an unknown dict."""


class RestKeys(Marker):
    """all keys of environment .base (a term) -- item of an argument list."""


class RestVals(Marker):
    """all values, in the order of the keys of .base, looked up in .env."""


class PDict:
    """a dict of parameter values; env: term of sort U, order: list of ('base', u) and ('k', name term)."""

    def __init__(self, env, order, val_base=frozenset()):
        self.env, self.order, self.val_base = env, tuple(order), val_base
        self.own = {}       # single values, as they were given
        self.extra = {}     # values that are not numbers (only if all keys are known)
        W.track(self)

    def _vc_snap(self):
        return self.env, self.order, tuple(self.extra.items()), tuple(self.own.items())

    def _vc_restore(self, s):
        self.env, self.order = s[:2]
        self.extra, self.own = dict(s[2]), dict(s[3])

    def __repr__(self):
        return f"<dict {self.env}>"

    def has(self, k):
        ku = ustr(k)
        if ku.op == "fn" and ku.args[0] == "symname":
            if len(self.order) == 1 and self.order[0] == ("names", ku.args[1]):
                return TRUE
            return pred("covered", ku.args[1], self.env)
        if ku.op == "fn" and ku.args[0] == "key" and any(o[1] is ku.args[1] for o in self.order):
            return TRUE
        if any(o == ("k", ku) for o in self.order):
            return TRUE
        if all(o[0] == "k" for o in self.order):
            return Or(*[ueq(o[1], ku) for o in self.order])
        if len(self.order) == 1 and self.order[0][0] == "names":
            return insym(ku, self.order[0][1])
        return env_has(self.env, ku)

    def __contains__(self, k):
        if not isinstance(k, (str, SStr)):
            return False
        return W.decide(self.has(k))

    def __getitem__(self, k):
        if isinstance(k, MarkStr):
            return RestVals(env=self.env, base=k.base, kind=k.kind, val_base=self.val_base)
        if not W.decide(self.has(k)):
            raise KeyError(k)
        return self.val(ustr(k))

    def val(self, ku):
        if ku in self.extra:
            return self.extra[ku]
        g = fn("get", self.env, ku) if ku.op == "fn" and ku.args[0] in ("key", "symname") else env_get(self.env, ku)
        x = self.own.get(ku)
        if x is not None and x.t is g:
            return x
        r = Arr(g, Shape((), self.val_base), "np")
        r.key = ku      # (each value has a size of its own)
        return r

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, value):
        ku = ustr(k)
        h = self.has(k)
        if not W.decide(h):
            self.order = self.order + (("k", ku),)
        if value is None or isinstance(value, (builtins.str, SStr, bool)):
            if any(o[0] != "k" or not o[1].args[0].startswith("'") for o in self.order):
                raise Unsupported("value that is not a number in a dict of parameters")
            self.extra[ku] = value
            return
        self.extra.pop(ku, None)
        a = to_arr(value)
        self.env = env_upd(self.env, ku, a.t)
        if a.sh.lead or ku in self.own:
            self.own[ku] = a

    def __delitem__(self, k):
        ku = ustr(k)
        if any(o[0] != "k" or not o[1].args[0].startswith("'") for o in self.order) or not ku.args[0].startswith("'"):
            raise Unsupported("deletion of a parameter")
        keys = [o[1] for o in self.order]
        if ku not in keys:
            raise KeyError(k)
        keep, old = {}, self.extra
        self.extra = {}
        for x in keys:
            if x is not ku:
                keep[x] = old[x] if x in old else self.val(x)
        self.env, self.order = fn("env"), ()
        for x, val in keep.items():
            self[uname(x)] = val

    def pop(self, k, *d):
        if k not in self:
            if d:
                return d[0]
            raise KeyError(k)
        r = self[k]
        del self[k]
        return r

    def clear(self):
        self.env, self.order = fn("env"), ()

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def copy(self):
        r = PDict(self.env, self.order, self.val_base)
        r.extra = dict(self.extra)
        return r

    __copy__ = copy

    def update(self, *others, **kw):
        for o in (*others, kw):
            self._update(o)

    def _update(self, o):
        o = as_dict(o)
        if isinstance(o, dict):
            for k, x in o.items():
                self[k] = x
            return
        if not isinstance(o, PDict):
            raise Unsupported(f"dict.update({o!r})")
        if o.extra or self.extra:
            for k, x in zip(o.keys(), o.values()):
                self[k] = x
            return
        order = self.order
        for kind, u in o.order:
            if kind == "k":
                if not W.decide(self.has(uname(u))):
                    order += (("k", u),)
            elif kind == "base":
                if ("base", u) in order:
                    continue
                if not entails(W.pc, subset(o, self)) and subset(o, self) not in W.pc:
                    order += (("base+", u, self.env),)
            else:
                raise Unsupported("dict.update with a restricted dict")
        if o.env is self.env:
            pass
        elif all(k == "k" for k, *_ in self.order) and order == self.order and any(k == "base" for k, *_ in o.order):
            # the keys of o are a subset of the (known) keys
            e = self.env
            for _, u in self.order:
                h = o.has(uname(u))
                e = env_upd(e, u, ite(h, env_get(o.env, u), env_get(self.env, u)))
            self.env = e
        elif not any(k == "base" for k, *_ in o.order):
            e = self.env
            for kind, u in o.order:
                e = env_upd(e, u, env_get(o.env, u))
                if u in o.own and o.own[u].sh.lead:
                    self.own[u] = o.own[u]
                elif u in self.own:
                    self.own.pop(u)
            self.env = e
        else:
            self.env = env_merge(self.env, o.env)
        self.order = order
        self.val_base = self.val_base | o.val_base

    def keys(self):
        out = []
        for it in self.order:
            if it[0] == "k":
                out.append(uname(it[1]))
            else:
                m = MarkStr("\0" + repr(it))
                m.base, m.kind, m.env = it[1:], it[0], self.env
                out.append(m)
        return out

    def values(self):
        return [self[k] if isinstance(k, MarkStr) else self.val(ustr(k)) for k in self.keys()]

    def __iter__(self):
        return iter(self.keys())

    def items(self):
        segs = []
        for it in self.order:
            if it[0] == "k":
                segs.append(("one", (uname(it[1]), self.val(it[1]))))
            else:
                k = fresh("key", "I")
                ku = fn("key", *[x for x in it[1:] if isinstance(x, T)], k)
                h = env_has(self.env, ku)
                val = Arr(fn("get", self.env, ku), Shape((), self.val_base), "np")
                segs.append(("gen", fn("card", *[x for x in it[1:] if isinstance(x, T)]), k, (SStr(ku), val), ("dict", self, it)))
        return SSeq(segs)

    def __len__(self):
        raise LenUnknown("len() of a dict of unknown size")

    def __bool__(self):
        if not self.order:
            return False
        if any(o[0] == "k" for o in self.order):
            return True
        return W.decide(Not(pred("empty", self.env)))

    def __eq__(self, o):
        raise Unsupported("comparison of dicts")

    __hash__ = None


def subset(p, d):
    """formula: the keys of p are a subset of the keys of d."""
    fs = []
    for it in p.order:
        if it[0] == "k":
            fs.append(d.has(uname(it[1])))
        elif it[0] == "base" and isinstance(d, PDict):
            if ("base", it[1]) not in d.order:
                fs.append(pred("subset", it[1], *[x for o in d.order for x in o[1:]]))
        elif it[0] == "names":
            fs.append(pred("covered", it[1], d.env if isinstance(d, PDict) else v("none", "U")))
        else:
            raise Unsupported("subset")
    return And(*fs)


def insym(ku, e):
    return pred("insym", ku, e)


def as_dict(d):
    """plain dicts that contain markers become environments again."""
    if isinstance(d, dict) and any(isinstance(k, MarkStr) for k in d):
        env, order = None, []
        vb = frozenset()
        for k, x in d.items():
            if isinstance(k, MarkStr):
                if env is not None and env is not x.env:
                    raise Unsupported("several unknown dicts")
                env, vb = x.env, vb | x.val_base
                order.append((k.kind,) + tuple(k.base))
            else:
                order.append(("k", ustr(k)))
        r = PDict(env, order, vb)
        for k, x in d.items():
            if not isinstance(k, MarkStr) and not (isinstance(x, Arr) and env_get(r.env, ustr(k)) is x.t):
                r.env = env_upd(r.env, ustr(k), to_arr(x).t)
        return r
    return d


# ------------------------------------------------------------------------------ sequences
class Splat(Marker):
    """a symbolic sequence unpacked into an argument list / display."""

    def __init__(self, seq):
        self.seq = seq


class NamesOf(Splat):
    """all names of the free symbols of the expression .e."""

    def __init__(self, e):
        self.e = e
        k = fresh("sym", "I")
        self.seq = SSeq([("gen", fn("nsym", e), k, SStr(fn("symname", e, k)), ("names", e))])

    def __hash__(self):
        return hash(self.e)

    def __eq__(self, o):
        return isinstance(o, NamesOf) and o.e is self.e


def set_items(x):
    """the items of a set display."""
    if type(x) is Splat and isinstance(x.seq, SSeq):
        out = []
        for s in x.seq.segs:
            if s[0] == "one":
                out.append(s[1])
            elif len(s) > 4 and isinstance(s[4], tuple) and s[4][0] == "names" and isinstance(s[3], SStr) and s[3].u.args[:2] == ("symname", s[4][1]):
                out.append(NamesOf(s[4][1]))
            else:
                return [x]
        return out
    return [x]


class NSet:
    """set of names: .pos items (str, SStr, NamesOf, MarkStr) without those in .neg."""

    def __init__(self, pos, neg=()):
        self.pos, self.neg = [y for x in pos for y in set_items(x)], list(neg)

    SHOWN = []      # sets that occur in texts

    def __repr__(self):
        if self not in NSet.SHOWN:
            NSet.SHOWN.append(self)
        return f"<set #{[x is self for x in NSet.SHOWN].index(True)}: {self.pos} - {self.neg}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __iter__(self):
        if self.neg:
            return iter([Marker(nset=self)])
        return iter(self.pos)

    def _sub(self, o):
        return NSet(self.pos, self.neg + [o])

    def difference(self, *os):
        r = self
        for o in os:
            r = r._sub(o)
        return r

    def __sub__(self, o):
        return self._sub(o)

    def __rsub__(self, o):
        return NSet(o, [self])

    def union(self, *os):
        r = self
        for o in os:
            r = r | o
        return r

    def __or__(self, o):
        if self.neg or (isinstance(o, NSet) and o.neg):
            raise Unsupported("union of differences")
        return NSet(self.pos + list(o))

    __ror__ = __or__

    def add(self, x):
        self.pos.append(x)

    def nonempty(self):
        fs = []
        for x in self.pos:
            f = TRUE
            for o in self.neg:
                f = And(f, Not(contains_all(o, x)))
            fs.append(f)
        return Or(*fs)

    def __bool__(self):
        return W.decide(self.nonempty())

    def __len__(self):
        raise LenUnknown("len")

    def length(self):
        return SLen(self.nonempty())

    def issubset(self, o):
        if self.neg:
            raise Unsupported("issubset of a difference")
        return SBool(And(*[contains_all(o, x) for x in self.pos]))

    def __le__(self, o):
        return self.issubset(o)

    def issuperset(self, o):
        return SBool(And(*[contains_all(self, x) for x in o]))

    def __ge__(self, o):
        return self.issuperset(o)

    def isdisjoint(self, o):
        raise Unsupported("isdisjoint")

    def __contains__(self, x):
        return W.decide(contains_all(self, x))


class SLen:
    """length of a set of unknown size: only comparisons with zero."""

    def __init__(self, nonempty):
        self.ne = nonempty

    def __gt__(self, o):
        if o == 0:
            return SBool(self.ne)
        raise Unsupported("size of a set")

    def __eq__(self, o):
        if o == 0:
            return SBool(Not(self.ne))
        raise Unsupported("size of a set")

    def __ne__(self, o):
        return SBool(self.ne) if o == 0 else self.__eq__(o)

    def __ge__(self, o):
        if o == 1:
            return SBool(self.ne)
        raise Unsupported("size of a set")

    def __bool__(self):
        return W.decide(self.ne)

    __hash__ = None


def contains_all(coll, x):
    """formula: coll contains x (all names that x stands for)."""
    if isinstance(x, Marker) and hasattr(x, "nset"):
        raise Unsupported("membership of a set difference")
    if isinstance(coll, PDict):
        if isinstance(x, MarkStr):
            return subset(PDict(v("tmp", "U"), [(x.kind,) + tuple(x.base)]), coll)
        if isinstance(x, NamesOf):
            return pred("covered", x.e, coll.env)
        return coll.has(x)
    if isinstance(coll, NSet):
        pos = coll.pos
        envs = [y.env for y in pos if isinstance(y, MarkStr) and hasattr(y, "env")]
        if isinstance(x, NamesOf) and envs:
            pos = [y for y in pos if isinstance(y, Marker) or isinstance(y, MarkStr) or not any(env_has(e, ustr(y)) is TRUE for e in envs)]
        f = Or(*[contains_one(y, x) for y in pos])
        for o in coll.neg:
            f = And(f, Not(contains_all(o, x)))
        return f
    if isinstance(coll, (set, frozenset, list, tuple, dict)):
        return Or(*[contains_one(y, x) for y in list(coll)])
    if isinstance(coll, SSeq):
        raise Unsupported("membership in a sequence")
    raise Unsupported(f"membership in {type(coll).__name__}")


def contains_one(y, x):
    if isinstance(y, str) and not isinstance(y, MarkStr) and isinstance(x, str) and not isinstance(x, MarkStr):
        return TRUE if x == y else FALSE
    if isinstance(y, NamesOf):
        if isinstance(x, NamesOf):
            return TRUE if x.e is y.e else pred("names-subset", x.e, y.e)
        if isinstance(x, MarkStr):
            raise Unsupported("all keys in a set of names")
        return insym(ustr(x), y.e)
    if isinstance(y, MarkStr):
        if isinstance(x, MarkStr):
            return TRUE if (x.kind, x.base) == (y.kind, y.base) else pred("subset", *[b for b in x.base if isinstance(b, T)],
                                                                        *[b for b in y.base if isinstance(b, T)])
        if isinstance(x, NamesOf):
            # (with the other keys of the same dict)
            return pred("covered", x.e, getattr(y, "env", y.base[0]))
        return pred("in", ustr(x), y.base[0])
    if isinstance(x, NamesOf):
        return pred("names-equal", x.e, ustr(y)) if not isinstance(y, str) or not y.startswith(("theta_", "phi_")) else FALSE
    if isinstance(x, MarkStr):
        return FALSE
    if isinstance(x, (str, SStr)) and isinstance(y, (str, SStr)):
        return ueq(ustr(x), ustr(y))
    return TRUE if x is y else formula(x == y)


def seg_len(s):
    if s[0] == "one":
        return ONE
    if s[0] == "gen":
        return s[1]
    if s[0] == "filt":
        return summ(s[2], ZERO, s[1], ite(s[4], ONE, ZERO))
    raise Unsupported("length of a concatenation")


class SSeq:
    """immutable sequence of segments ('one', value) / ('gen', n, k, value, tag): value depends on index k < n."""

    def __init__(self, segs):
        self.segs = list(segs)

    def __repr__(self):
        return f"<seq {self.segs}>"

    def length(self):
        return add(*[seg_len(s) for s in self.segs]) if self.segs else ZERO

    def __iter__(self):
        if all(s[0] == "one" for s in self.segs):
            return iter([s[1] for s in self.segs])
        return iter([s[1] if s[0] == "one" else Splat(SSeq([s])) for s in self.segs])

    def __bool__(self):
        return W.decide(Lt(ZERO, self.length()))

    def __add__(self, o):
        return SSeq(self.segs + as_seq(o).segs)

    def __radd__(self, o):
        return SSeq(as_seq(o).segs + self.segs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        ix = lift_num(i)
        n = self.length()
        if isc(ix) and cval(ix) < 0:
            ix = canon(add(n, ix))
        if not entails(W.pc, And(Le(ZERO, ix), Lt(ix, n))):
            if W.decide(And(Le(ZERO, ix), Lt(ix, n))) is False:
                raise IndexError("list index out of range")
        off = ZERO
        for s in self.segs:
            if s[0] == "one":
                if same_len(ix, off):
                    return s[1]
                off = canon(add(off, ONE))
            else:
                if s[0] != "gen":
                    raise Unsupported("item of a filtered sequence")
                if len(self.segs) == 1 or entails(W.pc, And(Le(off, ix), Lt(ix, add(off, s[1])))):
                    return subst_val(s[3], {s[2]: canon(add(ix, neg(off)))})
                off = canon(add(off, s[1]))
        raise Unsupported(f"item {ix} of {self}")

    def _slice(self, i):
        if i.step is not None:
            raise Unsupported("slice of a symbolic sequence with a step")
        n = canon(self.length())

        def bound(x, d):
            if x is None:
                return d
            t = canon(lift_num(x))
            if isc(t) and cval(t) < 0:
                t = canon(add(n, t))
            if not entails(W.pc, Le(ZERO, t)) and not W.decide(Le(ZERO, t)):
                t = ZERO
            if not entails(W.pc, Le(t, n)) and not W.decide(Le(t, n)):
                t = n
            return t
        a, b = bound(i.start, ZERO), bound(i.stop, n)
        out, off = [], ZERO

        def le(x, y):
            return x is y or entails(W.pc, Le(x, y)) or W.decide(Le(x, y))
        for s in self.segs:
            if s[0] not in ("one", "gen"):
                raise Unsupported("slice of a filtered sequence")
            end = canon(add(off, seg_len(s)))
            lo = a if le(off, a) else off
            hi = b if le(b, end) else end
            if not le(hi, lo):
                if s[0] == "one":
                    out.append(s)
                else:
                    d = canon(add(lo, neg(off)))
                    out.append(("gen", canon(add(hi, neg(lo))), s[2], s[3] if d is ZERO else subst_val(s[3], {s[2]: add(s[2], d)})))
            off = end
        return SSeq(out)

    def __contains__(self, x):
        fs = []
        for s in self.segs:
            if s[0] == "one":
                r = (s[1] == x)
                if r is True:
                    return True
                if r is not False:
                    fs.append(formula(r))
            else:
                raise Unsupported("membership in a symbolic sequence")
        return W.decide(Or(*fs)) if fs else False


def as_seq(x):
    if isinstance(x, SSeq):
        return x
    if isinstance(x, (list, tuple)):
        segs = []
        for y in x:
            if isinstance(y, Splat):
                segs += y.seq.segs
            else:
                segs.append(("one", y))
        return SSeq(segs)
    if getattr(x, "_vc_groups", None) is not None:
        return x.keys()
    if isinstance(x, Arr):
        d = x.sh.lead[0] if x.sh.lead else None
        if d is None:
            raise Unsupported("iteration over an array of unknown rank")
        k = fresh("i", "I")
        return SSeq([("gen", d.n, k, x.at(k))])
    raise Unsupported(f"{type(x).__name__} as a sequence")


def is_symbolic_seq(x):
    if isinstance(x, SSeq):
        return any(s[0] != "one" for s in x.segs)
    if isinstance(x, (list, tuple)):
        return any(isinstance(y, Splat) for y in x)
    if isinstance(x, Arr):
        return bool(x.sh.lead) and x.sh.lead[0] is not None and not isc(canon(x.sh.lead[0].n))
    return getattr(x, "_vc_groups", None) is not None


def subst_val(x, m):
    if isinstance(x, BArr):
        return BArr(subst(x.t, m), subst_shape(x.sh, m), x.kind)
    if isinstance(x, Arr):
        return Arr(subst(x.t, m), subst_shape(x.sh, m), x.kind)
    if isinstance(x, SExpr):
        return type(x)(subst(x.t, m))
    if isinstance(x, SStr):
        return SStr(subst(x.u, m), x.role)
    if isinstance(x, tuple):
        return tuple(subst_val(y, m) for y in x)
    if isinstance(x, VList):
        return VList([subst_val(y, m) for y in x])
    if isinstance(x, list):
        return [subst_val(y, m) for y in x]
    if isinstance(x, SSeq):
        return SSeq([(s[0], subst_val(s[1], m)) if s[0] == "one" else
                     (s[0], subst(s[1], m), s[2], subst_val(s[3], m)) + tuple(subst(y, m) if isinstance(y, (T, F)) else y for y in s[4:])
                     for s in x.segs])
    if isinstance(x, T):
        return subst(x, m)
    f = getattr(x, "_vc_subst", None)
    if f:
        return f(m)
    if type(x) is Splat:
        return Splat(subst_val(x.seq, m))
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    raise Unsupported(f"generic element of type {type(x).__name__}")


def subst_shape(s, m):
    if not s.lead:
        return s
    return Shape([d if d is None else Dim(subst(d.n, m), d.k) for d in s.lead], s.base, s.exact)


class VList(list):
    """list created by the verified code; knows about symbolic sequences."""

    def __init__(self, xs=()):
        super().__init__(xs)
        W.track(self)

    def _vc_snap(self):
        return list(self)

    def _vc_restore(self, s):
        self[:] = s

    def sym(self):
        return any(isinstance(y, Splat) for y in self)

    def __iadd__(self, o):
        if isinstance(o, SSeq):
            super().extend(list(o))
            return self
        o2 = iter_rows(o)
        super().extend(o2)
        return self

    def extend(self, o):
        self.__iadd__(o)

    def __add__(self, o):
        if isinstance(o, SSeq):
            return VList(list.__add__(self, list(o)))
        if isinstance(o, Arr):
            return NotImplemented
        return VList(list.__add__(self, list(o)))

    def __radd__(self, o):
        return VList(list(o) + list(self))

    def __mul__(self, n):
        if isinstance(n, Arr):
            if len(self) == 1 and n.kind == "int":
                return VList([Splat(SSeq([("gen", n.t, fresh("i", "I"), self[0])]))])
            raise Unsupported("list repetition")
        return VList(list.__mul__(self, n))

    __rmul__ = __mul__

    def __getitem__(self, i):
        if self.sym() or isinstance(i, Arr) or (isinstance(i, slice) and any(isinstance(x, Arr) for x in (i.start, i.stop, i.step))):
            r = as_seq(self)[i]
            return VList(list(r)) if isinstance(i, slice) else r
        r = list.__getitem__(self, i)
        return VList(r) if isinstance(i, slice) else r

    def __len__(self):
        if any(isinstance(y, Splat) for y in list.__iter__(self)):
            raise LenUnknown("len() of a list of unknown length")
        return list.__len__(self)

    def __bool__(self):
        if self.sym():
            return bool(as_seq(self))
        return list.__len__(self) > 0

    def __contains__(self, x):
        if self.sym() or isinstance(x, SStr):
            return W.decide(contains_all(list(list.__iter__(self)), x))
        return any((y is x) or bool(y == x) for y in self)

    def index(self, x, *a):
        if self.sym():
            raise Unsupported("list.index")
        return list.index(self, x, *a)


def iter_rows(o):
    f = getattr(o, "_vc_rows", None)
    return f() if f else list(o)


# ------------------------------------------------------------------------------ expressions (abstract sympy)
DSYM = v("s:*", "U")     # the values of all parameter symbols


def symv(name):
    """variable that stands for a symbol in an expression."""
    if isinstance(name, SStr):
        return fn("sym", name.u)
    return v("s:" + name)


class SExpr:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<expr {self.t}>"

    def __add__(self, o): return sx(add, self, o)
    def __radd__(self, o): return sx(add, o, self)
    def __sub__(self, o): return sx(lambda a, b: add(a, neg(b)), self, o)
    def __rsub__(self, o): return sx(lambda a, b: add(a, neg(b)), o, self)
    def __mul__(self, o): return sx(mul, self, o)
    def __rmul__(self, o): return sx(mul, o, self)
    def __truediv__(self, o): return sx(div, self, o)
    def __rtruediv__(self, o): return sx(div, o, self)
    def __pow__(self, o): return sx(power, self, o)
    def __rpow__(self, o): return sx(power, o, self)
    def __neg__(self): return sx(neg, self)
    def __pos__(self): return self

    def __hash__(self):
        return hash(self.t)

    def __eq__(self, o):
        if isinstance(o, SExpr):
            return self.t is o.t
        if isinstance(o, (int, float)):
            return self.t is c(o)
        return False

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o): return SBool(Lt(self.t, se(o)))
    def __le__(self, o): return SBool(Le(self.t, se(o)))
    def __gt__(self, o): return SBool(Gt(self.t, se(o)))
    def __ge__(self, o): return SBool(Ge(self.t, se(o)))

    def __bool__(self):
        raise Unsupported("truth value of an expression")

    @property
    def name(self):
        t = self.t
        if t.op == "v" and t.args[0].startswith("s:"):
            return t.args[0][2:]
        if t.op == "fn" and t.args[0] == "sym":
            return SStr(t.args[1])
        raise AttributeError("name")

    @property
    def free_symbols(self):
        return SymNames(self.t)

    def expand(self, *a, **k): return self
    def doit(self, *a, **k): return self
    def simplify(self, *a, **k): return self
    def evalf(self): return self

    def diff(self, x):
        return SExpr(sdiff(self.t, se(x)))

    def subs(self, *a):
        if len(a) == 2:
            a = ({a[0]: a[1]},)
        if len(a) != 1 or not isinstance(a[0], dict):
            raise Unsupported("subs")
        return self.xreplace(a[0])

    def xreplace(self, m):
        if isinstance(m, dict):
            keys = {se(k): se(x) for k, x in m.items()}
            if all(k.op == "v" and k.args[0].startswith("s:") for k in keys):
                return SExpr(subst(self.t, keys))
        from . import poly
        return poly.to_gpoly(self.t, list(W.pc)).xreplace(m)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"expression attribute {n}")


def se(x):
    if isinstance(x, SExpr):
        return x.t
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return c(x)
    if isinstance(x, Arr) and not x.isbool and not x.sh.base and not x.sh.lead:
        return x.t
    if isinstance(x, T):
        return x
    raise Unsupported(f"{type(x).__name__} in an expression")


def sx(f, *xs):
    for x in xs:
        if isinstance(x, Arr) and x.kind == "np":
            return NotImplemented
        if not isinstance(x, (SExpr, int, float, Arr)):
            return NotImplemented
    return SExpr(f(*[se(x) for x in xs]))


def sdiff(t, x):
    """derivative of an expression (contract of sympy.diff), opaque parts by an uninterpreted derivative."""
    if t is x:
        return ONE
    o, a = t.op, t.args
    if o == "c":
        return ZERO
    if o == "v":
        return ZERO if x.op == "v" else ite(eq_sym(t, x), ONE, ZERO) if t.args[0].startswith("s:") else ZERO
    if o == "+":
        return add(*[sdiff(y, x) for y in a])
    if o == "*":
        return add(*[mul(*(a[:i] + (sdiff(y, x),) + a[i + 1:])) for i, y in enumerate(a)])
    if o == "^":
        b, e = a
        db, de = sdiff(b, x), sdiff(e, x)
        if de is ZERO:
            return mul(e, power(b, add(e, c(-1))), db)
        return mul(t, add(mul(de, log(b)), mul(e, db, power(b, c(-1)))))
    if o == "fn":
        if a[0] == "sym":
            return ite(eq_sym(t, x), ONE, ZERO)
        if a[0] == "exp":
            return mul(t, sdiff(a[1], x))
        if a[0] == "cos":
            return mul(c(-1), sin(a[1]), sdiff(a[1], x))
        if a[0] == "sin":
            return mul(cos(a[1]), sdiff(a[1], x))
        if DSYM in vars_of(t):
            return fn("d:" + a[0], symu(x), *a[1:])
        raise Unsupported(f"derivative of {a[0]}")
    raise Unsupported(f"derivative of {o}")


def symu(x):
    if x.op == "fn" and x.args[0] == "sym":
        return x.args[1]
    return v("'" + x.args[0][2:], "U")


def eq_sym(a, b):
    return ueq(symu(a), symu(b))


class SymNames:
    """set of the free symbols of an expression."""

    def __init__(self, t):
        self.t = t

    def __iter__(self):
        out = []
        for x in sorted(set(walk(self.t)), key=lambda y: y.key):
            if isinstance(x, T) and x.op == "v" and x.args[0].startswith("s:") and x is not DSYM:
                out.append(SExpr(x))
            elif isinstance(x, T) and x.op == "fn" and x.args[0] == "sym":
                out.append(SExpr(x))
        for e in opaque_ids(self.t):
            out.append(NamesOf(e=e))
        return iter(out)

    def __len__(self):
        raise LenUnknown("number of free symbols")

    def __bool__(self):
        return W.decide(pred("has-symbols", self.t))


def opaque_ids(t):
    """identities of the opaque expressions in t (terms of sort U)."""
    s = []
    for x in walk(t):
        if isinstance(x, T) and x.op == "fn" and DSYM in x.args:
            e = x.args[1] if x.args[0].startswith(("expr", "d:expr")) else v("names:" + x.args[0].replace("d:", ""), "U")
            if x.args[0].startswith("d:expr"):
                e = x.args[2]
            if e not in s:
                s.append(e)
    return s


class LamFn:
    """compiled function: variables, expressions."""

    def __init__(self, variables, funcs, many):
        self.vars, self.funcs, self.many = list(variables), funcs, many

    def __repr__(self):
        return f"<lambda {self.vars} -> {self.funcs}>"

    def _vc_subst(self, m):
        return LamFn(self.vars, subst_val(self.funcs, m), self.many)

    def __call__(self, *args, **kwargs):
        return call_lam(self, args, kwargs)


def var_item(x):
    """('n', name term) or ('m', key) for a marker."""
    if isinstance(x, str) and isinstance(x, MarkStr):
        return ("m", (x.kind,) + tuple(x.base))
    if isinstance(x, (str, SStr)):
        return ("n", ustr(x))
    if isinstance(x, SExpr):
        return ("n", ustr(x.name))
    if isinstance(x, RestKeys):
        return ("m", x.key)
    if isinstance(x, NamesOf):
        return ("m", ("names", x.e))
    raise Unsupported(f"function variable {x!r}")


def call_lam(f, args, kwargs):
    """contract of a compiled function (positional, then by name)."""
    vs = [var_item(x) for x in f.vars]
    if len(args) > len(vs):
        raise TypeError("too many arguments")
    names, env, vb, nset = {}, None, frozenset(), []
    shapes = []
    mixed = None
    for i, a in enumerate(args):
        kind, key = vs[i]
        if isinstance(a, RestVals):
            if kind != "m" or key != (a.kind,) + tuple(a.base):
                raise Failed("argument-binding", f"the values of {a.base} are passed for the variables {key}")
            env, vb = a.env, vb | a.val_base
            nset.append(key)
            shapes.append((a.env, Shape((), a.val_base)))
        else:
            if kind != "n":
                raise Failed("argument-binding", f"a single value is passed for the variables {key}")
            a = to_arr(a)
            names[key] = a
    rest = vs[len(args):]
    kw = as_dict(kwargs)
    for kind, key in rest:
        if kind == "n":
            name = uname(key)
            if isinstance(kw, PDict):
                if not W.decide(kw.has(name)):
                    raise KeyError(name)
                names[key] = kw.val(key)
            else:
                hit = [x for k, x in kw.items() if k == name]
                if not hit:
                    raise KeyError(name)
                names[key] = to_arr(hit[0])
        else:
            if not isinstance(kw, PDict):
                raise Failed("argument-binding", f"no values for the variables {key}")
            ok = key in [tuple(o) for o in kw.order]
            if not ok and key[0] == "names":
                q = pred("covered", key[1], kw.env)
                ok = any(o[0] == "base" for o in kw.order)
                if ok and not W.decide(q):
                    raise KeyError(f"names of {key[1]}")
            if not ok and key[0] == "base":
                # all keys of a known dict are contained in the passed one
                pd = PDict(v("tmp", "U"), [key])
                ok = W.decide(subset(pd, kw))
                if not ok:
                    raise KeyError(f"keys of {key}")
            if not ok:
                raise Failed("argument-binding", f"no values for the variables {key}")
            env, vb = kw.env, vb | kw.val_base
            nset.append(key)
    if isinstance(kw, PDict):
        vb = vb | kw.val_base if not args or nset else vb
    base = frozenset().union(vb, *[a.sh.base for a in names.values()])
    allsh = Shape((), base)
    leads = [a for a in names.values() if a.sh.lead]
    if leads:
        _, allsh = broadcast([(a.t, a.sh) for a in names.values()] + ([(ZERO, Shape((), vb))] if vb else []))
        names = {k: Arr(broadcast([(a.t, a.sh), (ZERO, allsh)])[0][0], a.sh) for k, a in names.items()}
    m = {}
    for key, a in names.items():
        m[symv(uname(key))] = a.t
    fenv = env
    for key, a in names.items():
        if fenv is None:
            fenv = fn("env")
        if key.args[0] in ("'theta_0", "'theta_ex", "'phi_0", "'phi_ex") and key.op == "v":
            continue
        if env is not None and env_get(env, key) is a.t:
            continue
        fenv = env_upd(fenv, key, a.t)
    if fenv is None:
        fenv = fn("env")

    def ev(e):
        t = se(e)
        if DSYM in vars_of(t):
            ids = opaque_ids(t)
            have = [k for k in nset]
            for i in ids:
                ok = any(k == ("names", i) or k[0] in ("base", "base+") for k in have)
                if not ok:
                    if names and not have:
                        # all names are passed one by one
                        q = pred("covered", i, fenv)
                        if entails(W.pc, q) or W.decide(q):
                            continue
                    raise Failed("argument-binding", f"the symbols of {i} are not variables of the compiled function")
        mm = dict(m)
        mm[DSYM] = fenv
        for x in walk(t):
            if isinstance(x, T) and x not in mm:
                if x.op == "fn" and x.args[0] == "sym":
                    if env is None:
                        raise Failed("argument-binding", f"symbol {x.args[1]} is not bound")
                    mm[x] = env_get(fenv, x.args[1])
                elif x.op == "v" and x.args[0].startswith("s:") and x is not DSYM:
                    if env is None:
                        raise Failed("argument-binding", f"symbol {x.args[0][2:]} is not bound")
                    mm[x] = env_get(fenv, v("'" + x.args[0][2:], "U"))
        if f_backend_loose():
            if f.many:
                return Arr(subst(t, mm), Shape(allsh.lead, allsh.base, False), "np")
            # an unknown shape that broadcasts with the one of the arguments
            return Arr(subst(t, mm), Shape(allsh.lead, frozenset({f"shape of {canon(t)}"}), True), "np")
        return Arr(subst(t, mm), allsh, "np")

    if f.many:
        s = as_seq(f.funcs)
        return SSeq([(x[0], ev(x[1])) if x[0] == "one" else (x[0], x[1], x[2], ev(x[3])) for x in s.segs])
    return ev(f.funcs)


_LOOSE = [False]


def f_backend_loose():
    """the sympy backend returns scalars for constants (shape only broadcastable to the full one)."""
    return _LOOSE[0]


def _freeze_list(x):
    r = VList.__new__(VList)
    list.__init__(r, [core.freeze(y) for y in list.__iter__(x)])
    return r


def _freeze_seq(x):
    return SSeq([(s[0], core.freeze(s[1])) if s[0] == "one" else s[:3] + (core.freeze(s[3]),) + tuple(s[4:]) for s in x.segs])


core.FREEZE.update({
    Arr: lambda x: Arr(x.t, x.sh, x.kind),
    BArr: lambda x: BArr(x.t, x.sh, x.kind),
    VList: _freeze_list,
    list: lambda x: [core.freeze(y) for y in x],
    SSeq: _freeze_seq,
    Splat: lambda x: Splat(_freeze_seq(x.seq)),
})


class Poison:
    """value of a loop variable after a symbolic loop."""

    def __init__(self, why):
        self.__dict__["why"] = why

    def _bad(self, *a, **k):
        raise Unsupported(f"use of {self.why} after a symbolic loop")

    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __call__ = __iter__ = __getitem__ = __bool__ = _bad
    __eq__ = __lt__ = __gt__ = __pow__ = __truediv__ = _bad
    __hash__ = object.__hash__

    def __getattr__(self, n):
        self._bad()
