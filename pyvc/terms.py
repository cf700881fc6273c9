"""Terms (mathematical reals / integers) and formulas, with a rational normal form.

Machine arithmetic is treated as mathematical; decimal literals are read exactly."""
from fractions import Fraction as Q
from functools import lru_cache
import math

_TAB = {}


class T:
    __slots__ = ("op", "args", "h", "key", "_nf", "_fv")

    def __new__(cls, op, args):
        k = (op, args)
        t = _TAB.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.h, t.key, t._nf, t._fv = op, args, hash(k), len(_TAB), None, None
            _TAB[k] = t
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (T, (self.op, self.args))

    # convenience for writing specifications
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return add(self, neg(lift(o)))
    def __rsub__(self, o): return add(lift(o), neg(self))
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, o): return power(self, lift(o))
    def __rpow__(self, o): return power(lift(o), self)


def c(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return T("fn", ("float:" + repr(x),))
        # decimal literals are read exactly, results of divisions of small integers as the fraction
        q = Q(x).limit_denominator(1000)
        x = q if float(q) == x else Q(repr(x))
    return T("c", (Q(x),))


ZERO, ONE = c(0), c(1)


def lift(x):
    return x if isinstance(x, T) else c(x)


def v(name, sort="R"):
    return T("v", (name, sort))


def isc(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


def add(*xs):
    out, k = [], Q(0)
    for x in xs:
        for y in (x.args if x.op == "+" else (x,)):
            if isc(y):
                k += cval(y)
            else:
                out.append(y)
    if k != 0 or not out:
        out.append(c(k))
    return out[0] if len(out) == 1 else T("+", tuple(out))


def mul(*xs):
    out, k = [], Q(1)
    for x in xs:
        for y in (x.args if x.op == "*" else (x,)):
            if isc(y):
                k *= cval(y)
            else:
                out.append(y)
    if k == 0:
        # 0*x = 0 (numpy would give nan for non-finite x)
        return ZERO
    if k != 1 or not out:
        out.insert(0, c(k))
    return out[0] if len(out) == 1 else T("*", tuple(out))


def neg(x):
    return mul(c(-1), x)


def div(a, b):
    return mul(a, power(b, c(-1)))


def power(a, b):
    if isc(b) and cval(b) == 1:
        return a
    if isc(b) and cval(b) == 0:
        return ONE
    if isc(a) and isc(b) and cval(b).denominator == 1 and not (cval(a) == 0 and cval(b) < 0):
        return c(cval(a) ** int(cval(b)))
    return T("^", (a, b))


def fn(name, *args):
    return T("fn", (name,) + tuple(lift(a) if not isinstance(a, (T, F, str)) else a for a in args))


def sqrt(x): return power(lift(x), c(Q(1, 2)))
def exp(x): return fn("exp", x)
def log(x): return fn("log", x)
def cos(x): return fn("cos", x)
def sin(x): return fn("sin", x)


PI = v("pi")
_fresh = [0]


def fresh(prefix, sort="R"):
    _fresh[0] += 1
    return v(f"{prefix}!{_fresh[0]}", sort)


def ite(cond, a, b):
    if cond is TRUE:
        return a
    if cond is FALSE:
        return b
    if isinstance(a, T):
        if b.op == "ite" and b.args[0] is cond:
            b = b.args[2]
        if a.op == "ite" and a.args[0] is cond:
            a = a.args[1]
    if a is b:
        return a
    return T("ite", (cond, a, b))


def depth_sum(t):
    d = 0
    if isinstance(t, (T, F)):
        for a in t.args:
            if isinstance(a, (T, F)):
                d = max(d, depth_sum(a))
        if isinstance(t, T) and t.op == "sum":
            d += 1
    return d


def summ(k, lo, hi, body):
    """sum over lo <= k < hi; the bound variable is canonicalised by nesting depth."""
    lo, hi = lift(lo), lift(hi)
    if isc(lo) and isc(hi):
        n = int(cval(hi) - cval(lo))
        if n <= 0:
            return ZERO
        if n <= 12:
            return add(*[subst(body, {k: c(cval(lo) + i)}) for i in range(n)])
    nk = v(f"#{depth_sum(body)}", "I")
    return T("sum", (nk, lo, hi, subst(body, {k: nk}) if k is not nk else body))


# ---------------------------------------------------------------------------- formulas
_FTAB = {}


class F:
    __slots__ = ("op", "args", "h", "key")

    def __new__(cls, op, args=()):
        k = (op, args)
        f = _FTAB.get(k)
        if f is None:
            f = object.__new__(cls)
            f.op, f.args, f.h, f.key = op, args, hash(("F", k)), len(_FTAB)
            _FTAB[k] = f
        return f

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (F, (self.op, self.args))


TRUE, FALSE = F("true"), F("false")


def bv(name):
    return F("bv", (name,))


def pred(name, *args):
    return F("pred", (name,) + tuple(args))


def Not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return F("not", (a,))


def And(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.args if x.op == "and" else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else F("and", tuple(out))


def Or(*xs):
    return Not(And(*[Not(x) for x in xs]))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return Not(b)
    if b is FALSE:
        return Not(a)
    return F("iff", (a, b))


def cmp_(op, a, b):
    a, b = lift(a), lift(b)
    if isc(a) and isc(b):
        x, y = cval(a), cval(b)
        return TRUE if {"<": x < y, "<=": x <= y, "==": x == y}[op] else FALSE
    if a is b:
        return FALSE if op == "<" else TRUE
    return F(op, (a, b))


def Lt(a, b): return cmp_("<", a, b)
def Le(a, b): return cmp_("<=", a, b)
def Gt(a, b): return cmp_("<", b, a)
def Ge(a, b): return cmp_("<=", b, a)
def Eq(a, b): return cmp_("==", a, b)
def Ne(a, b): return Not(Eq(a, b))


def subst(t, m):
    """simultaneous substitution {T/F: T/F}."""
    memo = {}

    def go(x):
        if not isinstance(x, (T, F)):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        a = tuple(go(y) for y in x.args)
        if a == x.args:
            r = x
        else:
            r = rebuild(x, a)
        memo[x] = r
        return r
    return go(t)


def rebuild(x, a):
    if isinstance(x, F):
        if x.op == "not":
            return Not(*a)
        if x.op == "and":
            return And(*a)
        if x.op == "iff":
            return Iff(*a)
        if x.op in ("<", "<=", "=="):
            return cmp_(x.op, *a)
        return F(x.op, a)
    if x.op == "+":
        return add(*a)
    if x.op == "*":
        return mul(*a)
    if x.op == "^":
        return power(*a)
    if x.op == "ite":
        return ite(*a)
    if x.op == "sum":
        return summ(*a)
    return T(x.op, a)


def walk(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, (T, F)) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.args)


def vars_of(t):
    return {x for x in walk(t) if isinstance(x, T) and x.op == "v"}


def show(t):
    if isinstance(t, str):
        return t
    if isinstance(t, F):
        o, a = t.op, t.args
        if o == "bv":
            return a[0]
        if o == "pred":
            return f"{a[0]}({', '.join(map(show, a[1:]))})"
        if o == "not":
            return f"!({show(a[0])})"
        if o in ("true", "false"):
            return o
        if o == "and":
            return " && ".join(f"({show(x)})" for x in a)
        return f"({show(a[0])} {o} {show(a[1])})"
    if not isinstance(t, T):
        return repr(t)
    o, a = t.op, t.args
    if o == "c":
        return str(a[0])
    if o == "v":
        return a[0]
    if o == "+":
        return "(" + " + ".join(map(show, a)) + ")"
    if o == "*":
        return "*".join(show(x) for x in a)
    if o == "^":
        return f"({show(a[0])})**({show(a[1])})"
    if o == "fn":
        return f"{a[0]}({', '.join(map(show, a[1:]))})"
    if o == "ite":
        return f"ite({show(a[0])}, {show(a[1])}, {show(a[2])})"
    if o == "sum":
        return f"Sum[{show(a[0])}={show(a[1])}..<{show(a[2])}]({show(a[3])})"
    return f"{o}{a}"


# ---------------------------------------------------------------- rational normal form
# polynomial: {mono: Q}, mono: sorted tuple of (atom T, exponent Q); negative exponents allowed
class Poly(dict):
    pass


PONE = ((), Q(1))


def pmono(atom, e=Q(1)):
    return Poly({((atom, Q(e)),): Q(1)})


def pconst(q):
    return Poly({(): Q(q)}) if q != 0 else Poly()


def padd(a, b):
    r = Poly(a)
    for m, k in b.items():
        s = r.get(m, 0) + k
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    return r


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        s = d.get(x, 0) + e
        if s == 0:
            d.pop(x, None)
        else:
            d[x] = s
    return tuple(sorted(d.items(), key=lambda p: p[0].key))


def pmul(a, b):
    r = {}
    for m, k in a.items():
        for n, l in b.items():
            mn = mmul(m, n)
            s = r.get(mn, 0) + k * l
            if s == 0:
                r.pop(mn, None)
            else:
                r[mn] = s
    return Poly(r)


def pscale(a, q):
    return Poly({m: k * q for m, k in a.items()}) if q else Poly()


def ppow(a, n):
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, a)
    return r


class Rat:
    """num/den with den a non-monomial polynomial (monomial denominators go into num)."""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, d if d is not None else pconst(1)
        self.fix()

    def fix(self):
        if len(self.d) == 1:
            (m, k), = self.d.items()
            inv = tuple((x, -e) for x, e in m)
            self.n = Poly({mmul(x, inv): q / k for x, q in self.n.items()})
            self.d = pconst(1)
        elif self.n == self.d:
            self.n, self.d = pconst(1), pconst(1)
        elif len(self.n) == 0:
            self.d = pconst(1)


def pdivides(num, den):
    """num/den when den divides num exactly (single-step attempt by proportionality)."""
    if not num or len(num) != len(den):
        return None
    # num == mono*const*den ?
    (m1, k1) = min(num.items(), key=lambda p: [(x.key, e) for x, e in p[0]])
    for m2, k2 in den.items():
        inv = tuple((x, -e) for x, e in m2)
        q = mmul(m1, inv)
        r = Poly({mmul(q, m): k1 / k2 * k for m, k in den.items()})
        if r == num:
            return Poly({q: k1 / k2})
    return None


def radd(a, b):
    if a.d == b.d:
        r = Rat(padd(a.n, b.n), a.d)
    else:
        r = Rat(padd(pmul(a.n, b.d), pmul(b.n, a.d)), pmul(a.d, b.d))
    return cancel(r)


def cancel(r):
    q = pdivides(r.n, r.d) if len(r.d) > 1 else None
    return Rat(q) if q is not None else r


def rmul(a, b):
    n1, d1, n2, d2 = a.n, a.d, b.n, b.d
    q = pdivides(n1, d2) if len(d2) > 1 else None
    if q is not None:
        n1, d2 = q, pconst(1)
    q = pdivides(n2, d1) if len(d1) > 1 else None
    if q is not None:
        n2, d1 = q, pconst(1)
    return Rat(pmul(n1, n2), pmul(d1, d2))


def rinv(a):
    if not a.n:
        raise ZeroDivisionError
    return Rat(a.d, a.n)


def rpow(a, n):
    if n < 0:
        return rpow(rinv(a), -n)
    r = Rat(pconst(1))
    for _ in range(n):
        r = rmul(r, a)
    return r


def nf(t):
    if t._nf is None:
        t._nf = _nf(t)
    return t._nf


POSITIVE_FN = {"exp"}


def _nf(t):
    o, a = t.op, t.args
    if o == "c":
        return Rat(pconst(a[0]))
    if o == "v":
        return Rat(pmono(t))
    if o == "+":
        r = Rat(Poly())
        for x in a:
            r = radd(r, nf(x))
        return r
    if o == "*":
        r = Rat(pconst(1))
        for x in a:
            r = rmul(r, nf(x))
        return r
    if o == "^":
        return nfpow(nf(a[0]), a[1])
    if o == "fn":
        return nffn(a[0], a[1:])
    if o == "ite":
        cnd = canonF(a[0])
        x, y = canon(a[1]), canon(a[2])
        if x is y:
            return nf(x)
        if cnd.op == "not":
            cnd, x, y = cnd.args[0], y, x
        return Rat(pmono(T("ite", (cnd, x, y))))
    if o == "sum":
        return nfsum(*a)
    raise TypeError(o)


def canon(t):
    """a canonical term for the normal form of t."""
    return unrat(nf(t))


def canonF(f):
    if f.op in ("<", "<=", "=="):
        return cmp_(f.op, canon(f.args[0]), canon(f.args[1]))
    if f.op in ("true", "false", "bv"):
        return f
    return rebuild(f, tuple(canonF(x) if isinstance(x, F) else canon(x) if isinstance(x, T) else x for x in f.args))


def unpoly(p):
    ms = []
    for m, k in sorted(p.items(), key=lambda i: [(x.key, e) for x, e in i[0]]):
        fs = [c(k)] if k != 1 or not m else []
        for x, e in m:
            fs.append(power(x, c(e)))
        ms.append(mul(*fs))
    return add(*ms) if ms else ZERO


def unrat(r):
    n = unpoly(r.n)
    if r.d == pconst(1):
        return n
    # normalise the sign/scale of the denominator by its leading coefficient
    lead = sorted(r.d.items(), key=lambda i: [(x.key, e) for x, e in i[0]])[0][1]
    return div(unpoly(pscale(r.n, 1 / lead)), unpoly(pscale(r.d, 1 / lead)))


def nfpow(b, e):
    en = nf(e)
    ec = canon(e)
    if isc(ec):
        q = cval(ec)
        if q.denominator == 1:
            n = int(q)
            if abs(n) <= 24 and (len(b.n) <= 1 or abs(n) <= 8):
                if not b.n and n < 0:
                    return Rat(pmono(T("fn", ("div0",))))
                return rpow(b, n)
            return Rat(pmono(T("^", (unrat(b), c(1))) if False else fnpow(b), q))
        # rational exponent: (base^(1/den))^num for a base that is not a perfect power
        den, num = q.denominator, q.numerator
        if len(b.n) == 1 and b.d == pconst(1):
            (m, k), = b.n.items()
            # monomial: distribute over atoms (positive atoms); rational constants with exact roots
            ck = exact_root(k, den)
            if ck is not None and (not m or all(x.op == "v" and x.args[0] in ("pi",) or
                                                (x.op == "fn" and x.args[0] in ("exp", "root")) for x, _ in m)):
                r = Rat(Poly({tuple((x, y * q) for x, y in m): Q(1)})) if m else Rat(pconst(1))
                return rmul(r, rpow(Rat(pconst(ck)), num))
        return rootpow(b, den, num)
    # symbolic exponent: split into monomials of the exponent
    if len(b.n) == 1 and b.d == pconst(1) and en.d == pconst(1):
        (m, k), = b.n.items()
        if not m and k == 1:
            return Rat(pconst(1))
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            base = m[0][0]
            return powsplit(base, en)
        r = Rat(pconst(1))
        for x, y in m:
            r = rmul(r, powsplit(x, nf(mul(c(y), e))))
        if k == -1:
            r = rmul(r, powsplit(c(-1), en))
        elif k < 0:
            r = rmul(r, rmul(powsplit(c(-1), en), powsplit(c(-k), en)))
        elif k != 1:
            r = rmul(r, powsplit(c(k), en))
        return r
    if en.d == pconst(1):
        return powsplit(unrat(b), en)
    return Rat(pmono(T("^", (unrat(b), ec))))


def fnpow(b):
    return T("fn", ("big", unrat(b)))


def exact_root(q, n):
    if q < 0:
        return None
    def r(z):
        x = round(z ** (1.0 / n))
        for y in (x - 1, x, x + 1):
            if y >= 0 and y ** n == z:
                return y
        return None
    a, b = r(q.numerator), r(q.denominator)
    return Q(a, b) if a is not None and b is not None else None


def rootpow(b, den, num):
    """(b^(1/den))^num with the whole powers split off."""
    # pull out a positive rational content so that roots of proportional bases agree
    whole, rest = divmod(num, den)
    at = T("fn", ("root", c(den), unrat(b)))
    r = rpow(b, whole) if b.n else Rat(Poly())
    if rest:
        r = rmul(r, Rat(pmono(at, Q(rest))))
    return r


def powsplit(base, en):
    """base ** (sum of monomials)"""
    r = Rat(pconst(1))
    for m, k in en.n.items():
        if not m:
            if k.denominator == 1:
                r = rmul(r, rpow(nf(base), int(k)))
            else:
                r = rmul(r, nfpow(nf(base), c(k)))
        else:
            q, s = k, Q(1)
            if k.denominator != 1:
                s, q = Q(1, k.denominator), Q(k.numerator)
            at = T("^", (base, unpoly(Poly({m: s}))))
            if isc(base) and cval(base) == -1 and q % 2 == 0:
                continue
            if isc(base) and cval(base) == -1:
                q = Q(1)
            r = rmul(r, Rat(pmono(at, q)))
    return r


EVEN = {"cos", "cosh"}
ODD = {"sin", "sinh"}


def nffn(name, args):
    if name == "exp":
        r = nf(args[0])
        if len(r.n) == 0:
            return Rat(pconst(1))
        if r.d == pconst(1):
            out = ()
            for m, k in r.n.items():
                out = mmul(out, ((T("fn", ("exp", unpoly(Poly({m: Q(1)})))), k),))
            return Rat(Poly({out: Q(1)}))
        return Rat(pmono(T("fn", ("exp", unrat(r)))))
    ca = tuple(canon(x) if isinstance(x, T) else canonF(x) if isinstance(x, F) else x for x in args)
    az = azimuths(name)
    if az:
        # contract of the distributions: 2 pi periodic in the azimuth angles, invariant if both are shifted by pi
        ca = tuple(mod2pi(x) if i in az else x for i, x in enumerate(ca))
        if nf(ca[az[0]]).n.get(((PI, Q(1)),), 0) >= 1:
            ca = tuple(mod2pi(canon(add(x, neg(PI)))) if i in az else x for i, x in enumerate(ca))
    if name in ("cos", "sin"):
        x = ca[0]
        # shifts by multiples of pi
        r = nf(x)
        if r.d == pconst(1):
            k = r.n.get(((PI, Q(1)),), Q(0))
            if k != 0 and (2 * k).denominator == 1:
                rest = unpoly(Poly({m: q for m, q in r.n.items() if m != ((PI, Q(1)),)}))
                h = int(2 * k) % 4
                f = {"cos": [("cos", 1), ("sin", -1), ("cos", -1), ("sin", 1)],
                     "sin": [("sin", 1), ("cos", 1), ("sin", -1), ("cos", -1)]}[name][h]
                return rmul(Rat(pconst(f[1])), nffn(f[0], (rest,)))
        if isc(x) and cval(x) == 0:
            return Rat(pconst(1 if name == "cos" else 0))
        # sign of the argument
        if lead_neg(x):
            s = canon(neg(x))
            if name == "cos":
                return Rat(pmono(T("fn", ("cos", s))))
            return Rat(pscale(pmono(T("fn", ("sin", s))), -1))
    if name == "log":
        return nflog(nf(ca[0]))
    if name == "legendre" and isc(ca[0]) and cval(ca[0]).denominator == 1 and 0 <= cval(ca[0]) <= 6:
        return nf(legendre_poly(int(cval(ca[0])), ca[1]))
    if name == "binom" and isc(ca[1]) and cval(ca[1]).denominator == 1 and cval(ca[1]) >= 0:
        # n (n - 1) ... (n - k + 1) / k!
        k = int(cval(ca[1]))
        if k <= 6:
            r = Rat(pconst(1))
            for i in range(k):
                r = rmul(r, nf(mul(c(Q(1, i + 1)), add(ca[0], c(-i)))))
            return r
    if name in ("delta",):
        if isc(ca[0]) and isc(ca[1]):
            return Rat(pconst(1 if ca[0] is ca[1] else 0))
        if ca[0].key > ca[1].key:
            ca = (ca[1], ca[0])
    return Rat(pmono(T("fn", (name,) + ca)))


def primitive(p):
    """(constant, monomial, polynomial with leading coefficient 1 and without a common monomial)."""
    ms = sorted(p.items(), key=lambda i: [(x.key, e) for x, e in i[0]])
    k = ms[0][1]
    com = dict(ms[0][0])
    for m, _ in ms[1:]:
        d = dict(m)
        com = {x: min(e, d[x]) if x in d else 0 for x, e in com.items()}
        com = {x: e for x, e in com.items() if e}
    cm = tuple(sorted(com.items(), key=lambda q: q[0].key))
    inv = tuple((x, -e) for x, e in cm)
    return k, cm, Poly({mmul(m, inv): q / k for m, q in p.items()})


def nflog(r):
    """log of a product as sum of logs (the factors are assumed to be positive)."""
    if not r.n:
        return Rat(pmono(T("fn", ("log", ZERO))))
    k1, m1, n = primitive(r.n)
    k2, m2, d = primitive(r.d)
    k = k1 / k2
    if k < 0:
        if len(d) > 1:
            d, k = pscale(d, -1), -k
        elif len(n) > 1:
            n, k = pscale(n, -1), -k
        else:
            return Rat(pmono(T("fn", ("log", unrat(r)))))
    out = Rat(Poly())

    def plus(x, e):
        nonlocal out
        out = radd(out, Rat(pscale(x, e)))
    for z, s in ((k.numerator, 1), (k.denominator, -1)):
        f = 2
        while z > 1 and f <= 1000:
            e = 0
            while z % f == 0:
                z, e = z // f, e + 1
            if e:
                plus(pmono(T("fn", ("log", c(f)))), s * e)
            f += 1
        if z > 1:
            plus(pmono(T("fn", ("log", c(z)))), s)
    for x, e in mmul(m1, tuple((x, -e) for x, e in m2)):
        if x.op == "fn" and x.args[0] == "exp":
            out = radd(out, rmul(nf(x.args[1]), Rat(pconst(e))))
        elif x.op == "^":
            out = radd(out, rmul(Rat(pconst(e)), rmul(nf(x.args[1]), nflog(nf(x.args[0])))))
        elif x.op == "fn" and x.args[0] == "root":
            out = radd(out, rmul(Rat(pconst(e / cval(x.args[1]))), nflog(nf(x.args[2]))))
        else:
            plus(pmono(T("fn", ("log", x))), e)
    if len(n) > 1:
        plus(pmono(T("fn", ("log", unpoly(n)))), 1)
    if len(d) > 1:
        plus(pmono(T("fn", ("log", unpoly(d)))), -1)
    return out


def azimuths(name):
    """positions of the azimuth angles of functions that are 2 pi periodic in them."""
    if name == "f":
        return (2, 4)
    if name.startswith("pf:"):
        return (2, 3)
    if name.startswith("d:pf:"):
        return (3, 4)
    return ()


def mod2pi(x):
    r = nf(x)
    m = ((PI, Q(1)),)
    k = r.n.get(m, Q(0))
    if r.d != pconst(1) or k == 0 or 0 <= k < 2:
        return x
    n = Poly(r.n)
    k = k % 2
    if k:
        n[m] = k
    else:
        n.pop(m)
    return unpoly(n)


def legendre_poly(n, x):
    p0, p1 = ONE, x
    if n == 0:
        return p0
    for k in range(1, n):
        p0, p1 = p1, mul(c(Q(1, k + 1)), add(mul(c(2 * k + 1), x, p1), mul(c(-k), p0)))
    return p1


def lead_neg(t):
    r = nf(t)
    if not r.n:
        return False
    m = sorted(r.n.items(), key=lambda i: [(x.key, e) for x, e in i[0]])[0]
    return m[1] < 0


def nfsum(k, lo, hi, body):
    """pull monomial factors without k out of the sum; split sums."""
    b = nf(body)
    lo_, hi_ = canon(lo), canon(hi)
    if not b.n:
        return Rat(Poly())
    dfree = k not in vars_of(unpoly(b.d))
    if not dfree:
        return Rat(pmono(T("sum", (k, lo_, hi_, unrat(b)))))
    tot = Rat(Poly())
    for m, q in b.n.items():
        out = tuple((x, e) for x, e in m if k not in vars_of(x))
        inn = tuple((x, e) for x, e in m if k in vars_of(x))
        if not inn:
            s = nf(add(hi_, neg(lo_)))  # requires lo <= hi
        else:
            # shift to a zero lower bound
            ib = unpoly(Poly({inn: Q(1)}))
            l2, h2 = lo_, hi_
            if not (isc(lo_) and cval(lo_) == 0):
                ib = canon(subst(ib, {k: add(k, lo_)}))
                h2, l2 = canon(add(hi_, neg(lo_))), ZERO
                # the shift may have created factors without k
                return_parts = nf(ib)
                if len(return_parts.n) > 1 or any(k not in vars_of(x) for mm in return_parts.n for x, _ in mm):
                    s = nfsum(k, ZERO, h2, ib)
                    tot = radd(tot, rmul(Rat(Poly({out: q})), s))
                    continue
            nk = v(f"#{depth_sum(ib)}", "I")
            if nk is not k and k.args[0].startswith("#"):
                s = Rat(pmono(T("sum", (nk, l2, h2, canon(subst(ib, {k: nk}))))))
            else:
                s = Rat(pmono(T("sum", (k, l2, h2, ib))))
        tot = radd(tot, rmul(Rat(Poly({out: q})), s))
    return Rat(tot.n, pmul(tot.d, b.d))


def equal(a, b):
    """decides equality of the normal forms (sound, not complete)."""
    if a is b:
        return True
    d = radd(nf(a), rmul(Rat(pconst(-1)), nf(b)))
    return not reduce_roots(d.n)


def reduce_roots(p):
    """replace root(n, b)^n by b until nothing changes."""
    for _ in range(40):
        hit = None
        for m in p:
            for x, e in m:
                if x.op == "fn" and x.args[0] == "root":
                    n = cval(x.args[1])
                    if e >= n or e < 0:
                        hit = (x, n)
                        break
            if hit:
                break
        if not hit:
            return p
        x, n = hit
        # multiply out negative powers first
        mn = min((e for m in p for y, e in m if y is x), default=0)
        if mn < 0:
            p = Poly({mmul(m, ((x, -mn),)): q for m, q in p.items()})
            continue
        base = nf(x.args[2])
        r = Rat(Poly())
        for m, q in p.items():
            e = dict(m).get(x, Q(0))
            w = int(e // n)
            rest = tuple((y, f) if y is not x else (y, e - w * n) for y, f in m)
            rest = tuple((y, f) for y, f in rest if f != 0)
            r = radd(r, rmul(Rat(Poly({tuple(sorted(rest, key=lambda z: z[0].key)): q})), rpow(base, w)))
        p = r.n
    return p


# ------------------------------------------------------------------------ derivatives
def diff(t, x):
    """derivative with respect to the variable (or opaque application) x."""
    if t is x:
        return ONE
    o, a = t.op, t.args
    if o in ("c", "v"):
        return ZERO
    if not any(y is x for y in walk(t)):
        return ZERO
    if o == "+":
        return add(*[diff(y, x) for y in a])
    if o == "*":
        return add(*[mul(*(a[:i] + (diff(y, x),) + a[i + 1:])) for i, y in enumerate(a)])
    if o == "^":
        b, e = a
        if diff(e, x) is ZERO:
            return mul(e, power(b, add(e, c(-1))), diff(b, x))
        return mul(t, add(mul(diff(e, x), log(b)), mul(e, diff(b, x), power(b, c(-1)))))
    if o == "fn":
        n = a[0]
        y = a[1]
        d = diff(y, x) if isinstance(y, T) else ZERO
        if n == "exp":
            return mul(t, d)
        if n == "log":
            return mul(d, power(y, c(-1)))
        if n == "cos":
            return mul(c(-1), sin(y), d)
        if n == "sin":
            return mul(cos(y), d)
        raise NotImplementedError(f"derivative of {n}")
    if o == "sum":
        return summ(a[0], a[1], a[2], diff(a[3], x))
    if o == "ite":
        return ite(a[0], diff(a[1], x), diff(a[2], x))
    raise NotImplementedError(o)
