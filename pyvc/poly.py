"""Polynomials in cos/sin of theta_s, phi_s with symbolic exponents: contracts of expand / xreplace on expanded sums.

An expanded expression is a sum of monomials; xreplace acts on every monomial by itself (rule of the power, else the rule
of the base), expand distributes products and powers. A GPoly is a finite sum of terms, each one a (generic) monomial with
integer exponents which may depend on bound indices (a sum over them) or on free variables."""
from .terms import *
from . import terms as tm
from . import core
from .core import W, Unsupported, Failed
from .values import *
from . import runtime as rt
from .stubs import XPolyBase

THS, PHS = v("s:theta_s"), v("s:phi_s")
ATOMS = (cos(THS), sin(THS), cos(PHS), sin(PHS))


def has_atom(t):
    return any(x in (THS, PHS) for x in walk(t))


def mod2(x):
    return to_arr(Arr(x, SCALAR, "int") % 2).t


class Term:
    def __init__(self, coef, exps=None, bind=(), guard=TRUE):
        self.coef, self.exps, self.bind, self.guard = coef, {a: e for a, e in (exps or {}).items() if e is not ZERO}, tuple(bind), guard

    def ctx(self):
        f = [self.guard] if self.guard is not TRUE else []
        for k, n in self.bind:
            f += [Le(ZERO, k), Lt(k, n)]
        return list(W.pc) + f

    def times(self, o):
        if {k for k, _ in self.bind} & {k for k, _ in o.bind}:
            o = o.rename()
        ex = dict(self.exps)
        for a, e in o.exps.items():
            ex[a] = canon(add(ex.get(a, ZERO), e))
        return Term(mul(self.coef, o.coef), ex, self.bind + o.bind, And(self.guard, o.guard))

    def rename(self):
        m = {k: fresh("k", "I") for k, _ in self.bind}
        return self.sub(m, [(m[k], n) for k, n in self.bind])

    def sub(self, m, bind):
        return Term(subst(self.coef, m), {a: canon(subst(e, m)) for a, e in self.exps.items()}, [(k, subst(n, m)) for k, n in bind],
                    subst(self.guard, m))

    def value(self):
        t = self.coef
        for a, e in self.exps.items():
            t = mul(t, power(a, e))
        if self.guard is not TRUE:
            t = ite(self.guard, t, ZERO)
        for k, n in reversed(self.bind):
            t = summ(k, ZERO, n, t)
        return t


class GPoly(XPolyBase):
    def __init__(self, terms, expanded=True):
        self.terms, self.expanded = [t for t in terms if t.coef is not ZERO], expanded

    def __repr__(self):
        return f"<poly {self.value()}>"

    def value(self):
        return add(*[t.value() for t in self.terms]) if self.terms else ZERO

    def _lift(self, o):
        if isinstance(o, GPoly):
            return o
        return to_gpoly(se(o), [])

    def __add__(self, o):
        o = self._lift(o)
        return GPoly(self.terms + o.terms, self.expanded and o.expanded)

    __radd__ = __add__

    def __neg__(self):
        return GPoly([Term(neg(t.coef), t.exps, t.bind, t.guard) for t in self.terms], self.expanded)

    def __sub__(self, o):
        return self + (-self._lift(o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = self._lift(o)
        return GPoly([a.times(b) for a in self.terms for b in o.terms], len(self.terms) <= 1 and len(o.terms) <= 1)

    __rmul__ = __mul__

    def expand(self, *a, **k):
        if k or a:
            raise Unsupported("options of expand")
        return GPoly(self.terms, True)

    def doit(self, *a, **k):
        return self

    def xreplace(self, rules):
        if not self.expanded:
            raise Unsupported("xreplace in an expression that is not expanded")
        rs = rule_list(rules)
        out, plain = [], True
        for t in self.terms:
            todo = [Term(t.coef, {}, t.bind, t.guard)]
            for atom, e in t.exps.items():
                new = []
                if all(r[3] is not atom for r in rs):
                    todo = [u.times(Term(ONE, {atom: e})) for u in todo]
                    plain = False
                    continue
                for u in todo:
                    for g, p in cases(atom, e, rs, u):
                        if p is not None and any(x.exps for x in p.terms):
                            plain = False
                        for x in (p.terms if p is not None else [Term(ONE, {atom: e})]):
                            y = u.times(x)
                            y.guard = And(y.guard, g)
                            new.append(y)
                todo = new
            out += [y for x in todo for y in simplify(x)]
        r = GPoly(out, plain)
        if all(not t.exps for t in r.terms):
            return SExpr(r.value())
        return r

    subs = xreplace

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"polynomial.{n}")


def rule_list(rules):
    """[(index or None, n, filter, atom, exponent, value)]"""
    if isinstance(rules, rt.RuleDict):
        items = list(rules.rules)
    elif isinstance(rules, dict):
        items = list(rules.items())
    else:
        raise Unsupported("rules of xreplace")
    out = []
    for it in items:
        if isinstance(it, Splat):
            segs = it.seq.segs
        else:
            segs = [("one", it)]
        for s in segs:
            if s[0] == "one":
                k, n, f, pair = None, None, TRUE, s[1]
            elif s[0] in ("gen", "filt"):
                k, n, pair, f = s[2], s[1], s[3], s[4] if s[0] == "filt" else TRUE
            else:
                raise Unsupported("rules of xreplace")
            key, val = list(pair)
            kt = canon_key(se(key))
            out.append((k, n, f, kt[0], kt[1], val))
    return out


def canon_key(t):
    if t in ATOMS:
        return t, ONE
    if t.op == "^" and t.args[0] in ATOMS:
        return t.args[0], canon(t.args[1])
    raise Unsupported(f"rule for {t}")


def solve(k, g, e):
    """k with g(k) = e."""
    d = canon(add(g, neg(k)))
    if k not in vars_of(d):
        return canon(add(e, neg(d)))
    d = canon(add(g, k))
    if k not in vars_of(d):
        return canon(add(d, neg(e)))
    raise Unsupported("exponents of the rules")


def matches(atom, e, rs):
    """[(guard, value)], the last rules first."""
    out = []
    for k, n, f, a, g, val in reversed(rs):
        if a is not atom:
            continue
        if k is None:
            out.append((Eq(e, g), val, None))
        else:
            s = solve(k, g, e)
            m = {k: s}
            z = None
            if isinstance(val, SExpr) and not has_atom(val.t):
                z = subst(val.t, {k: solve(k, g, ZERO)})
            out.append((And(Le(ZERO, s), Lt(s, n), subst(f, m)), subst_val(val, m), z))
    return out


def known(g, u):
    """decides a formula about a term: True, False or None (depends on the bound indices)."""
    if g is TRUE or g is FALSE:
        return g is TRUE
    bound = {k for k, _ in u.bind}
    if not (bound & vars_of_f(g)):
        if core.entails(u.ctx(), g):
            return True
        if core.entails(u.ctx(), Not(g)):
            return False
        return W.decide(g)
    if core.entails(u.ctx(), g):
        return True
    if core.entails(u.ctx(), Not(g)):
        return False
    return None


def vars_of_f(g):
    return {x for x in walk(g) if isinstance(x, T) and x.op == "v"}


def cases(atom, e, rs, u):
    """replacement of atom**e in the term u: [(guard, polynomial or None = unchanged)]."""
    ms = matches(atom, e, rs)
    alts = [(Eq(e, ZERO), c(1))] + [(g, x) for g, x, _ in ms]
    if len(ms) == 1 and ms[0][2] is not None and core.entails(u.ctx(), Or(Eq(e, ZERO), ms[0][0])):
        # the value of the rule also holds for the exponent zero
        if canon(pick(ms[0][2], [])) is ONE:
            return [(TRUE, value_of(ms[0][1], u))]
    out, rest = [], TRUE
    done = False
    for g, val in alts:
        x = Term(u.coef, {}, u.bind, And(u.guard, rest))
        k = known(g, x)
        if k is False:
            continue
        gg = rest if k is True else And(rest, g)
        y = Term(u.coef, {}, u.bind, And(u.guard, gg))
        out.append((gg, value_of(val, y)))
        if k is True:
            done = True
            break
        rest = And(rest, Not(g))
    if not done and not core.entails(list(u.ctx()) + [rest], FALSE):
        base = None
        for g, val, _ in matches(atom, ONE, rs):
            if known(g, Term(ONE)):
                base = val
                break
        if base is None:
            out.append((rest, None))
        else:
            b = value_of(base, u)
            bv_ = b.value()
            if bv_ is ZERO:
                out.append((rest, GPoly([])))
            elif bv_ is ONE:
                out.append((rest, GPoly([Term(ONE)])))
            else:
                out.append((rest, to_gpoly(power(bv_, e), u.ctx() + [rest])))
    # values without the atoms: one term with a case distinction (unless the index is determined)
    if len(out) > 1 and e not in {k for k, _ in u.bind} and all(p is not None and all(not t.exps and not t.bind for t in p.terms) for _, p in out):
        t = out[-1][1].value()
        for g, p in reversed(out[:-1]):
            t = ite(g, p.value(), t)
        return [(TRUE, GPoly([Term(t)]))]
    return out


def value_of(val, u):
    if isinstance(val, GPoly):
        return val
    return to_gpoly(se(val), u.ctx())


def to_gpoly(t, pc):
    if not has_atom(t):
        return GPoly([Term(pick(t, pc))])
    if t in ATOMS:
        return GPoly([Term(ONE, {t: ONE})])
    if t.op == "+":
        r = GPoly([])
        for x in t.args:
            r = r + to_gpoly(x, pc)
        return GPoly(r.terms, True)
    if t.op == "*":
        r = GPoly([Term(ONE)])
        for x in t.args:
            r = r * to_gpoly(x, pc)
        return GPoly(r.terms, True)
    if t.op == "ite":
        g = t.args[0]
        if core.entails(pc, g):
            return to_gpoly(t.args[1], pc)
        if core.entails(pc, Not(g)):
            return to_gpoly(t.args[2], pc)
        raise Unsupported("conditional replacement")
    if t.op == "^":
        b, e = t.args
        e = canon(e)
        if not core.entails(pc, Le(ZERO, e)) or not is_integer(e, pc):
            raise Unsupported(f"power {t}")
        if b in ATOMS:
            return GPoly([Term(ONE, {b: e})])
        p = to_gpoly(b, pc)
        if isc(e):
            r = GPoly([Term(ONE)])
            for _ in range(int(cval(e))):
                r = r * p
            return GPoly(r.terms, True)
        if len(p.terms) == 2 and not any(x.bind or x.guard is not TRUE for x in p.terms):
            x, y = sorted(p.terms, key=lambda z: len(z.exps))
            k = fresh("k", "I")
            m = canon(add(e, neg(k)))
            co = mul(fn("binom", e, k), power(x.coef, m) if x.coef is not ONE else ONE, power(y.coef, k))
            ex = {}
            for src, f in ((x.exps, m), (y.exps, k)):
                for a, q in src.items():
                    ex[a] = canon(add(ex.get(a, ZERO), mul(q, f)))
            return GPoly([Term(co, ex, [(k, canon(add(e, ONE)))])])
    raise Unsupported(f"polynomial {t}")


def pick(t, pc):
    """resolves case distinctions that are determined by the context."""
    while t.op == "ite":
        if core.entails(pc, t.args[0]):
            t = t.args[1]
        elif core.entails(pc, Not(t.args[0])):
            t = t.args[2]
        else:
            return t
    return t


def is_integer(e, pc):
    if isc(e):
        return cval(e).denominator == 1
    if all(x.args[1] == "I" for x in vars_of(e)):
        d = canon(mul(c(2), e))
        return core.entails(pc, Eq(mod2(d), ZERO))
    return False


def simplify(t):
    """eliminates indices that are determined by the guard."""
    if t.guard is FALSE or t.coef is ZERO:
        return []
    if core.entails(t.ctx(), FALSE):
        return []
    for k, n in t.bind:
        for f in (t.guard.args if t.guard.op == "and" else (t.guard,)):
            if f.op == "==":
                for a, b in (f.args, f.args[::-1]):
                    d = canon(add(a, neg(b), neg(k)))
                    if k in vars_of(d):
                        d = canon(add(b, neg(a), neg(k)))
                    if k not in vars_of(d):
                        s = canon(neg(d))
                        m = {k: s}
                        u = t.sub(m, [x for x in t.bind if x[0] is not k])
                        rng = And(Le(ZERO, s), Lt(s, n))
                        if core.entails(u.ctx(), rng):
                            return simplify(u)
                        x = known(rng, u)
                        if x is True:
                            return simplify(u)
                        if x is False:
                            return []
                        u.guard = And(u.guard, rng)
                        return simplify(u)
    if t.guard is not TRUE and core.entails(Term(t.coef, {}, t.bind).ctx(), t.guard):
        t.guard = TRUE
    return [t]
