"""Obligations: statements about terms that the back ends (normal form, case split, z3) have to discharge."""
import hashlib
import math
import random
import time

from .terms import *
from . import terms as tm
from . import core
from .core import W, Unsupported, Failed, Infeasible, TooMany


class Obl:
    """status: proved | refuted | unknown;  by: back end."""

    def __init__(self, name, status, by="", detail="", hint=None, secs=0.0):
        self.name, self.status, self.by, self.detail, self.hint, self.secs = name, status, by, detail, hint, secs

    def __repr__(self):
        return f"{self.status:8s} {self.name} [{self.by}] {self.detail[:300]}"

    def json(self):
        return {"name": self.name, "status": self.status, "by": self.by, "detail": self.detail[:4000], "hint": self.hint,
                "secs": round(self.secs, 4)}


# ------------------------------------------------------------------------------ simplification by cases
def ite_conds(t):
    """conditions of the outermost undecided conditionals (formulas without bound variables)."""
    out = []
    for x in walk(t):
        if isinstance(x, T) and x.op == "ite":
            g = x.args[0]
            if not any(y.args[0].startswith("#") for y in vars_of(g)) and g not in out:
                out.append(g)
    return out


def bound_ite(s):
    return any(isinstance(x, T) and x.op == "ite" for x in walk(s.args[3]))


def free_bound(s):
    """does a sum depend on the index of an enclosing one?"""
    own = {x.args[0] for x in walk(s) if isinstance(x, T) and x.op == "sum"}
    return any(y.args[0].startswith("#") and y not in own for y in vars_of(s))


def linear_sums(d):
    """[(coefficient, sum)] of a linear combination of sums, else None"""
    out = []
    for x in d.args if d.op == "+" else (d,):
        fs = x.args if x.op == "*" else (x,)
        sums = [f for f in fs if f.op == "sum"]
        if len(sums) != 1:
            return None
        out.append((mul(*[f for f in fs if f is not sums[0]]), sums[0]))
    return out


def atomic(g):
    while g.op == "not":
        g = g.args[0]
    if g.op in ("and", "iff"):
        for x in g.args:
            return atomic(x)
    return g


def assign(t, f, val):
    return subst(t, {f: TRUE if val else FALSE})


def prove_eq(name, a, b, pc=None, depth=10):
    """obligation a == b under the path condition."""
    t0 = time.time()
    pc = list(W.pc) if pc is None else list(pc)
    a, b = lift(a), lift(b)

    def go(x, y, pc, d):
        if x is y:
            return "nf"
        try:
            if tm.equal(x, y):
                return "nf"
        except ZeroDivisionError:
            pass
        x2, y2 = canon(x), canon(y)
        conds = ite_conds(x2) + [g for g in ite_conds(y2)]
        if not conds and d > 0:
            return congruent(x2, y2, pc, d)
        if not conds or d == 0:
            return None
        g = atomic(conds[0])
        by = "nf+cases"
        for val in (True, False):
            lit = g if val else Not(g)
            if lit in pc:
                r = "nf"
            elif core.check(pc + [lit]) == "unsat":
                by = "nf+z3"
                continue
            npc = pc + [lit]
            m = {g: TRUE if val else FALSE}
            x3, y3 = subst(x2, m), subst(y2, m)
            # equalities with constants are used as rewrite rules
            if val and g.op == "==" and not isc(g.args[0]) and isc(g.args[1]):
                x3, y3 = subst(x3, {g.args[0]: g.args[1]}), subst(y3, {g.args[0]: g.args[1]})
            elif val and g.op == "==" and isc(g.args[0]):
                x3, y3 = subst(x3, {g.args[1]: g.args[0]}), subst(y3, {g.args[1]: g.args[0]})
            if go(x3, y3, npc, d - 1) is None:
                return None
        return by
    def congruent(x, y, pc, d):
        """sums over the same range are equal if their terms are equal (by cases)."""
        try:
            lin = linear_sums(canon(add(x, neg(y))))
        except ZeroDivisionError:
            lin = None
        if lin:
            groups = []
            for co, s in lin:
                for g in groups:
                    if tm.equal(g[0].args[1], s.args[1]) and tm.equal(g[0].args[2], s.args[2]):
                        g[1].append((co, s))
                        break
                else:
                    groups.append((s, [(co, s)]))
            ok = True
            for s0, cs in groups:
                k = fresh("k", "I")
                rng = [Le(s0.args[1], k), Lt(k, s0.args[2])]
                tot = add(*[mul(co, subst(s.args[3], {s.args[0]: k})) for co, s in cs])
                if not bound_ite(s0) and len(cs) == 1 or go(tot, ZERO, pc + rng, d - 1) is None:
                    ok = False
                    break
            if ok:
                return "nf+congruence"
        sx = [z for z in walk(x) if isinstance(z, T) and z.op == "sum" and not free_bound(z)]
        sy = [z for z in walk(y) if isinstance(z, T) and z.op == "sum" and not free_bound(z)]
        m = {}
        for p in sx:
            for q in sy:
                if p is q or q in m or not (bound_ite(p) or bound_ite(q)):
                    continue
                if tm.equal(p.args[1], q.args[1]) and tm.equal(p.args[2], q.args[2]):
                    k = fresh("k", "I")
                    rng = [Le(p.args[1], k), Lt(k, p.args[2])]
                    if go(subst(p.args[3], {p.args[0]: k}), subst(q.args[3], {q.args[0]: k}), pc + rng, d - 1):
                        m[q] = p
        if not m:
            return None
        try:
            return "nf+congruence" if tm.equal(x, subst(y, m)) else None
        except ZeroDivisionError:
            return None
    try:
        by = go(a, b, pc, depth)
    except RecursionError:
        by = None
    if by is None:
        try:
            if core.check(pc + [Ne(a, b)], timeout=4000) == "unsat":
                by = "z3"
        except Exception:
            pass
    if by is not None:
        return Obl(name, "proved", by, secs=time.time() - t0)
    det = f"got      {canon(a)}\nexpected {canon(b)}"
    h = refute(a, b, pc)
    return Obl(name, "refuted" if h else "unknown", "numeric" if h else "", det + (f"\nat {h}" if h else ""), h, time.time() - t0)


def prove(name, f, pc=None, detail=""):
    """obligation: formula f under the path condition."""
    t0 = time.time()
    pc = list(W.pc) if pc is None else list(pc)
    if f is TRUE or f in pc:
        return Obl(name, "proved", "syntactic", secs=time.time() - t0)
    if core.entails(pc, f, 5000):
        return Obl(name, "proved", "z3", secs=time.time() - t0)
    r = core.check(pc + [Not(f)], 5000)
    return Obl(name, "refuted" if r == "sat" else "unknown", "z3", f"{detail}\nnot entailed: {f}\nunder {pc}", secs=time.time() - t0)


def holds(name, ok, detail=""):
    """obligation decided by the engine itself (structure of a result)."""
    return Obl(name, "proved" if ok else "refuted", "engine", "" if ok else detail)


# ------------------------------------------------------------------------------ numeric refutation
class NoVal(Exception):
    pass


def token(x):
    return hashlib.md5(repr(x).encode()).hexdigest()


def hreal(s, lo=0.15, hi=1.35):
    h = int(hashlib.md5(s.encode()).hexdigest()[:12], 16) / 16 ** 12
    return lo + (hi - lo) * h


DEADLINE = [float("inf")]


def evaluate(t, env, seed):
    memo = {}

    def ev(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = ev_(x)
        return r

    def ev_(x):
        o, a = x.op, x.args
        if o == "c":
            return float(a[0])
        if o == "v":
            if a[0] == "pi":
                return math.pi
            if a[0] == "euler_gamma":
                return 0.5772156649015329
            if x in env:
                return env[x]
            if a[1] == "U":
                return ("u", a[0])
            if a[1] == "I":
                return env.setdefault(x, float(int(hreal(f"{seed}{a[0]}", 1, 5))))
            return env.setdefault(x, hreal(f"{seed}{a[0]}"))
        if o == "+":
            return sum(ev(y) for y in a)
        if o == "*":
            r = 1.0
            for y in a:
                r *= ev(y)
            return r
        if o == "^":
            return ev(a[0]) ** ev(a[1])
        if o == "ite":
            return ev(a[1]) if evf(a[0]) else ev(a[2])
        if o == "sum":
            k, lo, hi, body = a
            s = 0.0
            if ev(hi) - ev(lo) > 64 or time.time() > DEADLINE[0]:
                raise NoVal("range")
            for i in range(int(ev(lo)), int(ev(hi))):
                e2 = dict(env)
                e2[k] = float(i)
                s += evaluate(body, e2, seed)
            return s
        if o == "fn":
            n = a[0]
            f = {"exp": math.exp, "log": math.log, "cos": math.cos, "sin": math.sin, "abs": abs}.get(n)
            if f:
                return f(ev(a[1]))
            args = []
            for y in a[1:]:
                if isinstance(y, T):
                    z = ev(y)
                    args.append(round(z, 8) if isinstance(z, float) else z)
                elif isinstance(y, F):
                    args.append(evf(y))
                else:
                    args.append(y)
            if n == "mod":
                return float(args[0] % args[1])
            if n == "idiv":
                return float(args[0] // args[1])
            if n == "sqrt":
                return math.sqrt(args[0])
            if n == "root":
                return args[1] ** (1.0 / args[0])
            if n in ("upd", "merge", "env", "restrict", "without", "key", "symname"):
                return (n,) + tuple(args)
            if n.startswith("float:"):
                return float(n[6:])
            return hreal(f"{seed}{n}{args}")
        raise NoVal(o)

    def evf(f):
        o, a = f.op, f.args
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "not":
            return not evf(a[0])
        if o == "and":
            return all(evf(y) for y in a)
        if o == "iff":
            return evf(a[0]) == evf(a[1])
        if o in ("<", "<=", "=="):
            p, q = ev(a[0]), ev(a[1])
            return p < q if o == "<" else p <= q if o == "<=" else p == q
        if f in env:
            return env[f]
        if o in ("pred", "bv"):
            return hreal(f"{seed}{f}", 0, 1) < 0.5
        raise NoVal(o)
    return evf(t) if isinstance(t, F) else ev(t)


def refute(a, b, pc, tries=200):
    """an assignment that satisfies the path condition where the terms differ."""
    lits = {}
    plain = []
    for f in pc:
        g, val = (f.args[0], False) if f.op == "not" else (f, True)
        if g.op in ("all", "ex"):
            return None         # (would have to be evaluated)
        if g.op in ("pred", "bv"):
            lits[g] = val
        else:
            plain.append(f)
    names = {x for y in (a, b, *plain) for x in vars_of(y) if not x.args[0].startswith("#")}
    end = time.time() + 8
    DEADLINE[0] = end
    for s in range(tries):
        if time.time() > end:
            break
        env = dict(lits)
        rnd = random.Random(s)
        for x in sorted(names, key=lambda y: y.args[0]):
            if x.args[1] == "I":
                env[x] = float(rnd.randint(1, 4))
            elif x.args[1] == "R" and x.args[0] not in ("pi", "euler_gamma"):
                env[x] = rnd.choice([rnd.uniform(0.1, 1.4), rnd.uniform(0.1, 1.4), 0.0, 1.0]) if s % 2 else rnd.uniform(0.1, 1.4)
        try:
            if not all(evaluate(f, env, str(s)) for f in plain):
                continue
            x, y = evaluate(a, env, str(s)), evaluate(b, env, str(s))
        except (NoVal, ZeroDivisionError, OverflowError, ValueError, TypeError):
            continue
        if isinstance(x, complex) or isinstance(y, complex):
            continue
        if isinstance(x, float) and isinstance(y, float) and abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
            return {k.args[0]: v_ for k, v_ in env.items() if isinstance(k, T)} | {"values": [x, y]}
    return None
