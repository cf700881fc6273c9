"""Path exploration, path conditions and the logic back end (z3) of the verifier."""
from contextlib import contextmanager
from fractions import Fraction as Q
import z3

from .terms import *
from . import terms as tm


class Stop(BaseException):
    """base of the outcomes that the verified code must not be able to catch."""


class Unsupported(Stop):
    """the verifier does not know the contract of a construct (undecided)."""


class Failed(Stop):
    """an obligation that arises inside of the verified code does not hold."""

    def __init__(self, name, detail=""):
        super().__init__(name, detail)
        self.name, self.detail = name, detail


class Infeasible(Stop):
    """the path condition is contradictory."""


class TooMany(Stop):
    pass


# ------------------------------------------------------------------- z3 translation
class ToZ3:
    U = z3.DeclareSort("U")
    USORT_FN = {"upd", "merge", "env", "key", "restrict", "symname", "without"}

    def __init__(self):
        self.memo = {}
        self.side = []

    def var(self, name, sort):
        if name == "pi":
            p = z3.Real("pi")
            return p
        if sort == "I":
            return z3.Int("i:" + name)
        if sort == "U":
            return z3.Const("u:" + name, self.U)
        return z3.Real("r:" + name)

    @staticmethod
    def num(q):
        return z3.RealVal(str(q)) if q.denominator != 1 else z3.RealVal(int(q))

    def real(self, x):
        if z3.is_expr(x) and x.sort() == z3.IntSort():
            return z3.ToReal(x)
        return x

    def uf(self, name, args, out="R"):
        sorts = [a.sort() for a in args]
        o = {"R": z3.RealSort(), "I": z3.IntSort(), "U": self.U, "B": z3.BoolSort()}[out]
        tag = "|".join(str(s) for s in sorts)
        f = z3.Function(f"{name}/{len(args)}:{tag}:{out}", *sorts, o) if args else None
        return f(*args) if args else z3.Const(f"{name}:{out}", o)

    def term(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._term(t)
            self.memo[t] = r
        return r

    def int_(self, t):
        """translation of an integer valued term as z3 Int if possible."""
        if t.op == "c" and cval(t).denominator == 1:
            return z3.IntVal(int(cval(t)))
        if t.op == "v" and t.args[1] == "I":
            return self.term(t)
        if t.op in ("+", "*"):
            xs = [self.int_(a) for a in t.args]
            if all(x is not None for x in xs):
                r = xs[0]
                for x in xs[1:]:
                    r = r + x if t.op == "+" else r * x
                return r
        if t.op == "fn" and t.args[0] in ("mod", "idiv"):
            a, b = self.int_(t.args[1]), self.int_(t.args[2])
            if a is not None and b is not None:
                return a % b if t.args[0] == "mod" else a / b
        return None

    def _term(self, t):
        o, a = t.op, t.args
        if o == "c":
            return self.num(a[0])
        if o == "v":
            return self.var(*a)
        if o in ("+", "*"):
            i = self.int_(t)
            if i is not None:
                return i
            xs = [self.real(self.term(x)) for x in a]
            r = xs[0]
            for x in xs[1:]:
                r = r + x if o == "+" else r * x
            return r
        if o == "^":
            b, e = a
            if isc(e) and cval(e).denominator == 1:
                n = int(cval(e))
                zb = self.real(self.term(b))
                if 0 < n <= 6:
                    r = zb
                    for _ in range(n - 1):
                        r = r * zb
                    return r
                if -4 <= n < 0:
                    r = zb
                    for _ in range(-n - 1):
                        r = r * zb
                    return z3.RealVal(1) / r
            return self.uf("pow", [self.real(self.term(b)), self.real(self.term(e))])
        if o == "ite":
            return z3.If(self.form(a[0]), self.real(self.term(a[1])), self.real(self.term(a[2])))
        if o == "sum":
            # bound variables are canonical, so equal sums are equal applications
            return z3.Real("sum:" + str(t.key))
        if o == "fn":
            name = a[0]
            if name in ("mod", "idiv"):
                i = self.int_(t)
                if i is not None:
                    return i
            args = []
            for x in a[1:]:
                if isinstance(x, T):
                    z = self.term(x)
                    args.append(self.real(z))
                elif isinstance(x, F):
                    args.append(self.form(x))
                else:
                    name += ":" + str(x)
            r = self.uf("f_" + name, args, "U" if a[0] in self.USORT_FN else "R")
            if name == "exp":
                self.side.append(r > 0)
                self.side.append((r == 1) == (args[0] == 0))
                self.side.append((r < 1) == (args[0] < 0))
            if name == "abs":
                self.side.append(r == z3.If(args[0] < 0, -args[0], args[0]))
            if name in ("cos", "sin"):
                self.side += [r <= 1, r >= -1]
            if name == "size":
                self.side += [r >= 0]
            return r
        raise TypeError(o)

    def form(self, f):
        r = self.memo.get(f)
        if r is None:
            r = self._form(f)
            self.memo[f] = r
        return r

    def _form(self, f):
        o, a = f.op, f.args
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "bv":
            return z3.Bool("b:" + str(a[0]))
        if o == "not":
            return z3.Not(self.form(a[0]))
        if o == "and":
            return z3.And(*[self.form(x) for x in a])
        if o == "iff":
            return self.form(a[0]) == self.form(a[1])
        if o in ("<", "<=", "=="):
            x, y = self.term(a[0]), self.term(a[1])
            if x.sort() != y.sort():
                x, y = self.real(x), self.real(y)
            return x < y if o == "<" else x <= y if o == "<=" else x == y
        if o == "pred":
            name, args = a[0], []
            for x in a[1:]:
                if isinstance(x, T):
                    args.append(self.real(self.term(x)))
                elif isinstance(x, F):
                    args.append(self.form(x))
                else:
                    name += ":" + str(x)
            return self.uf("p_" + name, args, "B")
        if o in ("all", "ex"):
            k, body = a
            zk = self.term(k)
            n = len(self.side)
            b = self.form(body)
            extra = self.side[n:]
            del self.side[n:]
            for x in list(self.memo):
                pass
            if o == "all":
                return z3.ForAll([zk], z3.Implies(z3.And(*extra), b) if extra else b)
            return z3.Exists([zk], z3.And(b, *extra))
        raise TypeError(o)


STATS = {"z3_queries": 0, "z3_time": 0.0, "unknown": 0}


Z3MEMO = {}        # formula -> (z3 formula, side conditions)
PROVED = {}        # formula -> sets of formulas that entail it
REFUTED = {}       # formula -> sets of formulas that do not entail it


def to_z3(f):
    r = Z3MEMO.get(f)
    if r is None:
        tr = ToZ3()
        z = tr.form(f)
        r = Z3MEMO[f] = (z, tuple(tr.side), tm.PI in tr.memo)
    return r


def check(forms, timeout=2000):
    """satisfiability of a list of formulas: 'sat' / 'unsat' / 'unknown'."""
    import time
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    pi = False
    for f in forms:
        z, side, p = to_z3(f)
        s.add(z, *side)
        pi = pi or p
    if pi:
        p = z3.Real("pi")
        s.add(p > z3.RealVal("3.14159"), p < z3.RealVal("3.1416"))
    r = s.check()
    STATS["z3_queries"] += 1
    STATS["z3_time"] += time.time() - t0
    if r == z3.unknown:
        STATS["unknown"] += 1
    return str(r)


def entails(pc, f, timeout=2000):
    if f is TRUE or f in pc:
        return True
    if f is FALSE and not pc:
        return False
    key = frozenset(pc)
    for k in PROVED.get(f, ()):
        if k <= key:
            return True
    if key in REFUTED.get(f, ()):
        return False
    r = check(list(pc) + [Not(f)], timeout)
    if r == "unsat":
        PROVED.setdefault(f, []).append(key)
        return True
    if r == "sat":
        REFUTED.setdefault(f, set()).add(key)
    return False


# ------------------------------------------------------------------------- exploration
class Ctx:
    """one (possibly nested) exploration."""

    def __init__(self, prefix, pc):
        self.prefix, self.pos, self.pending = list(prefix), 0, []
        self.pc = list(pc)
        self.taken = []     # formulas decided in this exploration


def preds(f):
    """the predicates of a propositional formula."""
    if f.op == "pred":
        yield f
    elif f.op in ("and", "not"):
        for x in f.args:
            yield from preds(x)


class World:
    """global state of one verification run."""

    def __init__(self):
        self.stack = []
        self.assumptions = []     # global preconditions (formulas)
        self.undo = []            # (array, old term)
        self.tracked = []         # mutable objects with snapshot()/restore()
        self.loops = []           # active symbolic loops
        self.notes = set()
        self.decisions = 0
        self.max_paths = 4000
        self.auto = None          # preconditions: formula -> True / False / None (open)

    @property
    def pc(self):
        return self.stack[-1].pc if self.stack else self.assumptions

    def assume(self, f):
        if self.stack:
            self.stack[-1].pc.append(f)
            self.stack[-1].taken.append(f)
        else:
            self.assumptions.append(f)

    def decide(self, f):
        """truth value of a formula on the current path (forks if it is open)."""
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if not self.stack:
            raise Unsupported(f"decision outside of an exploration: {f}")
        cx = self.stack[-1]
        if f in cx.pc:
            return True
        if Not(f) in cx.pc:
            return False
        if self.auto is not None:
            neg = f.op == "not"
            a = self.auto(f.args[0] if neg else f)
            if a is not None:
                a = a != neg
                cx.pc.append(f if a else Not(f))
                return a
            if f.op in ("and", "not"):
                for p in preds(f):
                    a = self.auto(p)
                    if a is not None and p not in cx.pc and Not(p) not in cx.pc:
                        cx.pc.append(p if a else Not(p))
        self.decisions += 1
        if cx.pos < len(cx.prefix):
            d = cx.prefix[cx.pos]
            cx.pos += 1
            if d in ("t", "f"):            # forced
                g = f if d == "t" else Not(f)
                cx.pc.append(g)
                return d == "t"
            g = f if d else Not(f)
            cx.pc.append(g)
            cx.taken.append(g)
            return d
        can_t = check(cx.pc + [f]) != "unsat"
        can_f = check(cx.pc + [Not(f)]) != "unsat"
        if not can_t and not can_f:
            raise Infeasible()
        cx.pos += 1
        if can_t and can_f:
            cx.pending.append(cx.prefix + [False])
            cx.prefix.append(True)
            cx.pc.append(f)
            cx.taken.append(f)
            return True
        cx.prefix.append("t" if can_t else "f")
        cx.pc.append(f if can_t else Not(f))
        return can_t

    def choose(self, n, label):
        """non-deterministic choice of an integer in range(n)."""
        for i in range(n - 1):
            if self.decide(bv(f"{label}={i}")):
                return i
        return n - 1

    def explore(self, fn, base_pc=None, limit=None):
        """all paths of fn(): list of (pc, taken, outcome); outcome = ("ret", v) | ("exc", e) | ("fail", e)."""
        out = []
        work = [[]]
        outer = base_pc if base_pc is not None else list(self.pc)
        snap = self.snapshot()
        while work:
            if len(out) > (limit or self.max_paths):
                raise TooMany(f"more than {limit or self.max_paths} paths")
            prefix = work.pop()
            self.restore(snap)
            cx = Ctx(prefix, outer)
            self.stack.append(cx)
            try:
                try:
                    r = ("ret", freeze(fn()))
                except Infeasible:
                    r = None
                except Failed as e:
                    r = ("fail", e)
                except Exception as e:
                    r = ("exc", e)
            finally:
                self.stack.pop()
            work.extend(cx.pending)
            if r is not None:
                out.append((cx.pc, cx.taken, r))
        self.restore(snap)
        return out

    # ---- heap
    def track(self, obj):
        self.tracked.append(obj)
        return obj

    def snapshot(self):
        return (len(self.undo), len(self.tracked), [(o, snap_of(o)) for o in self.tracked])

    def restore(self, s):
        n, nt, items = s
        del self.tracked[nt:]
        while len(self.undo) > n:
            o, t = self.undo.pop()
            o.t = t
        for o, d in items:
            restore_to(o, d)


def snap_of(o):
    f = getattr(type(o), "_vc_snap", None)
    return f(o) if f else dict(o.__dict__)


def restore_to(o, d):
    f = getattr(type(o), "_vc_restore", None)
    if f:
        f(o, d)
    else:
        o.__dict__.clear()
        o.__dict__.update(d)


def freeze(x):
    f = FREEZE.get(type(x))
    if f:
        return f(x)
    if isinstance(x, tuple):
        return tuple(freeze(y) for y in x)
    if isinstance(x, dict):
        return {k: freeze(y) for k, y in x.items()}
    return x


FREEZE = {}

W = World()


def reset():
    global W
    W.__init__()
    return W
