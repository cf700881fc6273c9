"""C13: geometry rules, by induction over the states of the geometry.

Abstract state: mode, set of fixed angles, values of the angles that have one. From the canonical object of every
abstract state, every operation (set_monostatic, set_bistatic, set_geometry with every set of arguments, None or unknown
names among them) is executed with arbitrary values: the observable angles must be those of the abstract successor, and
the object must be the canonical one of the successor (same attributes), so that the statement holds for every sequence."""
from .cfg import *
from pyvc.core import Stop

SUBS = [s for n in range(5) for s in combinations(ANG, n)]


class St:
    """abstract state."""

    def __init__(self, mode, fixed, val):
        self.mode, self.fixed, self.val = mode, frozenset(fixed), dict(val)

    def __repr__(self):
        return f"{self.mode}, fixed {sorted(self.fixed)}, values {self.val}"

    def observed(self):
        d = self.val
        if self.mode == "bi":
            return dict(d)
        out = {n: d[n] for n in ("t_0", "p_0") if n in d}
        if "t_0" in d:
            out["t_ex"] = d["t_0"]
        if "p_0" in d:
            out["p_ex"] = add(d["p_0"], PI)
        return out


def angv(n, name, fixed):
    return Arr(v(name), SCALAR if fixed else Shape((), frozenset({name})), "py" if fixed else "np")


def canonical(P, s):
    """a new object with the abstract state s (values: variables named like the angles)."""
    R = P.RT1(V=AbsScatter("V"), SRF=AbsScatter("SRF"), I0=I0())
    R.set_bistatic()
    kw = {n: angv(n, t.args[0], n in s.fixed) for n, t in s.val.items() if n not in s.fixed}
    if kw:
        R.set_geometry(**kw)
    (R.set_monostatic if s.mode == "mono" else R.set_bistatic)(**{n: angv(n, s.val[n].args[0], True) for n in s.fixed})
    return R


def look(R):
    """values of the observable angles (None: an error)."""
    out = {}
    for n in ANG:
        try:
            out[n] = to_arr(getattr(R, n)).t
        except Stop:
            raise
        except Exception:
            out[n] = None
    return out


def rep(R):
    """the attributes of the object, comparable."""
    def conv(x):
        if isinstance(x, Arr):
            return ("arr", canon(x.t))
        if isinstance(x, SExpr):
            return ("expr", canon(x.t))
        if isinstance(x, (list, tuple)):
            return (type(x).__name__ in ("tuple",), tuple(conv(y) for y in x))
        if isinstance(x, (set, frozenset)):
            return ("set", frozenset(conv(y) for y in x))
        if isinstance(x, dict):
            return ("dict", tuple(sorted((str(k), conv(y)) for k, y in x.items())))
        if x is None or isinstance(x, (bool, int, float, str)):
            return x
        if isinstance(x, SStr):
            return ("str", x.u)
        if isinstance(x, PDict):
            return ("pdict", canon(x.env))
        if isinstance(x, AbsScatter):
            return ("scatter", x.kind)
        return ("object", type(x).__name__)
    return {k: conv(x) for k, x in vars(R).items()}


def apply(R, op):
    """executes the operation; True if it was rejected."""
    name, kw = op
    try:
        getattr(R, name)(**kw)
    except Stop:
        raise
    except Exception:
        return True
    return False


def ops(k):
    """all operations; values: variables with suffix k."""
    for a in (None, "p_0"):
        yield "set_monostatic", ((a,) if a else ()), {}
    for s in SUBS:
        yield "set_bistatic", s, {}
    for s in SUBS:
        yield "set_geometry", s, {}
        for bad in s:
            yield "set_geometry", s, {bad: None}
    for s in SUBS[:6]:
        yield "set_geometry", s, {"unknown": "np"}


def successor(s, name, args, extra, new):
    """(abstract successor, must be rejected, angles that may have changed in a rejected call)"""
    if name == "set_monostatic":
        return St("mono", args, {**s.val, **{n: new[n] for n in args}}), False
    if name == "set_bistatic":
        return St("bi", args, {**s.val, **{n: new[n] for n in args}}), False
    if "unknown" in extra or None in extra.values() or (s.mode == "mono" and set(args) & {"t_ex", "p_ex"}):
        return s, True
    return St(s.mode, s.fixed, {**s.val, **{n: new[n] for n in args if n not in s.fixed}}), bool(set(args) & s.fixed) or None


def step(P, R, s, op, k, out, label):
    """one operation on R in state s; adds the obligations; returns the abstract successor."""
    name, args, extra = op
    new = {n: v(f"{n}{k}") for n in args}
    kw = {n: angv(n, f"{n}{k}", name != "set_geometry") for n in args}
    for n, x in extra.items():
        kw[n] = None if x is None else Arr(v("x"), SCALAR, "np")
    rejected = apply(R, (name, kw))
    nxt, must = successor(s, name, args, extra, new)
    if name != "set_geometry" and rejected:
        out.append(holds(f"{label} is accepted", False))
        return None
    if must and set(args) & s.fixed and not extra and not (s.mode == "mono" and set(args) & {"t_ex", "p_ex"}):
        # a fixed angle: rejected (or without an effect)
        must = False
    elif must:
        out.append(holds(f"{label} is rejected", rejected, f"state {s}"))
    elif rejected:
        out.append(holds(f"{label} is accepted", False, f"state {s}"))
        return None
    got = look(R)
    if rejected:
        # the arguments in front of the rejected one may have been set
        hidden = s.val
        val = dict(hidden)
        for n in args:
            if n in s.fixed or extra.get(n, 1) is None:
                continue
            if s.mode == "bi" or n in ("t_0", "p_0"):
                if got[n] is new[n]:
                    val[n] = new[n]
        nxt = St(s.mode, s.fixed, val)
    want = nxt.observed()
    for n, t in want.items():
        out.append(prove_eq(f"{label}: {n}", got[n], t) if got[n] is not None else holds(f"{label}: {n} is available", False, f"state {s}"))
    return nxt


def label_of(op):
    name, args, extra = op
    a = [f"{n}=None" if extra.get(n, 1) is None else n for n in args] + [n for n in extra if n not in args]
    return f"{name}({', '.join(a)})"


def unit(mode, fixed):
    def setup():
        return loaded()

    def body(P):
        out, bounded = [], []
        free = [n for n in ANG if n not in fixed]
        for k in range(len(free) + 1):
            for d in combinations(free, k):
                s = St(mode, fixed, {n: v(n) for n in ANG if n in fixed or n in d})
                out.append(holds("canonical object", True))
                for op in ops(1):
                    R = canonical(P, s)
                    lab = label_of(op)
                    nxt = step(P, R, s, op, "1", out, lab)
                    if nxt is None:
                        continue
                    C = canonical(P, nxt)
                    if rep(R) == rep(C):
                        out.append(holds(f"{lab}: the state is determined by the observable history", True))
                        continue
                    # another representation than the canonical one: further steps from the state reached
                    # (bounded: not inductive any more)
                    bounded.append(f"after {lab} in {s}: {diff(rep(R), rep(C))}")
                    if len(bounded) <= 40:
                        further(P, s, op, nxt, out, lab)
        if bounded:
            U.bounded = f"{len(bounded)} states are not the canonical ones: two further operations explored; " + bounded[0]
        return out
    U = Unit(f"C13 all operations in [{geo_name((mode, fixed))}]", setup, body, min_obls=100,
                contracts=["RT1.set_monostatic", "RT1.set_bistatic", "RT1.set_geometry", "RT1.t_0", "RT1.p_0", "RT1.t_ex", "RT1.p_ex"])
    return U


LAST = [("set_geometry", ANG, {}), ("set_geometry", ("t_0", "p_0"), {}), ("set_geometry", ("t_0",), {}), ("set_geometry", ("p_ex",), {}),
        ("set_bistatic", (), {}), ("set_monostatic", (), {})]


def further(P, s, op, nxt, out, lab):
    for op2 in ops(2):
        R = canonical(P, s)
        o = []
        n1 = step(P, R, s, op, "1", o, lab)
        n2 = step(P, R, n1, op2, "2", o, f"{lab}, {label_of(op2)}")
        bad = [x for x in o if x.status != "proved"]
        for op3 in LAST:
            if bad or n2 is None:
                break
            R, o = canonical(P, s), []
            step(P, R, s, op, "1", o, lab)
            step(P, R, n1, op2, "2", o, lab)
            step(P, R, n2, op3, "3", o, f"{lab}, {label_of(op2)}, {label_of(op3)}")
            bad = [x for x in o if x.status != "proved"]
        out += bad
        out.append(holds(f"{lab}, {label_of(op2)}, further operations (bounded)", not bad))


def diff(a, b):
    return {k: (str(a.get(k))[:80], str(b.get(k))[:80]) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def units(tier):
    return [unit("mono", ()), unit("mono", ("p_0",))] + [unit("bi", s) for s in SUBS]
