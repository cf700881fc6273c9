"""Run-time support of the instrumented source: symbolic loops, comprehensions and builtins."""
import builtins
import types

from .terms import *
from . import terms as tm
from . import core
from .core import W, Unsupported, Failed, Infeasible
from .values import *

UNBOUND = object()
BRK, CONT = object(), object()


# ------------------------------------------------------------------------- merging
def shape_union(items):
    _, sh = broadcast([(ZERO, s) for s in items])
    return sh


def merge(cases):
    """[(guard, value)] -> value; the guards are exhaustive and disjoint."""
    if len(cases) == 1:
        return cases[0][1]
    vals = [x for _, x in cases]
    first = vals[0]
    if all(same_value(first, x) for x in vals[1:]):
        return first
    if all(isinstance(x, (bool, SBool)) for x in vals):
        f = FALSE
        for g, x in cases:
            f = Or(f, And(g, formula(x)))
        return SBool(f)
    if all(isinstance(x, (Arr, int, float)) and not isinstance(x, bool) for x in vals):
        arrs = [to_arr(x) for x in vals]
        bodies, sh = broadcast([(a.t, a.sh) for a in arrs])
        t = bodies[-1]
        for (g, _), b in reversed(list(zip(cases[:-1], bodies[:-1]))):
            t = ite(g, b, t)
        kinds = {a.kind for a in arrs}
        return Arr(t, sh, "np" if "np" in kinds else "py" if "py" in kinds else "int")
    if all(isinstance(x, (SExpr, int, float)) and not isinstance(x, bool) for x in vals):
        t = se(vals[-1])
        for g, x in reversed(cases[:-1]):
            t = ite(g, se(x), t)
        return SExpr(t)
    if all(isinstance(x, tuple) for x in vals) and len({len(x) for x in vals}) == 1:
        return tuple(merge([(g, x[i]) for g, x in cases]) for i in range(len(first)))
    if all(isinstance(x, list) for x in vals):
        n = {list.__len__(x) for x in vals}
        if len(n) == 1 and not any(isinstance(y, Splat) for x in vals for y in list.__iter__(x)):
            return VList([merge([(g, list.__getitem__(x, i)) for g, x in cases]) for i in range(n.pop())])
        return CondList([(g, list(list.__iter__(x))) for g, x in cases])
    raise Unsupported(f"merge of {[type(x).__name__ for x in vals]}")


class CondList(Splat):
    """alternative lists."""

    def __init__(self, alts):
        self.alts = alts

    @property
    def seq(self):
        raise Unsupported("conditional list")


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Arr):
        return a.t is b.t and a.sh.desc() == b.sh.desc()
    if isinstance(a, SExpr):
        return a.t is b.t
    if isinstance(a, SStr):
        return a.u is b.u
    if isinstance(a, SBool):
        return a.f is b.f
    if isinstance(a, (int, float, str, bool)):
        return a == b
    if isinstance(a, (tuple, list)):
        x, y = list(a), list(b)
        return len(x) == len(y) and all(same_value(p, q) for p, q in zip(x, y))
    if isinstance(a, SSeq):
        return len(a.segs) == len(b.segs) and all(same_value(p, q) for p, q in zip(a.segs, b.segs))
    if isinstance(a, Splat) and hasattr(a, "seq") and hasattr(b, "seq"):
        return same_value(a.seq, b.seq)
    if isinstance(a, T):
        return a is b
    return False


def guard_of(taken):
    return And(*taken)


def generic(rng, k, thunk):
    """value of thunk() for a generic index; rng: formulas about the index. Exceptions fork the outer path."""
    paths = W.explore(thunk, list(W.pc) + rng)
    good, bad = [], []
    for pc, taken, r in paths:
        if r[0] == "ret":
            good.append((guard_of(taken), r[1]))
        elif r[0] == "fail":
            raise r[1]
        else:
            bad.append((guard_of(taken), r[1], pc))
    for g, e, pc in bad:
        q = g if k is None or k not in vars_of(g) else F("ex", (k, And(*rng, g)))
        if g is TRUE and not good:
            # raised for every element: only if there is one
            nonempty = [f for f in rng]
            if any(f.op == "not" and f.args[0].op == "pred" and f.args[0].args[0] == "covered" and k is not None
                   and any(fn("nsym", f.args[0].args[1]) in list(walk(r)) for r in rng) for f in pc):
                raise e     # (names that are not all covered: there is at least one)
            if W.decide(F("ex", (k, And(*nonempty))) if nonempty else TRUE):
                raise e
            raise Unsupported("empty sequence")
        if W.decide(q):
            raise e
        if q is not g:
            W.assume(F("all", (k, Not(And(*rng, g)))))
    if not good:
        raise Infeasible()
    return good


def rng_of(seg):
    n, k = seg[1], seg[2]
    if k.args[1] != "I":
        return []
    return [Le(ZERO, k), Lt(k, n)]


# ------------------------------------------------------------------------- comprehensions
def flatten(x, pat, out):
    if pat is None:
        out.append(x)
        return
    if isinstance(x, (Splat, Marker)):
        raise Unsupported("unpacking of an unknown number of items")
    xs = list(x)
    if len(xs) != len(pat):
        raise ValueError("wrong number of values to unpack")
    for y, p in zip(xs, pat):
        flatten(y, p, out)


def adapt(f, pat):
    if pat is None or f is None:
        return f

    def g(x):
        out = []
        flatten(x, pat, out)
        return f(*out)
    return g


def comp(kind, it, elt, cond=None, pat=None):
    elt, cond = adapt(elt, pat), adapt(cond, pat)
    if isinstance(it, (types.GeneratorType, map, zip, enumerate, filter, reversed)):
        it = list(it)
    seq = None
    if isinstance(it, SSeq) or is_symbolic_seq(it):
        seq = as_seq(it)
    if seq is None or all(s[0] == "one" for s in seq.segs):
        src = it if seq is None else [s[1] for s in seq.segs]
        if kind == "gen":
            return _native_gen(src, elt, cond)
        if kind == "list":
            return VList([elt(x) for x in src if cond is None or cond(x)])
        if kind == "set":
            return make_set([elt(x) for x in src if cond is None or cond(x)])
        return make_dict([elt(x) for x in src if cond is None or cond(x)])
    out = []
    for s in seq.segs:
        if s[0] == "one":
            if cond is None or cond(s[1]):
                out.append(("one", elt(s[1])))
            continue
        if s[0] not in ("gen", "filt"):
            raise Unsupported("comprehension over a concatenation")
        f0 = s[4] if s[0] == "filt" else TRUE
        rng0 = rng_of(s) + ([f0] if f0 is not TRUE else [])
        if cond is not None:
            good = generic(rng0, s[2], lambda: bool(cond(s[3])))
            f = Or(*[g for g, x in good if x])
            if f is FALSE or core.entails(list(W.pc) + rng0, Not(f)):
                continue
            if core.entails(list(W.pc) + rng0, f):
                f = TRUE
        else:
            f = TRUE
        rng = rng0 + ([f] if f is not TRUE else [])
        val = merge(generic(rng, s[2], lambda: elt(s[3])))
        f = And(f0, f)
        if f is not TRUE:
            out.append(("filt", s[1], s[2], val, f))
        else:
            out.append(("gen", s[1], s[2], val) + tuple(s[4:]))
    r = SSeq(out)
    if kind in ("list", "gen"):
        return VList(list(SplatAll(r))) if kind == "list" else r
    if kind == "set":
        return make_set(list(SplatAll(r)))
    return seq_dict(r)


def SplatAll(seq):
    """segments as list items."""
    return [s[1] if s[0] == "one" else Splat(SSeq([s])) for s in seq.segs]


def _native_gen(src, elt, cond):
    for x in src:
        if cond is None or cond(x):
            yield elt(x)


def make_set(xs):
    if any(isinstance(x, (Splat, SStr, MarkStr, Marker)) for x in xs):
        return NSet(xs)
    return VSet(xs)


class VSet(set):
    """set created by the verified code (tracked)."""

    def __init__(self, xs=()):
        super().__init__(xs)
        W.track(self)

    def _vc_snap(self):
        return frozenset(set.__iter__(self))

    def _vc_restore(self, s):
        set.clear(self)
        set.update(self, s)

    def __sub__(self, o):
        if isinstance(o, (set, frozenset)):
            return set.__sub__(self, o)
        return NSet(list(self), [o]) if isinstance(o, (PDict, NSet)) else NotImplemented

    def difference(self, *os):
        if all(isinstance(o, (set, frozenset, list, tuple, dict)) and not is_symbolic_seq(o) for o in os):
            return VSet(set.difference(self, *os))
        return NSet(list(self), list(os))

    def issubset(self, o):
        if isinstance(o, (PDict, NSet)):
            return SBool(And(*[contains_all(o, x) for x in self]))
        return set.issubset(self, o)

    def issuperset(self, o):
        if isinstance(o, (PDict, NSet)):
            return SBool(And(*[contains_all(self, x) for x in (o.keys() if isinstance(o, PDict) else o)]))
        return set.issuperset(self, o)


def make_dict(pairs):
    if any(isinstance(k, (SStr, MarkStr)) for k, _ in pairs):
        return seq_dict(SSeq([("one", p) for p in pairs]))
    pairs = list(pairs)
    if pairs and all(isinstance(k, str) and is_number(x) for k, x in pairs):
        return seq_dict(SSeq([("one", p) for p in pairs]))
    return VDict(pairs)


def is_number(x):
    return isinstance(x, (int, float, Arr)) and not isinstance(x, (bool, BArr))


class RuleDict:
    """dict with an unknown number of (expression, expression) rules; .items: list of pairs and Splats."""

    def __init__(self, items):
        self.rules = list(items)

    def __repr__(self):
        return f"<rules {self.rules}>"

    def items(self):
        return VList(self.rules)

    def __bool__(self):
        raise Unsupported("truth value of a dict of unknown size")


class VDict(dict):
    """dict created by the verified code (tracked). _vc_groups: None, GroupProbe (while a generic iteration of a loop that groups
    items into lists is executed) or Groups (afterwards)."""
    _vc_groups = None
    factory = None

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        W.track(self)

    def _vc_snap(self):
        g = self._vc_groups
        return list(dict.items(self)) + ([("#groups", g.state())] if g is not None else [])

    def _vc_restore(self, s):
        dict.clear(self)
        self._vc_groups = None
        for k, x in s:
            if isinstance(k, str) and k == "#groups":
                self._vc_groups = x[0].at(x)
            else:
                dict.__setitem__(self, k, x)

    def copy(self):
        if self._vc_groups is not None:
            raise Unsupported("copy of a dict of groups")
        return VDict(self)

    def __contains__(self, k):
        g = self._vc_groups
        return g.has(group_key(k)) if g is not None else dict.__contains__(self, k)

    def __getitem__(self, k):
        g = self._vc_groups
        if g is None:
            if dict.__contains__(self, k) or self.factory is None:
                return dict.__getitem__(self, k)
        else:
            ku = group_key(k)
            if g.has(ku):
                return g.get(ku)
            if self.factory is None:
                raise KeyError(k)
        x = self.factory()
        self[k] = x
        return x

    def get(self, k, d=None):
        g = self._vc_groups
        if g is None:
            return dict.get(self, k, d)
        ku = group_key(k)
        return g.get(ku) if g.has(ku) else d

    def setdefault(self, k, d=None):
        g = self._vc_groups
        if g is None:
            return dict.setdefault(self, k, d)
        ku = group_key(k)
        if not g.has(ku):
            g.set(ku, k, d)
        return g.get(ku)

    def __setitem__(self, k, x):
        g = self._vc_groups
        if g is None:
            return dict.__setitem__(self, k, x)
        g.set(group_key(k), k, x)

    def _no(self, *a, **k):
        raise Unsupported("operation on a dict of groups")

    def _vc_seq(self, what):
        g = self._vc_groups
        if not isinstance(g, Groups):
            raise Unsupported("iteration over a dict inside of the loop that fills it")
        return g.seq(what)

    def items(self):
        return dict.items(self) if self._vc_groups is None else self._vc_seq("items")

    def keys(self):
        return dict.keys(self) if self._vc_groups is None else self._vc_seq("keys")

    def values(self):
        return dict.values(self) if self._vc_groups is None else self._vc_seq("values")

    def __iter__(self):
        return dict.__iter__(self) if self._vc_groups is None else iter(self._vc_seq("keys"))

    def __len__(self):
        if self._vc_groups is not None:
            raise LenUnknown("len() of a dict of unknown size")
        return dict.__len__(self)

    def __bool__(self):
        if self._vc_groups is not None:
            return bool(self._vc_seq("keys"))
        return dict.__len__(self) > 0

    def update(self, *a, **k):
        return self._no() if self._vc_groups is not None else dict.update(self, *a, **k)

    def pop(self, *a):
        return self._no() if self._vc_groups is not None else dict.pop(self, *a)

    def clear(self):
        return self._no() if self._vc_groups is not None else dict.clear(self)

    def __delitem__(self, k):
        return self._no() if self._vc_groups is not None else dict.__delitem__(self, k)

    def __eq__(self, o):
        return self._no() if self._vc_groups is not None else dict.__eq__(self, o)

    __hash__ = None


KSYM = v("s:key", "U")     # (keys are compared as expressions: independent of the values of the parameters)


def group_key(k):
    """the terms that identify a dict key that is a tuple of expressions / numbers / names."""
    if not isinstance(k, tuple):
        k = (k,)
    out = []
    for x in k:
        if isinstance(x, SStr):
            out.append(x.u)
        elif isinstance(x, (SExpr, Arr, int, float)) and not isinstance(x, bool):
            t = canon(se(x))
            out.append(t.args[1] if t.op == "fn" and t.args[0] == "expr" and t.args[2] is DSYM else subst(t, {DSYM: KSYM}))
        elif isinstance(x, tuple):
            out += list(group_key(x))
        else:
            raise Unsupported(f"generic key with {type(x).__name__}")
    return tuple(out)


def same_key(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class Prior(Marker):
    """the items of a group collected before the current iteration."""


class GroupProbe:
    """generic state of a dict while items are collected into lists by key: whether the key is there already is open."""

    def __init__(self, st=None):
        self.key = self.raw = self.val = None
        self.there = False

    def state(self):
        return (self, self.key, self.raw, self.val, self.there)

    def at(self, st):
        _, self.key, self.raw, self.val, self.there = st
        return self

    def has(self, ku):
        if self.key is None:
            there = W.decide(F("pred", ("collected",) + ku))
            self.key = ku
            self.there = there
            if there:
                self.val = VList([Prior()])
        elif not same_key(self.key, ku):
            raise Unsupported("several keys in one iteration")
        return self.val is not None

    def get(self, ku):
        return self.val

    def set(self, ku, raw, x):
        self.has(ku)
        self.raw = raw
        if not isinstance(x, list):
            raise Unsupported("dict of other values than lists in a symbolic loop")
        self.val = x

    def items_added(self):
        """(key, added items), None if untouched"""
        if self.key is None or (self.val is None and not self.there):
            return None
        xs = list(list.__iter__(self.val))
        if self.there:
            if not xs or not isinstance(xs[0], Prior):
                raise Unsupported("collected items are dropped")
            xs = xs[1:]
        if any(isinstance(x, Prior) for x in xs) or not xs:
            raise Unsupported("collection of items")
        return self.key, xs


class Groups:
    """result of collecting the items of a sequence by key."""

    def __init__(self, n, k, filt, key, raw, item):
        self.n, self.k, self.filt, self.key, self.raw, self.item = n, k, filt, key, raw, item
        nk = v("#g", "I")
        m = {k: nk}
        self.sig = fn("keys", nk, n, *[subst(x, m) for x in key], *([subst(filt, m)] if filt is not TRUE else []))
        self.count = fn("ngroups", self.sig)

    def state(self):
        return (self,)

    def at(self, st):
        return self

    def eq(self, ku):
        if len(ku) != len(self.key):
            return FALSE
        return And(*[Eq(x, y) for x, y in zip(self.key, ku)])

    def members(self, ku):
        f = And(self.filt, self.eq(ku))
        return VList([Splat(SSeq([("filt", self.n, self.k, self.item, f)]))])

    def has(self, ku):
        if all(x.op == "fn" and x.args[0] == f"gkey{i}" and x.args[1] is self.sig for i, x in enumerate(ku)):
            return True
        return W.decide(F("ex", (self.k, And(Le(ZERO, self.k), Lt(self.k, self.n), self.filt, self.eq(ku)))))

    def get(self, ku):
        return self.members(ku)

    def set(self, *a):
        raise Unsupported("assignment to a dict of groups")

    def seq(self, what):
        g = fresh("g", "I")
        ku = []
        for i, x in enumerate(self.key):
            ku.append(fn(f"gkey{i}", self.sig, g))
        it = iter(ku)

        def raw(x):
            if isinstance(x, tuple):
                return tuple(raw(y) for y in x)
            u = next(it)
            if isinstance(x, SStr):
                return SStr(u, x.role)
            if isinstance(x, SExpr):
                return SExpr(fn("expr", u, DSYM))
            return Arr(u, SCALAR, x.kind) if isinstance(x, Arr) else x
        key = raw(self.raw)
        val = self.members(tuple(ku)) if what != "keys" else None
        return SSeq([("gen", self.count, g, key if what == "keys" else val if what == "values" else (key, val))])


def seq_dict(seq):
    """dict of (key, value) segments."""
    if any(isinstance((s[1] if s[0] == "one" else s[3])[0], SExpr) for s in seq.segs if s[0] != "cat"):
        return RuleDict(SplatAll(seq))
    order, env = [], None
    vb = frozenset()
    singles = []
    for s in seq.segs:
        if s[0] == "one":
            k, x = s[1]
            if isinstance(k, MarkStr):
                raise Unsupported("dict over keys")
            singles.append((ustr(k), to_arr(x)))
            order.append(("k", ustr(k)))
        elif s[0] == "gen":
            k, x = s[3]
            if not isinstance(k, SStr):
                raise Unsupported("generic dict key")
            x = to_arr(x)
            vb |= x.sh.base
            if k.u.op == "fn" and k.u.args[0] == "symname":
                item = ("names", k.u.args[1])
            elif k.u.op == "fn" and k.u.args[0] == "key" and len(s) > 4:
                item = s[4][2]
            else:
                raise Unsupported("generic dict key")
            order.append(item)
            if x.t.op == "fn" and x.t.args[0] == "get" and x.t.args[2] is k.u:
                e = x.t.args[1]
            elif x.t is env_get_opt(k.u, x.t):
                e = None
            else:
                e = fn("mapped", canon(x.t))
            if env is not None and env is not e:
                raise Unsupported("dict of several sources")
            env = e
        else:
            raise Unsupported("filtered dict")
    r = PDict(env if env is not None else fn("env"), order, vb)
    for ku, x in singles:
        if env_get(r.env, ku) is not x.t:
            r.env = env_upd(r.env, ku, x.t)
        r.val_base = r.val_base | x.sh.base
    if len(singles) == len(order) and len({k for k, _ in singles}) == len(singles):
        r.own = dict(singles)
    return r


def env_get_opt(k, t):
    return None


# ------------------------------------------------------------------------- for loops
def loop(it, body, get, set_, names, targets):
    """runs `body(item)` for all items; returns None, BRK or ('ret', v)."""
    if isinstance(it, (types.GeneratorType, map, zip, enumerate, filter, reversed)) and not isinstance(it, SSeq):
        if isinstance(it, types.GeneratorType):
            return _concrete(it, body)
        it = list(it)
    if not (isinstance(it, SSeq) or is_symbolic_seq(it)):
        return _concrete(it, body)
    for s in as_seq(it).segs:
        if s[0] == "one":
            r = body(s[1])
            if r is not None and r is not CONT:
                return r
        else:
            sym_loop(s, body, get, set_, names, targets)
    return None


def _concrete(it, body):
    for x in it:
        r = body(x)
        if r is not None and r is not CONT:
            return r
    return None


def sym_loop(seg, body, get, set_, names, targets):
    if seg[0] not in ("gen", "filt"):
        raise Unsupported("loop over a concatenation")
    n, k, item = seg[1], seg[2], seg[3]
    filt = seg[4] if seg[0] == "filt" else TRUE
    rng = rng_of(seg) + ([filt] if filt is not TRUE else [])
    pre = dict(zip(names, get()))
    tracked = [o for o in W.tracked]
    pre_state = {id(o): core.snap_of(o) for o in tracked}
    pre_arr = {x: pre[x].t for x in names if isinstance(pre[x], Arr)}

    probes = []

    def once():
        r = body(item)
        if r is not None and r is not CONT:
            raise Unsupported("break or return inside of a symbolic loop")
        post = dict(zip(names, get()))
        lists = []
        groups = [(d, d._vc_groups.items_added(), d._vc_groups.raw) for d in probes]
        for o in tracked:
            if any(o is d for d in probes):
                continue
            st = core.snap_of(o)
            if not same_state(st, pre_state[id(o)]):
                if isinstance(o, VDict) and not first[0] is False:
                    if pre_state[id(o)]:
                        raise Unsupported("a dict that is not empty is filled in a symbolic loop")
                    if not any(o is d for d in found):
                        found.append(o)
                    continue
                if isinstance(o, VList):
                    old = pre_state[id(o)]
                    if len(st) < len(old) or any(a is not b for a, b in zip(st, old)):
                        raise Unsupported("a list is modified other than by appending in a symbolic loop")
                    lists.append((o, VList(st[len(old):])))
                else:
                    raise Unsupported(f"{type(o).__name__} is modified in a symbolic loop")
        undone = [(o, t) for o, t in W.undo[mark[0]:]]
        return Once(post, lists, [(o, o.t) for o, _ in undone], groups)

    mark = [0]
    first, found = [True], []

    def run():
        mark[0] = len(W.undo)
        set_([pre[x] for x in names])
        return once()

    def run_all():
        return generic(rng, k, run)

    # first pass: what changes?
    res = run_all()
    first[0] = False
    probes += found
    changed = [x for x in names if x not in targets and any(not same_obj(o.post[x], pre[x]) for _, o in res)]
    arrmod = []
    for _, o in res:
        for a, _t in o.arrs:
            if any(a is x for x in [pre[y] for y in names]) or True:
                if not any(a is b for b in arrmod):
                    arrmod.append(a)
    numeric = [x for x in changed if isinstance(pre[x], (Arr, int, float, SExpr)) and not isinstance(pre[x], bool)]
    local = [x for x in changed if x not in numeric and not isinstance(pre[x], list)]
    rebind = [x for x in changed if isinstance(pre[x], list)]
    place = {}
    start = dict(pre)
    for x in numeric:
        p = fresh("acc")
        place[x] = p
        if isinstance(pre[x], SExpr) or (isinstance(pre[x], (int, float)) and any(isinstance(o.post[x], SExpr) for _, o in res)):
            start[x] = SExpr(p)
        else:
            a = to_arr(pre[x])
            # the shape of an accumulator: the one after an iteration
            shp = shape_union([a.sh] + [to_arr(o.post[x]).sh for _, o in res if isinstance(o.post[x], (Arr, int, float))])
            start[x] = Arr(p, shp, "np" if shp.base or shp.lead else a.kind)
    for x in rebind:
        start[x] = VList(list(list.__iter__(pre[x])))
    oldpre = pre
    arr_place = []
    if arrmod:
        for a in arrmod:
            p = fresh("cell")
            arr_place.append((a, p, a.t))
    if numeric or arrmod or rebind or probes:
        pre = start

        def run2():
            mark[0] = len(W.undo)
            for a, p, _ in arr_place:
                W.undo.append((a, a.t))
                a.t = p
            for d in probes:
                d._vc_groups = GroupProbe()
            set_([pre[x] for x in names])
            return once()
        # rebind lists must be tracked
        tracked = [o for o in W.tracked]
        pre_state = {id(o): core.snap_of(o) for o in tracked}
        res = generic(rng, k, run2)
    closed = {}
    final = {}
    for x in numeric:
        val = merge([(g, o.post[x]) for g, o in res])
        p = place[x]
        t = se(val) if isinstance(val, SExpr) else to_arr(val).t
        t0 = se(oldpre[x]) if isinstance(oldpre[x], SExpr) else to_arr(oldpre[x]).t
        if p not in vars_of(t):
            final[x] = Poison(f"variable '{x}'")
            closed[p] = None
            continue
        closed[p] = (x, val, t, t0)
    # resolve accumulators (those that do not depend on others first)
    solved = {}
    todo = [p for p in closed if closed[p] is not None]
    for _ in range(len(todo) + 1):
        for p in list(todo):
            x, val, t, t0 = closed[p]
            t = subst(t, {q: solved[q][0] for q in solved})
            others = [q for q in place.values() if q is not p and q in vars_of(t)]
            if others:
                continue
            at_k, at_n = solve_recurrence(p, t, t0, k, n, filt)
            solved[p] = (at_k, at_n)
            todo.remove(p)
            shp = start[x].sh if isinstance(start[x], Arr) else None
            final[x] = SExpr(at_n) if isinstance(start[x], SExpr) else Arr(at_n, shp, start[x].kind)
    if todo or any(closed[p] is None and _uses(res, p) for p in closed):
        raise Unsupported("mutually dependent or overwritten loop variables")
    m = {p: solved[p][0] for p in solved}
    for a, p, t0 in arr_place:
        ts = []
        for g, o in res:
            hit = [t for b, t in o.arrs if b is a]
            ts.append((g, Arr(hit[-1] if hit else p)))
        t = subst(merge(ts).t, m)
        W.undo.append((a, a.t))
        a.t = store_loop(p, t, t0, k, n, filt, a)
    # lists
    grown = []
    for _, o in res:
        for l, _x in o.lists:
            if not any(l is y for y in grown):
                grown.append(l)
    for l in grown:
        cases = []
        for g, o in res:
            hit = [x for y, x in o.lists if y is l]
            cases.append((g, hit[0] if hit else VList([])))
        new = subst_items(merge_lists(cases), m)
        l.append(list_segment(n, k, new, filt))
    for x in rebind:
        cases = []
        for g, o in res:
            y = o.post[x]
            old = list(list.__iter__(start[x]))
            cur = list(list.__iter__(y)) if isinstance(y, list) else None
            if cur is None or cur[:len(old)] != old and any(a is not b for a, b in zip(cur, old)):
                raise Unsupported("list rebound in a symbolic loop")
            cases.append((g, VList(cur[len(old):])))
        new = subst_items(merge_lists(cases), m)
        final[x] = VList(list(list.__iter__(oldpre[x])) + [list_segment(n, k, new, filt)])
    for d in probes:
        hits = [h for _, o in res for y, h, _r in o.groups if y is d]
        raws = [r for _, o in res for y, h, r in o.groups if y is d and r is not None]
        if any(h is None for h in hits) or len(hits) != len(res) or not raws:
            raise Unsupported("a dict is filled conditionally in a symbolic loop")
        key, items = hits[0]
        for k2, i2 in hits[1:]:
            if not same_key(key, k2) or not same_value(subst_items(items, m), subst_items(i2, m)):
                raise Unsupported("different items are collected for a new and for a known key")
        if len(items) != 1 or isinstance(items[0], Splat):
            raise Unsupported("several items are collected in one iteration")
        key = tuple(subst(x, m) for x in key) if m else key
        d._vc_groups = Groups(n, k, filt, key, raws[0], subst_items(items, m)[0])
    for x in local + list(targets):
        final[x] = Poison(f"variable '{x}'")
    set_([final.get(x, oldpre[x]) for x in names])


def _uses(res, p):
    return False


class Once:
    def __init__(self, post, lists, arrs, groups=()):
        self.post, self.lists, self.arrs, self.groups = post, lists, arrs, groups


def _freeze_once(o):
    return Once({k: core.freeze(x) for k, x in o.post.items()}, [(l, core.freeze(x)) for l, x in o.lists], o.arrs)


# the identity of unchanged values matters, so only arrays that were modified are copied
core.FREEZE[Once] = lambda o: o


def same_obj(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (int, float, str)) and a == b)


def same_state(a, b):
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        return a == b
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(x is y or (isinstance(x, tuple) and same_state(x, y)) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(a[k] is b[k] for k in a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))
    return a is b


def merge_lists(cases):
    n = {list.__len__(x) for _, x in cases}
    if len(cases) == 1:
        return list(list.__iter__(cases[0][1]))
    if len(n) == 1 and not any(isinstance(y, Splat) for _, x in cases for y in list.__iter__(x)):
        return [merge([(g, list.__getitem__(x, i)) for g, x in cases]) for i in range(n.pop())]
    return [CondList([(g, list(list.__iter__(x))) for g, x in cases])]


def subst_items(xs, m):
    if not m:
        return xs
    return [subst_val(x, m) for x in xs]


def list_segment(n, k, items, filt):
    if len(items) == 1 and not isinstance(items[0], Splat):
        if filt is not TRUE:
            return Splat(SSeq([("filt", n, k, items[0], filt)]))
        return Splat(SSeq([("gen", n, k, items[0])]))
    return Splat(SSeq([("cat", n, k, items, filt)]))


def solve_recurrence(p, t, t0, k, n, filt):
    """closed form of p_{k+1} = t(p_k, k), p_0 = t0: values at index k and n."""
    d = canon(add(t, neg(p)))
    if p not in vars_of(d):
        if filt is not TRUE:
            d = ite(filt, d, ZERO)
        j = fresh("j", "I")
        at_n = add(t0, summ(k, ZERO, n, d))
        at_k = add(t0, mul(k, d) if k not in vars_of(d) else summ(j, ZERO, k, subst(d, {k: j})))
        if k not in vars_of(d) and filt is TRUE:
            at_n = add(t0, mul(n, d))
        return at_k, at_n
    g = canon(div(t, p))
    if p not in vars_of(g) and k not in vars_of(g) and filt is TRUE:
        return mul(t0, power(g, k)), mul(t0, power(g, n))
    raise Unsupported(f"accumulation {t}")


def store_loop(p, t, t0, k, n, filt, arr):
    """array after a loop that stores at an index that depends on k."""
    d = arr.sh.lead[0]
    if t.op == "ite" and t.args[2] is p and t.args[0].op == "==" and p not in vars_of(t.args[1]):
        a, b = t.args[0].args
        ix = b if a is d.k else a if b is d.k else None
        if ix is not None:
            off = canon(add(ix, neg(k)))
            if k not in vars_of(off) and d.k not in vars_of(off):
                kk = add(d.k, neg(off))
                g = And(Le(ZERO, kk), Lt(kk, n), subst(filt, {k: kk}) if filt is not TRUE else TRUE)
                val = subst(t.args[1], {k: kk})
                full = [Le(ZERO, d.k), Lt(d.k, d.n)]
                if core.entails(list(W.pc) + full, g):
                    return val
                return ite(g, val, t0)
    # accumulation into every element: p + f(k)
    dd = canon(add(t, neg(p)))
    if p not in vars_of(dd):
        if filt is not TRUE:
            dd = ite(filt, dd, ZERO)
        return add(t0, summ(k, ZERO, n, dd))
    raise Unsupported(f"array update {t}")


# ------------------------------------------------------------------------- builtins
def b_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(b_isinstance(x, y) for y in cls)
    if hasattr(cls, "__args__") and type(cls).__name__ == "UnionType":
        return any(b_isinstance(x, y) for y in cls.__args__)
    m = getattr(cls, "_vc_instance", None)
    if m is not None and not isinstance(cls, BuiltinType):
        return m(x)
    if isinstance(cls, BuiltinType):
        cls = cls.real
    if isinstance(x, Arr):
        if cls is float:
            return x.kind == "py" and not x.isbool
        if cls is int:
            return x.kind == "int"
        return cls is object
    if isinstance(x, SStr):
        return cls in (str, object)
    if isinstance(x, SBool):
        return cls in (bool, int, object)
    if isinstance(x, PDict):
        import collections.abc as ca
        return cls in (dict, object, ca.Mapping)
    if isinstance(x, SSeq):
        if cls in (list, tuple):
            return cls is list
        return cls is object
    if isinstance(x, NSet):
        return cls in (set, object)
    if isinstance(x, Poison):
        x._bad()
    if not isinstance(cls, type):
        raise Unsupported(f"isinstance(..., {cls!r})")
    return isinstance(x, cls)


class BuiltinType:
    """builtin type with symbolic conversions."""

    def __init__(self, real, conv):
        self.real, self.conv, self.__name__ = real, conv, real.__name__

    def __call__(self, *a, **k):
        return self.conv(*a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __eq__(self, o):
        return o is self or o is self.real

    def __hash__(self):
        return hash(self.real)

    def __or__(self, o):
        return (self, o)

    def __mro_entries__(self, bases):
        return (self.real,)

    def __instancecheck__(self, x):
        return b_isinstance(x, self)

    def __getitem__(self, i):
        return self.real


def conv_str(x="", *a):
    if isinstance(x, (SStr, MarkStr, Splat)):
        return x
    if isinstance(x, SExpr):
        try:
            return x.name
        except AttributeError:
            return str(x)
    return str(x, *a)


def conv_list(x=()):
    if isinstance(x, SSeq):
        return VList(SplatAll(x))
    if isinstance(x, Arr) and is_symbolic_seq(x):
        return VList(SplatAll(as_seq(x)))
    return VList(iter_rows(x))


def conv_tuple(x=()):
    if isinstance(x, SSeq):
        return tuple(SplatAll(x))
    return tuple(x)


def conv_set(x=()):
    if isinstance(x, NSet) and x.neg:
        return NSet(x.pos, x.neg)
    return make_set(list(x))


def conv_dict(*a, **k):
    if a and isinstance(a[0], PDict):
        r = a[0].copy()
        r.update(k)
        return r
    if a and isinstance(a[0], SSeq):
        return seq_dict(a[0])
    if k and any(isinstance(x, MarkStr) for x in k):
        if a:
            raise Unsupported("dict()")
        return as_dict(k)
    pairs = list(a[0].items() if hasattr(a[0], "items") else a[0]) if a else []
    if any(isinstance(x, Splat) for x in pairs):
        if k:
            raise Unsupported("dict()")
        return RuleDict(pairs)
    return make_dict(pairs + list(k.items()))


def conv_num(real):
    def f(x=0, *a):
        if isinstance(x, Arr):
            if real is int and x.kind == "int":
                return x
            if real is float and x.kind in ("py", "int"):
                return Arr(x.t, SCALAR, "py")
            if real is float and not x.sh.base and not x.sh.lead:
                return Arr(x.t, SCALAR, "py")
            raise Unsupported(f"{real.__name__}()")
        return real(x, *a)
    return f


def conv_bool(x=False):
    if isinstance(x, (SBool, BArr)):
        return x if isinstance(x, SBool) else SBool(x.t)
    return bool(x)


def b_len(x):
    if isinstance(x, SSeq) or (isinstance(x, VList) and x.sym()):
        return Arr(canon(as_seq(x).length()), SCALAR, "int")
    if isinstance(x, tuple) and any(isinstance(y, Splat) for y in x):
        return Arr(canon(as_seq(x).length()), SCALAR, "int")
    if isinstance(x, NSet):
        return x.length()
    if isinstance(x, PDict):
        return Arr(fn("card", x.env), SCALAR, "int")
    if isinstance(x, Arr):
        n = canon(x.length())
        return int(cval(n)) if isc(n) else Arr(n, SCALAR, "int")
    try:
        return len(x)
    except LenUnknown as e:
        raise Unsupported(str(e))


def b_range(*a):
    if not any(isinstance(x, Arr) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if not isinstance(st, int):
        raise Unsupported("range with a symbolic step")
    lo, hi = lift_num(lo), lift_num(hi)
    n = canon(add(hi, neg(lo)))
    k = fresh("n", "I")
    if st == 1:
        if not core.entails(W.pc, Le(ZERO, n)):
            if not W.decide(Le(ZERO, n)):
                return VList([])
        if isc(n):
            return VList([Arr(canon(add(lo, c(i))), SCALAR, "int") for i in range(int(cval(n)))])
        return SSeq([("gen", n, k, Arr(canon(add(lo, k)), SCALAR, "int"))])
    if st == -1:
        n = canon(neg(n))
        if not core.entails(W.pc, Le(ZERO, n)):
            if not W.decide(Le(ZERO, n)):
                return VList([])
        return SSeq([("gen", n, k, Arr(canon(add(lo, neg(k))), SCALAR, "int"))])
    raise Unsupported("range step")


def norm_segs(seqs):
    """aligns sequences segment by segment."""
    out, idx = [], [0] * len(seqs)
    cur = [None] * len(seqs)
    return out


def b_zip(*its, strict=False):
    if not any(is_symbolic_seq(x) for x in its):
        if any(isinstance(x, SSeq) for x in its):
            return zip(*[list(x) if isinstance(x, SSeq) else x for x in its])
        return zip(*its)
    seqs = [as_seq(list(x) if isinstance(x, (types.GeneratorType, map, zip)) else x) for x in its]
    segs = [list(s.segs) for s in seqs]
    out = []
    while all(segs):
        heads = [s[0] for s in segs]
        if all(h[0] == "one" for h in heads):
            out.append(("one", tuple(h[1] for h in heads)))
            for s in segs:
                s.pop(0)
            continue
        if any(h[0] in ("cat", "filt") for h in heads):
            raise Unsupported("zip of a concatenation")
        if any(h[0] == "one" for h in heads):
            # split the first element off the generic segments
            for s in segs:
                h = s[0]
                if h[0] == "gen":
                    if not core.entails(W.pc, Lt(ZERO, h[1])):
                        if not W.decide(Lt(ZERO, h[1])):
                            s.pop(0)
                            break
                    s[0:1] = [("one", subst_val(h[3], {h[2]: ZERO})),
                              ("gen", canon(add(h[1], c(-1))), h[2], subst_val(h[3], {h[2]: add(h[2], ONE)}))]
            continue
        n = heads[0][1]
        if all(same_len(h[1], n) for h in heads):
            k = heads[0][2]
            tag = [tuple(h[4:]) for h in heads if len(h) > 4]
            out.append(("gen", n, k, tuple(h[3] if h[2] is k else subst_val(h[3], {h[2]: k}) for h in heads))
                       + (tag[0] if tag else ()))
            for s in segs:
                s.pop(0)
            continue
        # different lengths: the shortest segment first
        small = heads[0]
        for h in heads[1:]:
            if W.decide(Lt(h[1], small[1])):
                small = h
        n = small[1]
        k = fresh("z", "I")
        vals = []
        for s in segs:
            h = s[0]
            vals.append(subst_val(h[3], {h[2]: k}))
            rest = canon(add(h[1], neg(n)))
            if isc(rest) and cval(rest) == 0 or same_len(h[1], n):
                s.pop(0)
            else:
                s[0] = ("gen", rest, h[2], subst_val(h[3], {h[2]: add(h[2], n)}))
        out.append(("gen", n, k, tuple(vals)))
    return SSeq(out)


def b_enumerate(it, start=0):
    if not is_symbolic_seq(it):
        return enumerate(it, start)
    out, off = [], lift_num(start)
    for s in as_seq(it).segs:
        if s[0] == "one":
            out.append(("one", (num_int(off), s[1])))
            off = canon(add(off, ONE))
        elif s[0] == "gen":
            out.append(("gen", s[1], s[2], (Arr(canon(add(off, s[2])), SCALAR, "int"), s[3])) + tuple(s[4:]))
            off = canon(add(off, s[1]))
        else:
            raise Unsupported("enumerate of a concatenation")
    return SSeq(out)


def num_int(t):
    return int(cval(t)) if isc(t) else Arr(t, SCALAR, "int")


def b_map(f, *its):
    if any(is_symbolic_seq(x) for x in its) and f is not BUILTINS["str"]:
        return comp("gen", b_zip(*its), lambda xs: f(*xs)) if len(its) > 1 else comp("gen", its[0], f)
    if f is BUILTINS["str"] and len(its) == 1 and is_symbolic_seq(its[0]) and isinstance(its[0], (list, tuple, SSeq)):
        out = []
        for x in its[0]:
            if type(x) is Splat:
                out += SplatAll(comp("gen", x.seq, conv_str))
            else:
                out.append(conv_str(x))
        return iter(out)
    if len(its) == 1 and isinstance(its[0], SymNames):
        return [f(x) for x in its[0]]
    return map(f, *its)


def b_sum(it, start=0):
    if isinstance(it, types.GeneratorType) or isinstance(it, (map, zip)):
        it = list(it)
    if isinstance(it, Arr) and not is_symbolic_seq(it):
        it = list(it)
    if not is_symbolic_seq(it):
        r = start
        for x in (it if not isinstance(it, SSeq) else list(it)):
            r = r + x
        return r
    r = start
    for s in as_seq(it).segs:
        r = r + (s[1] if s[0] == "one" else seg_sum(s))
    return r


def seg_sum(s):
    n, k, x = s[1], s[2], s[3]
    f = s[4] if s[0] == "filt" else TRUE
    if s[0] == "cat":
        raise Unsupported("sum of a concatenation")
    if isinstance(x, SExpr):
        t = x.t if f is TRUE else ite(f, x.t, ZERO)
        return SExpr(summ(k, ZERO, n, t))
    a = to_arr(x)
    t = a.t if f is TRUE else ite(f, a.t, ZERO)
    return Arr(summ(k, ZERO, n, t), a.sh, a.kind)


def extremum(name):
    real = getattr(builtins, name)

    def f(*a, **kw):
        if len(a) == 1:
            it = a[0]
            if isinstance(it, (types.GeneratorType, map)):
                it = list(it)
            if is_symbolic_seq(it):
                segs = as_seq(it).segs
                if kw:
                    raise Unsupported(f"{name} with key")
                if len(segs) != 1 or segs[0][0] not in ("gen", "filt"):
                    raise Unsupported(f"{name} of a mixed sequence")
                s = segs[0]
                body = to_arr(s[3]).t
                nk = fresh("m", "I")
                flt = s[4] if s[0] == "filt" else TRUE
                return Arr(bigop(name, s[2], s[1], body, flt), SCALAR, "int")
            a = list(it)
        if any(isinstance(x, Arr) for x in a):
            r = a[0]
            for x in a[1:]:
                p, q = to_arr(r).t, to_arr(x).t
                if name == "max":
                    r = Arr(ite(Le(q, p), p, q), SCALAR, "int")
                else:
                    r = Arr(ite(Le(p, q), p, q), SCALAR, "int")
            return r
        return real(a, **kw) if len(a) != 1 else real(a, **kw)
    return f


def bigop(name, k, n, body, filt=TRUE):
    nk = v("#m", "I")
    return fn("big" + name, nk, n, subst(body, {k: nk}), *([subst(filt, {k: nk})] if filt is not TRUE else []))


def quant(name):
    def f(it):
        if isinstance(it, (types.GeneratorType, map)):
            if isinstance(it, types.GeneratorType):
                return getattr(builtins, name)(it)
            it = list(it)
        if is_symbolic_seq(it):
            fs = []
            for s in as_seq(it).segs:
                if s[0] == "one":
                    fs.append(formula_of(s[1]))
                else:
                    g = formula_of(s[3])
                    rng = And(*rng_of(s))
                    if g is TRUE or g is FALSE:
                        fs.append(g if name == "all" or g is FALSE else F("ex", (s[2], rng)))
                    elif name == "all":
                        fs.append(F("all", (s[2], Implies(rng, g))))
                    else:
                        fs.append(F("ex", (s[2], And(rng, g))))
            return SBool(And(*fs) if name == "all" else Or(*fs))
        return getattr(builtins, name)(it)
    return f


def formula_of(x):
    if isinstance(x, (SBool, BArr)) or isinstance(x, bool):
        return formula(x)
    if isinstance(x, Arr):
        return Ne(x.t, ZERO)
    return TRUE if x else FALSE


def b_abs(x):
    return abs(x)


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Arr) and x.kind == "py":
            return BUILTINS["float"]
        if isinstance(x, Arr) and x.kind == "int":
            return BUILTINS["int"]
        if isinstance(x, SStr):
            return BUILTINS["str"]
        r = type(x)
        for n in ("list", "tuple", "set", "dict", "str", "int", "float", "bool"):
            if r is getattr(builtins, n) or (n == "list" and r is VList) or (n == "dict" and r in (VDict, PDict)):
                return BUILTINS[n]
        return r
    return type(*a)


def b_reversed(x):
    if is_symbolic_seq(x):
        s = as_seq(x).segs
        if len(s) == 1 and s[0][0] == "gen":
            n, k = s[0][1], s[0][2]
            return SSeq([("gen", n, k, subst_val(s[0][3], {k: add(n, c(-1), neg(k))}))])
        raise Unsupported("reversed")
    return reversed(x)


def b_sorted(x, **k):
    if is_symbolic_seq(x) or isinstance(x, (NSet, PDict)):
        raise Unsupported("sorted() of a symbolic collection")
    return VList(sorted(x, **k))


def b_hasattr(o, n):
    try:
        b_getattr(o, n)
        return True
    except AttributeError:
        return False


def b_getattr(o, n, *d):
    if isinstance(n, SStr):
        raise Unsupported("getattr with a symbolic name")
    return getattr(o, n, *d)


def v_is(a, b):
    if isinstance(a, SBool) and isinstance(b, bool):
        return SBool(a.f if b else Not(a.f))
    if isinstance(b, SBool) and isinstance(a, bool):
        return v_is(b, a)
    if isinstance(a, BuiltinType) or isinstance(b, BuiltinType):
        return a == b
    return a is b


def v_pairs(pairs):
    return make_dict(pairs)


def v_isret(r):
    return isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], str) and r[0] == "ret"


def v_in(x, coll):
    if isinstance(x, (SStr, MarkStr, Marker)) and isinstance(coll, (dict, set, frozenset, list, tuple, types.GeneratorType)):
        if isinstance(coll, types.GeneratorType):
            coll = list(coll)
        return W.decide(contains_all(coll, x))
    if isinstance(coll, (set, frozenset, dict)) and isinstance(x, Arr):
        raise TypeError("unhashable type: 'numpy.ndarray'")
    return x in coll


def v_list(xs):
    return VList(xs)


def v_dictd(parts):
    """dict display with unpacked dicts: items (key, value, False) and (None, mapping, True)."""
    unknown = [x for _, x, many in parts if many and (isinstance(x, PDict) or isinstance(x, dict) and any(isinstance(k, MarkStr) for k in x))]
    if len(unknown) > 1:
        r = None
        for k, x, many in parts:
            if not many:
                x = make_dict([(k, x)])
            x = as_dict(x)
            if r is None:
                r = x.copy() if isinstance(x, PDict) else None
                if r is None and x:
                    raise Unsupported("dict display")
            else:
                r.update(x)
        return r
    d = {}
    for k, x, many in parts:
        if many:
            d.update({y: x[y] for y in x.keys()})
        else:
            d[k] = x
    if isinstance(d, dict) and any(isinstance(k, MarkStr) for k in d):
        return as_dict(d)
    return make_dict(list(d.items()))


def v_setd(xs):
    return make_set(list(xs))


def v_kw(d):
    r = as_dict(d)
    return r if isinstance(r, PDict) else make_dict(list(r.items()))


def v_locals(*fs):
    out = []
    for f in fs:
        try:
            out.append(f())
        except NameError:
            out.append(UNBOUND)
    return out


def v_poison(xs):
    return [Poison("an unassigned variable") if x is UNBOUND else x for x in xs]


BUILTINS = dict(vars(builtins))
BUILTINS.update({
    "isinstance": b_isinstance, "len": b_len, "range": b_range, "zip": b_zip, "enumerate": b_enumerate,
    "map": b_map, "sum": b_sum, "max": extremum("max"), "min": extremum("min"), "all": quant("all"), "any": quant("any"),
    "type": b_type, "reversed": b_reversed, "sorted": b_sorted, "hasattr": b_hasattr, "getattr": b_getattr,
    "str": BuiltinType(str, conv_str), "list": BuiltinType(list, conv_list), "tuple": BuiltinType(tuple, conv_tuple),
    "set": BuiltinType(set, conv_set), "frozenset": BuiltinType(frozenset, conv_set), "dict": BuiltinType(dict, conv_dict),
    "int": BuiltinType(int, conv_num(int)), "float": BuiltinType(float, conv_num(float)),
    "bool": BuiltinType(bool, conv_bool), "print": lambda *a, **k: None,
    "_vc_comp": comp, "_vc_loop": loop, "_vc_is": v_is, "_vc_list": v_list, "_vc_dict": v_dictd, "_vc_set": v_setd,
    "_vc_pairs": v_pairs, "_vc_isret": v_isret, "_vc_in": v_in, "_vc_kw": v_kw, "_vc_locals": v_locals, "_vc_BRK": BRK, "_vc_CONT": CONT, "_vc_poison": v_poison,
})
