"""Symbolic sets of integers: an optional arbitrary base set plus a log of
guarded insertions and removals.  Membership is a formula, never a case split."""
from . import core
from .core import SInt, SBool, mk_and, mk_or, mk_eq, mk_not, ite, to_cond


def eqc(a, b):
    """condition a == b"""
    r = (a == b)
    return to_cond(r)


class SSet:
    __slots__ = ("base", "universe", "log")

    def __init__(self, base=None, universe=None, log=()):
        self.base = base            # name of an uninterpreted predicate, or None
        self.universe = universe    # the finite universe of the base
        self.log = tuple(log)       # (added?, element, guard)

    @staticmethod
    def of(items):
        return SSet(None, None, [(True, x, True) for x in items])

    # membership
    def has(self, x):
        r = False
        if self.base is not None:
            if isinstance(x, SBool):
                x = core.as_int(x)
            if isinstance(x, (int, SInt)):
                u = self.universe
                if isinstance(x, int):
                    r = IT_app(self.base, x) if x in u else False
                else:
                    r = mk_and([in_universe(u, x), IT_app(self.base, x)])
        log = self.log
        if isinstance(x, SInt) and len(log) > 8:
            # a stretch of plain numbers added together becomes a few range conditions
            out = []
            run = []
            for ent in log + (None,):
                if ent is not None and ent[0] and ent[2] is True and type(ent[1]) is int:
                    run.append(ent[1])
                    continue
                if len(run) > 4:
                    out.append((True, None, in_universe(tuple(sorted(set(run))), x)))
                else:
                    out.extend([(True, v, True) for v in run])
                run = []
                if ent is not None:
                    out.append(ent)
            log = out
        for add, e, g in log:
            hit = g if e is None else mk_and([g, eqc(e, x)])
            if hit is False:
                continue
            r = mk_or([hit, r]) if add else mk_and([mk_not(hit), r])
        return r

    def __contains__(self, x):
        return bool(self.has(x))

    # candidates: all values that may be members
    def candidates(self):
        out = []
        if self.base is not None:
            out.extend(self.universe)
        for add, e, g in self.log:
            if add:
                out.append(e)
        uniq = []
        keys = set()
        for e in out:
            k = e.key() if isinstance(e, SInt) else e
            try:
                if k in keys:
                    continue
                keys.add(k)
            except TypeError:
                pass
            uniq.append(e)
        return uniq

    def entries(self):
        """(element, condition that it is a member and the first candidate with its value)"""
        c = self.candidates()
        out = []
        for i, e in enumerate(c):
            cond = self.has(e)
            if cond is False:
                continue
            conds = [cond]
            for j in range(i):
                same = eqc(c[j], e)
                if same is not False:
                    conds.append(mk_not(same))
            cond = mk_and(conds)
            if cond is not False:
                out.append((e, cond))
        return out

    def size(self):
        r = 0
        for e, c in self.entries():
            r = r + ite(c, 1, 0)
        return r

    def __len__(self):
        n = self.size()
        return core.EX.concretize(n) if isinstance(n, (SInt, SBool)) else n

    def __bool__(self):
        if self.base is None:
            return bool(mk_or([c for _, c in self.entries()]))
        return bool(mk_or([to_cond(self.has(e)) for e in self.candidates()]))

    def __iter__(self):
        out = []
        for e, c in self.entries():
            if core.EX.branch(c) if isinstance(c, SBool) else c:
                out.append(e)
        return iter(out)

    # algebra
    def _items(self, o):
        """(element, guard) pairs of another set-like operand"""
        if isinstance(o, SSet):
            if o.base is None and not any(not a for a, _, _ in o.log):
                return [(e, g) for _, e, g in o.log]
            return o.entries() if o.base is None else [(e, o.has(e)) for e in o.candidates()]
        return [(e, True) for e in o]

    def copy(self):
        return SSet(self.base, self.universe, self.log)
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def _union(self, o):
        if isinstance(o, SSet) and o.base is not None and self.base is None:
            r = o.copy()
            return SSet(r.base, r.universe, r.log + tuple((True, e, g) for e, g in self._items(self)))
        return SSet(self.base, self.universe, self.log + tuple((True, e, g) for e, g in self._items(o)))

    def _diff(self, o):
        return SSet(self.base, self.universe, self.log + tuple((False, e, g) for e, g in self._items(o)))

    def _inter(self, o):
        # enumerate the operand with the smaller set of candidates
        a, b = self, o
        if not isinstance(b, SSet):
            b = SSet.of(list(b))
        if a.base is None and b.base is not None:
            src, other = a, b
        elif b.base is None and a.base is not None:
            src, other = b, a
        else:
            src, other = a, b
        out = []
        for e in src.candidates():
            g = mk_and([to_cond(src.has(e)), to_cond(other.has(e))])
            if g is not False:
                out.append((True, e, g))
        return SSet(None, None, out)

    def __or__(self, o): return self._union(o) if isinstance(o, SETLIKE) else NotImplemented
    def __ror__(self, o): return SSet.of(list(o))._union(self) if isinstance(o, SETLIKE) else NotImplemented
    def __sub__(self, o): return self._diff(o) if isinstance(o, SETLIKE) else NotImplemented

    def __rsub__(self, o):
        if isinstance(o, SETLIKE) and self.base is None and len(o) > 8 and all(a for a, _, _ in self.log):
            return SSet.of(sorted(o))._diff(self)
        return SSet(None, None, [(True, e, mk_not(to_cond(self.has(e)))) for e in o]) \
            if isinstance(o, SETLIKE) else NotImplemented

    def __and__(self, o): return self._inter(o) if isinstance(o, SETLIKE) else NotImplemented
    __rand__ = __and__

    def __xor__(self, o):
        return (self - o) | ((o if isinstance(o, SSet) else SSet.of(list(o))) - self)
    __rxor__ = __xor__

    def union(self, *os):
        r = self
        for o in os:
            r = r._union(o)
        return r.copy()

    def difference(self, *os):
        r = self
        for o in os:
            r = r._diff(o)
        return r.copy()

    def intersection(self, *os):
        r = self
        for o in os:
            r = r._inter(o)
        return r.copy()

    def symmetric_difference(self, o):
        return self ^ o

    def _set(self, o):
        self.base, self.universe, self.log = o.base, o.universe, o.log

    def update(self, *os): self._set(self.union(*os))
    def difference_update(self, *os): self._set(self.difference(*os))
    def intersection_update(self, *os): self._set(self.intersection(*os))

    def __ior__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        self._set(self._union(o))
        return self

    def __isub__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        self._set(self._diff(o))
        return self

    def __iand__(self, o):
        if not isinstance(o, SETLIKE):
            return NotImplemented
        self._set(self._inter(o))
        return self

    def add(self, x):
        self.log = self.log + ((True, x, True),)

    def discard(self, x):
        self.log = self.log + ((False, x, True),)

    def remove(self, x):
        if not bool(self.has(x)):
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        for e in self:
            self.discard(e)
            return e
        raise KeyError("pop from an empty set")

    def clear(self):
        self.base, self.log = None, ()

    # comparison
    def subset_cond(self, o):
        oh = o.has if isinstance(o, SSet) else SSet.of(list(o)).has
        return mk_and([mk_or([mk_not(to_cond(self.has(e))), to_cond(oh(e))]) for e in self.candidates()])

    def eq_cond(self, o):
        if not isinstance(o, SSet):
            o = SSet.of(list(o))
        return mk_and([self.subset_cond(o), o.subset_cond(self)])

    def __eq__(self, o):
        return self.eq_cond(o) if isinstance(o, SETLIKE) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    def __le__(self, o): return self.subset_cond(o)
    def issubset(self, o): return self.subset_cond(o)
    def issuperset(self, o): return (o if isinstance(o, SSet) else SSet.of(list(o))).subset_cond(self)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return mk_and([self.subset_cond(o), mk_not(self.eq_cond(o))])
    def __gt__(self, o): return mk_and([self.issuperset(o), mk_not(self.eq_cond(o))])
    def isdisjoint(self, o): return mk_not(mk_or([c for _, c in self._inter(o).entries()]))
    __hash__ = None

    def __repr__(self):
        return "SSet(%s,%d ops)" % (self.base, len(self.log))


SETLIKE = (SSet, set, frozenset, type({}.keys()))


def in_universe(u, x):
    """u: sorted tuple of ints"""
    lo, hi = u[0], u[-1]
    if len(u) == hi - lo + 1:
        return mk_and([to_cond(x >= lo), to_cond(x <= hi)])
    # ranges
    alts = []
    s = p = u[0]
    for v in list(u[1:]) + [None]:
        if v is not None and v == p + 1:
            p = v
            continue
        alts.append(mk_and([to_cond(x >= s), to_cond(x <= p)]))
        s = p = v
    return mk_or(alts)


def IT_app(name, x):
    return core.IT.boolean(("app", name, core.ikey(x)), "app", (name, x))
