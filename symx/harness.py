"""Harness interface: the same harness text runs symbolically (inputs are solver
variables) and natively (inputs are the concrete values of a model)."""
import importlib

from . import core
from .core import (SInt, SBool, SFloat, Model, PathEnd, mk_and, mk_or, mk_not, to_cond)


class ReplayFail(Exception):
    def __init__(self, label, detail=""):
        Exception.__init__(self, label, detail)
        self.label = label
        self.detail = detail


class Skip(BaseException):
    """an assumption does not hold for these inputs (native mode)"""


class Case:
    """One harness instance: fn(h, *args).  `optional` cases deepen the bound and may be cut by the time budget."""

    def __init__(self, name, fn, *args, **k):
        self.name = name
        self.fn = fn
        self.args = args
        self.optional = k.get("optional", False)
        self.weight = k.get("weight", 1)
        self.reach = k.get("reach", True)


class HBase:
    def mod(self, name):
        return importlib.import_module(name)


class HSym(HBase):
    symbolic = True

    def __init__(self, conc=False):
        self.conc = conc
        self.labels = {}
        self.violations = []
        self.known = {}
        self.observed = []
        self.reached = 0

    # inputs
    def int(self, name, lo, hi):
        v = core.EX.int_var(name, lo, hi)
        return core.EX.concretize(v) if self.conc else v

    def bool(self, name):
        v = core.EX.bool_var(name)
        return core.EX.branch(v) if self.conc else v

    def choice(self, name, options):
        """case split over a list of concrete options"""
        options = list(options)
        i = core.EX.concretize(core.EX.int_var(name, 0, len(options) - 1))
        return options[i]

    def char(self, name, chars=None, lo=None, hi=None):
        from .strs import SStr, mkstr
        if chars is not None:
            codes = sorted(set(ord(c) for c in chars))
            lo, hi = codes[0], codes[-1]
        v = core.EX.int_var(name, lo, hi)
        if chars is not None and len(codes) != hi - lo + 1:
            core.EX.assume(mk_or([v == c for c in codes]))
        if self.conc:
            return chr(core.EX.concretize(v))
        return mkstr([v if isinstance(v, SInt) else chr(v)])

    def text(self, name, n, chars=None, lo=None, hi=None):
        from .strs import join
        return join("", [self.char("%s.%d" % (name, i), chars, lo, hi) for i in range(n)])

    def subset(self, name, universe):
        from .sets import SSet
        core.EX.fun_var(name)
        u = tuple(sorted(universe))
        s = SSet(name, u)
        if self.conc:
            return set(s)
        return s

    # obligations
    def assume(self, cond):
        core.EX.assume(cond)

    def check(self, cond, label, known=None):
        ex = core.EX
        st = ex.stats
        st["checks"] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        c = to_cond(cond)
        if c is True:
            st["checks_const"] += 1
            return
        bad = mk_not(c) if isinstance(c, SBool) else True
        if known is not None:
            kid, region = known
            region = to_cond(region)
            m = ex.model_for(mk_and([bad, region]))
            if m is not None:
                self.known.setdefault(kid, (label, Model(m)))
            bad = mk_and([bad, mk_not(region) if isinstance(region, SBool) else not region])
        m = ex.model_for(bad)
        if m is not None:
            self.violations.append((label, Model(m)))
        if c is False:
            raise PathEnd()
        try:
            ex.assume(c)
        except PathEnd:
            raise

    def known_active(self, kid):
        return kid in KNOWN_IDS

    def obs(self, value):
        self.observed.append(value)

    # logic helpers usable in both modes
    and_ = staticmethod(lambda *a: mk_and([to_cond(x) for x in a]))
    or_ = staticmethod(lambda *a: mk_or([to_cond(x) for x in a]))
    all_ = staticmethod(lambda a: mk_and([to_cond(x) for x in a]))
    any_ = staticmethod(lambda a: mk_or([to_cond(x) for x in a]))
    not_ = staticmethod(lambda a: mk_not(to_cond(a)))
    ite = staticmethod(lambda c, x, y: core.ite(to_cond(c), x, y))

    def sat(self, cond):
        """truth of a solver query over inputs not otherwise constrained (symbolic mode only)"""
        return core.EX.model_for(cond)

    def branch(self, cond):
        c = to_cond(cond)
        return core.EX.branch(c) if isinstance(c, SBool) else c

    def value(self, x):
        from .hooks import deep_conc
        return deep_conc(x)


class HNat(HBase):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.observed = []

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return self.inputs.get(name, lo)

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def choice(self, name, options):
        return list(options)[self.inputs.get(name, 0)]

    def char(self, name, chars=None, lo=None, hi=None):
        if chars is not None:
            lo = min(ord(c) for c in chars)
        return chr(self.inputs.get(name, lo))

    def text(self, name, n, chars=None, lo=None, hi=None):
        return "".join(self.char("%s.%d" % (name, i), chars, lo, hi) for i in range(n))

    def subset(self, name, universe):
        d, default = self.inputs.get("@" + name, ({}, False))
        return set(x for x in universe if d.get(x, default))

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, label, known=None):
        if not cond:
            if known is not None and known[1]:
                raise ReplayFail("known:" + known[0])
            raise ReplayFail(label)

    def known_active(self, kid):
        return kid in KNOWN_IDS

    def obs(self, value):
        self.observed.append(value)

    and_ = staticmethod(lambda *a: all(a))
    or_ = staticmethod(lambda *a: any(a))
    all_ = staticmethod(lambda a: all(a))
    any_ = staticmethod(lambda a: any(a))
    not_ = staticmethod(lambda a: not a)
    ite = staticmethod(lambda c, x, y: x if c else y)

    def branch(self, cond):
        return bool(cond)

    def value(self, x):
        return x


KNOWN_IDS = set()


def ev_deep(x, m, depth=6):
    """value of an observation under a model"""
    from .strs import SStr, Dec
    from .sets import SSet
    if isinstance(x, (SInt, SBool)):
        return x.ev(m)
    if isinstance(x, SFloat):
        n = x.num.ev(m) if isinstance(x.num, SInt) else x.num
        return n / x.den
    if isinstance(x, SStr):
        out = []
        for it in x.raw:
            if isinstance(it, str):
                out.append(it)
            elif isinstance(it, Dec):
                out.append(str(it.x.ev(m) if isinstance(it.x, SInt) else it.x))
            else:
                out.append(chr(it.ev(m)))
        return "".join(out)
    if isinstance(x, SSet):
        r = set()
        if x.base is not None:
            r.update(e for e in x.universe if m.fun(x.base, e))
        for add, e, g in x.log:
            if g is True or (isinstance(g, SBool) and g.ev(m)):
                v = ev_deep(e, m)
                (r.add if add else r.discard)(v)
        return r
    if depth:
        if isinstance(x, tuple) and type(x) is tuple:
            return tuple([ev_deep(y, m, depth - 1) for y in x])
        if type(x) is list:
            return [ev_deep(y, m, depth - 1) for y in x]
        if type(x) is dict:
            return {ev_deep(k, m, depth - 1): ev_deep(v, m, depth - 1) for k, v in x.items()}
        if type(x) in (set, frozenset):
            return set(ev_deep(y, m, depth - 1) for y in x)
    return x


def norm_obs(x):
    """comparable textual form"""
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(int(x))
    if isinstance(x, float):
        return "f%r" % x
    if isinstance(x, str):
        return "s" + repr(str(x))
    if x is None:
        return "None"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(norm_obs(y) for y in x) + "]"
    if isinstance(x, dict):
        return "{" + ",".join(sorted(norm_obs(k) + ":" + norm_obs(v) for k, v in x.items())) + "}"
    if isinstance(x, (set, frozenset)):
        return "<" + ",".join(sorted(norm_obs(y) for y in x)) + ">"
    return type(x).__name__
