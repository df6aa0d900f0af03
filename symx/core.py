"""Symbolic values and the path-exhaustive executor.

Every path of a harness is executed for real (by the interpreter the project
runs under) on proxy values.  A proxy used as a condition asks the executor,
which decides with z3 which sides are feasible under the path condition and
schedules the other side.  `check` discharges one assertion for *all* inputs of
the current path with one solver query.
"""
import time
from math import gcd

from . import zz

# ------------------------------------------------------------------ signals
class Signal(BaseException):
    """Engine control flow; never caught by `except Exception` of the code under test."""


class PathEnd(Signal):
    """The current path is infeasible or needs no further exploration."""


class Unsupported(Signal):
    """The path reached something the symbolic models do not cover."""


class Inconclusive(Signal):
    """The solver gave no verdict."""


class EngineError(Signal):
    pass


# -------------------------------------------------------------- expressions
class SBool:
    __slots__ = ("kind", "a", "key", "_z")

    def __init__(self, kind, a, key):
        self.kind = kind
        self.a = a
        self.key = key
        self._z = None

    # python protocol
    def __bool__(self):
        return EX.branch(self)

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_and([self, o])
        return as_int(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_or([self, o])
        return as_int(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_not(mk_iff(self, o))
        return as_int(self) ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mk_iff(self, o)
        if isinstance(o, (int, SInt)):
            return as_int(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    def __lt__(self, o): return as_int(self) < o
    def __le__(self, o): return as_int(self) <= o
    def __gt__(self, o): return as_int(self) > o
    def __ge__(self, o): return as_int(self) >= o
    def __add__(self, o): return as_int(self) + o
    __radd__ = __add__
    def __sub__(self, o): return as_int(self) - o
    def __rsub__(self, o): return o - as_int(self)
    def __mul__(self, o): return as_int(self) * o
    __rmul__ = __mul__
    def __neg__(self): return -as_int(self)
    def __pos__(self): return as_int(self)
    def __invert__(self): return ~as_int(self)
    def __lshift__(self, o): return as_int(self) << o
    def __rshift__(self, o): return as_int(self) >> o
    def __mod__(self, o): return as_int(self) % o
    def __floordiv__(self, o): return as_int(self) // o
    def __truediv__(self, o): return as_int(self) / o
    def __rtruediv__(self, o): return o / as_int(self)
    def __abs__(self): return as_int(self)

    def __hash__(self):
        return hash(EX.branch(self))

    def __index__(self):
        return int(EX.branch(self))
    __int__ = __index__

    def __float__(self):
        return float(EX.branch(self))

    def __str__(self):
        return str(EX.branch(self))

    def __repr__(self):
        return "SBool(%s)" % (self.key,)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    # engine
    def ev(self, m):
        k = self.kind
        if k == "le":
            return self.a.ev(m) <= 0
        if k == "eq":
            return self.a.ev(m) == 0
        if k == "not":
            return not self.a.ev(m)
        if k == "and":
            for x in self.a:
                if not x.ev(m):
                    return False
            return True
        if k == "or":
            for x in self.a:
                if x.ev(m):
                    return True
            return False
        if k == "var":
            return m.get(self.a, False)
        if k == "app":
            name, arg = self.a
            return m.fun(name, arg.ev(m) if isinstance(arg, SInt) else arg)
        raise EngineError(k)

    def z(self):
        r = self._z
        if r is None:
            k = self.kind
            c = EX.zc
            if k == "le":
                r = c.le(self.a.z(), c.int(0))
            elif k == "eq":
                r = c.eq(self.a.z(), c.int(0))
            elif k == "not":
                r = c.not_(self.a.z())
            elif k == "and":
                r = c.and_([x.z() for x in self.a])
            elif k == "or":
                r = c.or_([x.z() for x in self.a])
            elif k == "var":
                r = c.bool_const(self.a)
            elif k == "bnd":
                v = self.a.z()
                r = c.and_([c.le(c.int(self.a.lo), v), c.le(v, c.int(self.a.hi))])
            elif k == "app":
                name, arg = self.a
                r = c.app(name, zint(arg))
            self._z = r
        return r


class Atom:
    __slots__ = ("id", "kind", "a", "lo", "hi", "_z")

    def __init__(self, id, kind, a, lo, hi):
        self.id = id
        self.kind = kind
        self.a = a
        self.lo = lo
        self.hi = hi
        self._z = None

    def ev(self, m):
        k = self.kind
        if k == "var":
            v = m.get(self.a)
            return self.lo if v is None else v
        if k == "ite":
            c, x, y = self.a
            r = x if c.ev(m) else y
            return r.ev(m) if isinstance(r, SInt) else r
        if k == "div":
            e, n = self.a
            return e.ev(m) // n
        raise EngineError(k)

    def z(self):
        r = self._z
        if r is None:
            k = self.kind
            if k == "var":
                r = EX.zc.int_const("%s:%d:%d" % (self.a, self.lo, self.hi))
            elif k == "ite":
                c, x, y = self.a
                r = EX.zc.ite(c.z(), zint(x), zint(y))
            elif k == "div":
                e, n = self.a
                r = EX.zc.div(e.z(), EX.zc.int(n))
            self._z = r
        return r


def zint(x):
    return x.z() if isinstance(x, SInt) else EX.zc.int(x)


class SInt:
    """const + sum coef*atom, with finite bounds."""
    __slots__ = ("t", "c", "lo", "hi", "_z")

    def __init__(self, t, c, lo, hi):
        self.t = t      # tuple of (atom, coef) sorted by atom id
        self.c = c
        self.lo = lo
        self.hi = hi
        self._z = None

    def key(self):
        return (tuple([(a.id, k) for a, k in self.t]), self.c)

    def ev(self, m):
        r = self.c
        for a, k in self.t:
            r += k * a.ev(m)
        return r

    def z(self):
        r = self._z
        if r is None:
            zc = EX.zc
            parts = []
            for a, k in self.t:
                parts.append(a.z() if k == 1 else zc.mul(zc.int(k), a.z()))
            if self.c or not parts:
                parts.append(zc.int(self.c))
            r = parts[0] if len(parts) == 1 else zc.add(parts)
            self._z = r
        return r

    # arithmetic
    def __add__(self, o):
        if isinstance(o, SBool):
            o = as_int(o)
        if isinstance(o, int):
            if o == 0:
                return self
            return SInt(self.t, self.c + o, self.lo + o, self.hi + o)
        if isinstance(o, SInt):
            return lin_add(self, o, 1)
        if isinstance(o, float) and o == int(o):
            return SFloat(self + int(o), 1)
        if isinstance(o, float):
            return EX.concretize(self) + o
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SBool):
            o = as_int(o)
        if isinstance(o, int):
            return self + (-o)
        if isinstance(o, SInt):
            return lin_add(self, o, -1)
        if isinstance(o, float):
            return EX.concretize(self) - o
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, int):
            return (-self) + o
        if isinstance(o, float):
            return o - EX.concretize(self)
        return NotImplemented

    def __neg__(self):
        return SInt(tuple([(a, -k) for a, k in self.t]), -self.c, -self.hi, -self.lo)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            if o == 0:
                return 0
            if o == 1:
                return self
            lo, hi = self.lo * o, self.hi * o
            if o < 0:
                lo, hi = hi, lo
            return SInt(tuple([(a, k * o) for a, k in self.t]), self.c * o, lo, hi)
        if isinstance(o, SBool):
            return ite(o, self, 0)
        if isinstance(o, SInt):
            # product: split on the smaller operand
            if o.hi - o.lo <= self.hi - self.lo:
                return self * EX.concretize(o)
            return o * EX.concretize(self)
        if isinstance(o, float):
            return EX.concretize(self) * o
        if isinstance(o, (str, list, tuple)):
            return o * EX.concretize(self)
        return NotImplemented

    def __rmul__(self, o):
        return self.__mul__(o)

    def __floordiv__(self, o):
        if isinstance(o, (SInt, SBool)):
            o = EX.concretize(o)
        if isinstance(o, int):
            return floordiv(self, o)
        if isinstance(o, float):
            return EX.concretize(self) // o
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, (SInt, SBool)):
            o = EX.concretize(o)
        if isinstance(o, int):
            return intmod(self, o)
        return NotImplemented

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // EX.concretize(self)

    def __rmod__(self, o):
        return o % EX.concretize(self)

    def __rdivmod__(self, o):
        return divmod(o, EX.concretize(self))

    def __truediv__(self, o):
        if isinstance(o, (SInt, SBool)):
            o = EX.concretize(o)
        if isinstance(o, int) and o != 0:
            return SFloat(self if o > 0 else -self, abs(o))
        return EX.concretize(self) / o

    def __rtruediv__(self, o):
        return o / EX.concretize(self)

    def __pow__(self, o, mod=None):
        if isinstance(o, (SInt, SBool)):
            o = EX.concretize(o)
        if isinstance(o, int) and 0 <= o <= 3 and mod is None:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return pow(EX.concretize(self), o, mod)

    def __rpow__(self, o):
        return o ** EX.concretize(self)

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        return ite(self >= 0, self, -self)

    def __lshift__(self, o):
        if isinstance(o, (SInt, SBool)):
            o = EX.concretize(o)
        return self * (1 << o)

    def __rshift__(self, o):
        if isinstance(o, (SInt, SBool)):
            o = EX.concretize(o)
        return floordiv(self, 1 << o)

    def __rlshift__(self, o):
        return o << EX.concretize(self)

    def __rrshift__(self, o):
        return o >> EX.concretize(self)

    def __and__(self, o):
        if isinstance(o, SBool):
            o = as_int(o)
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            if o < 0:
                if self.lo < 0:
                    return EX.concretize(self) & o
                o &= (1 << self.hi.bit_length()) - 1
            # contiguous groups of mask bits (two's complement floor semantics)
            r = 0
            i = 0
            while (o >> i) != 0:
                if (o >> i) & 1:
                    j = i
                    while (o >> j) & 1:
                        j += 1
                    r = r + ((self >> i) % (1 << (j - i))) * (1 << i)
                    i = j
                else:
                    i += 1
            return r
        if isinstance(o, SInt):
            if self.lo < 0 or o.lo < 0:
                return EX.concretize(self) & o
            n = min(self.hi.bit_length(), o.hi.bit_length())
            r = 0
            for i in range(n):
                r = r + ite(mk_and([bit(self, i), bit(o, i)]), 1 << i, 0)
            return r
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SBool):
            o = as_int(o)
        if isinstance(o, (int, SInt)):
            return self + o - (self & o)
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SBool):
            o = as_int(o)
        if isinstance(o, (int, SInt)):
            return self + o - (self & o) * 2
        return NotImplemented
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def bit_length(self):
        return EX.concretize(self).bit_length()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed or byteorder != "big" or not isinstance(length, int):
            return EX.concretize(self).to_bytes(length, byteorder, signed=signed)
        if not mk_and([to_cond(self >= 0), to_cond(self < (1 << (8 * length)))]):
            raise OverflowError("int too big to convert")
        from .hooks import SBytes
        return SBytes(self, length)

    # comparison
    def __eq__(self, o):
        if isinstance(o, SBool):
            o = as_int(o)
        if isinstance(o, (int, SInt)):
            return mk_eq(self - o)
        if isinstance(o, float):
            if o != o or o in (float("inf"), float("-inf")) or o != int(o):
                return False
            return mk_eq(self - int(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    def __le__(self, o):
        if isinstance(o, SBool):
            o = as_int(o)
        if isinstance(o, (int, SInt)):
            return mk_le(self - o)
        if isinstance(o, float):
            if o == float("inf"):
                return True
            if o == float("-inf") or o != o:
                return False
            import math
            return mk_le(self - math.floor(o))
        return NotImplemented

    def __lt__(self, o):
        if isinstance(o, SBool):
            o = as_int(o)
        if isinstance(o, (int, SInt)):
            return mk_le(self - o + 1)
        if isinstance(o, float):
            if o == float("inf"):
                return True
            if o == float("-inf") or o != o:
                return False
            import math
            return mk_le(self - math.ceil(o) + 1)
        return NotImplemented

    def __ge__(self, o):
        if isinstance(o, float) and o != o:
            return False
        r = self.__lt__(o)
        return r if r is NotImplemented else mk_not(r)

    def __gt__(self, o):
        if isinstance(o, float) and o != o:
            return False
        r = self.__le__(o)
        return r if r is NotImplemented else mk_not(r)

    def __bool__(self):
        return EX.branch(mk_not(mk_eq(self)))

    def __hash__(self):
        return hash(EX.concretize(self))

    def __index__(self):
        return EX.concretize(self)
    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(EX.concretize(self))

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self
    __ceil__ = __floor__

    def __str__(self):
        return str(EX.concretize(self))

    def __format__(self, spec):
        return format(EX.concretize(self), spec)

    def __repr__(self):
        return str(EX.concretize(self))

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(int, name):
            raise AttributeError(name)
        return getattr(EX.concretize(self), name)


class SFloat:
    """An exact rational num/den standing for a float (den a positive constant)."""
    __slots__ = ("num", "den")

    def __init__(self, num, den):
        self.num = num
        self.den = den

    def _pair(self, o):
        if isinstance(o, SFloat):
            return o.num, o.den
        if isinstance(o, (int, SInt)):
            return o, 1
        if isinstance(o, SBool):
            return as_int(o), 1
        if isinstance(o, float) and o == o and abs(o) != float("inf"):
            n, d = o.as_integer_ratio()
            return n, d
        return None

    def conc(self):
        n = EX.concretize(self.num) if isinstance(self.num, SInt) else self.num
        return n / self.den

    def is_int(self):
        return self.num % self.den == 0

    def trunc(self):
        n, d = self.num, self.den
        if not isinstance(n, SInt):
            return int(n / d)
        if d == 1:
            return n
        if n.lo >= 0:
            return n // d
        if n >= 0:
            return n // d
        return -((-n) // d)

    def __bool__(self): return bool(self.num != 0)
    def __int__(self):
        r = self.trunc()
        return EX.concretize(r) if isinstance(r, SInt) else r
    __index__ = None
    def __trunc__(self): return self.trunc()
    def __float__(self): return self.conc()
    def __hash__(self): return hash(self.conc())
    def __str__(self): return str(self.conc())
    def __repr__(self): return repr(self.conc())
    def __format__(self, s): return format(self.conc(), s)

    def _cmp(self, o, f):
        p = self._pair(o)
        if p is None:
            if isinstance(o, float):
                return f(0, 1) if o == float("inf") else (f(1, 0) if o == float("-inf") else False)
            return NotImplemented
        n, d = p
        return f(self.num * d, n * self.den)

    def __eq__(self, o):
        if isinstance(o, float) and (o != o or abs(o) == float("inf")):
            return False
        return self._cmp(o, lambda x, y: x == y)
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)
    def __lt__(self, o): return self._cmp(o, lambda x, y: x < y)
    def __le__(self, o): return self._cmp(o, lambda x, y: x <= y)
    def __gt__(self, o): return self._cmp(o, lambda x, y: x > y)
    def __ge__(self, o): return self._cmp(o, lambda x, y: x >= y)
    def __neg__(self): return SFloat(-self.num, self.den)
    def __pos__(self): return self
    def __abs__(self): return SFloat(abs(self.num), self.den)

    def _ar(self, o, f):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        n, d = p
        if d.bit_length() > 40:
            return None
        return SFloat(f(self.num * d, n * self.den), self.den * d)

    def __add__(self, o):
        r = self._ar(o, lambda x, y: x + y)
        return self.conc() + o if r is None else r
    __radd__ = __add__
    def __sub__(self, o):
        r = self._ar(o, lambda x, y: x - y)
        return self.conc() - o if r is None else r
    def __rsub__(self, o):
        r = self._ar(o, lambda x, y: y - x)
        return o - self.conc() if r is None else r
    def __mul__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        n, d = p
        return SFloat(self.num * n, self.den * d)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, int) and o > 0:
            return SFloat(self.num, self.den * o)
        return self.conc() / (o.conc() if isinstance(o, SFloat) else o)
    def __rtruediv__(self, o): return o / self.conc()
    def __floordiv__(self, o): return self.conc() // o
    def __mod__(self, o): return self.conc() % o
    def is_integer(self): return self.is_int()
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


PROXY_INT = (SInt, SBool)


# ------------------------------------------------------- constructors
class Interner:
    def __init__(self):
        self.reset()

    def reset(self):
        self.atoms = {}
        self.bools = {}
        self.n = 0

    def atom(self, key, kind, a, lo, hi):
        r = self.atoms.get(key)
        if r is None:
            self.n += 1
            r = self.atoms[key] = Atom(self.n, kind, a, lo, hi)
        return r

    def boolean(self, key, kind, a):
        r = self.bools.get(key)
        if r is None:
            r = self.bools[key] = SBool(kind, a, key)
        return r


IT = Interner()


def from_atom(a):
    return SInt(((a, 1),), 0, a.lo, a.hi)


def ikey(x):
    return x.key() if isinstance(x, SInt) else x


def lin_add(x, y, s):
    tx, ty = x.t, y.t
    out = []
    i = j = 0
    nx, ny = len(tx), len(ty)
    while i < nx and j < ny:
        a, k = tx[i]
        b, l = ty[j]
        if a.id == b.id:
            v = k + s * l
            if v:
                out.append((a, v))
            i += 1
            j += 1
        elif a.id < b.id:
            out.append(tx[i])
            i += 1
        else:
            out.append((b, s * l))
            j += 1
    while i < nx:
        out.append(tx[i])
        i += 1
    while j < ny:
        b, l = ty[j]
        out.append((b, s * l))
        j += 1
    c = x.c + s * y.c
    if not out:
        return c
    # bounds: tighter of operand bounds and atom bounds
    if s == 1:
        lo, hi = x.lo + y.lo, x.hi + y.hi
    else:
        lo, hi = x.lo - y.hi, x.hi - y.lo
    l2 = h2 = c
    for a, k in out:
        if k > 0:
            l2 += k * a.lo
            h2 += k * a.hi
        else:
            l2 += k * a.hi
            h2 += k * a.lo
    if l2 > lo:
        lo = l2
    if h2 < hi:
        hi = h2
    if lo == hi:
        return lo
    return SInt(tuple(out), c, lo, hi)


def as_int(b):
    if isinstance(b, SBool):
        return ite(b, 1, 0)
    return int(b)


def ite(c, x, y):
    if c is True:
        return x
    if c is False:
        return y
    if isinstance(x, SBool):
        x = as_int(x)
    if isinstance(y, SBool):
        y = as_int(y)
    if isinstance(x, bool):
        x = int(x)
    if isinstance(y, bool):
        y = int(y)
    kx, ky = ikey(x), ikey(y)
    if kx == ky:
        return x
    xl, xh = (x.lo, x.hi) if isinstance(x, SInt) else (x, x)
    yl, yh = (y.lo, y.hi) if isinstance(y, SInt) else (y, y)
    if not isinstance(x, SInt) and not isinstance(y, SInt):
        # base + (x-y)*[c]: one 0/1 atom per condition
        a = IT.atom(("ind", c.key), "ite", (c, 1, 0), 0, 1)
        return from_atom(a) * (x - y) + y
    a = IT.atom(("ite", c.key, kx, ky), "ite", (c, x, y), min(xl, yl), max(xh, yh))
    return from_atom(a)


def floordiv(e, n):
    if n == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if not isinstance(e, SInt):
        return e // n
    if n < 0:
        return floordiv(-e, -n)
    if n == 1:
        return e
    # split off multiples of n
    rest, out = [], []
    for a, k in e.t:
        if k % n == 0:
            out.append((a, k // n))
        else:
            rest.append((a, k))
    cq, cr = divmod(e.c, n)
    whole = _mk(out, cq)
    if not rest:
        return whole  # cr // n == 0
    r = _mk(rest, cr)
    l, h = r.lo, r.hi
    if not out:
        l, h = max(l, e.lo - cq * n), min(h, e.hi - cq * n)
    if l // n == h // n:
        return whole + (l // n)
    a = IT.atom(("div", r.key(), n), "div", (r, n), l // n, h // n)
    return whole + from_atom(a)


def intmod(e, n):
    if n == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if not isinstance(e, SInt):
        return e % n
    if n < 0:
        return -intmod(-e, -n)
    if n == 1:
        return 0
    r = e - floordiv(e, n) * n
    if isinstance(r, SInt) and (r.lo < 0 or r.hi > n - 1):
        lo, hi = max(r.lo, 0), min(r.hi, n - 1)
        if lo == hi:
            return lo
        r = SInt(r.t, r.c, lo, hi)
    return r


def _mk(terms, c):
    if not terms:
        return c
    lo = hi = c
    for a, k in terms:
        if k > 0:
            lo += k * a.lo
            hi += k * a.hi
        else:
            lo += k * a.hi
            hi += k * a.lo
    return SInt(tuple(terms), c, lo, hi)


def bit(x, i):
    r = (x >> i) % 2
    return r == 1


def mk_le(e):
    """e <= 0"""
    if not isinstance(e, SInt):
        return e <= 0
    if e.hi <= 0:
        return True
    if e.lo > 0:
        return False
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
    if g > 1:
        # sum g*k_i a_i + c <= 0  <=>  sum k_i a_i <= floor(-c/g)
        c = -((-e.c) // g)
        e = SInt(tuple([(a, k // g) for a, k in e.t]), c, -(-e.lo // g), e.hi // g)
        e = _tight(e)
    key = ("le",) + e.key()
    return IT.boolean(key, "le", e)


def _tight(e):
    lo = hi = e.c
    for a, k in e.t:
        if k > 0:
            lo += k * a.lo
            hi += k * a.hi
        else:
            lo += k * a.hi
            hi += k * a.lo
    return SInt(e.t, e.c, lo, hi)


def mk_eq(e):
    if not isinstance(e, SInt):
        return e == 0
    if e.lo > 0 or e.hi < 0:
        return False
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
    if g > 1:
        if e.c % g:
            return False
        e = _mk([(a, k // g) for a, k in e.t], e.c // g)
    if e.t[0][1] < 0:
        e = -e
    if len(e.t) == 1:
        a, k = e.t[0]
        if a.kind == "ite" and k == 1 and a.a[1] == 1 and a.a[2] == 0 and not isinstance(a.a[1], SInt) \
                and not isinstance(a.a[2], SInt):
            # indicator == const
            if e.c == -1:
                return a.a[0]
            if e.c == 0:
                return mk_not(a.a[0])
            return False
    key = ("eq",) + e.key()
    return IT.boolean(key, "eq", e)


def mk_not(b):
    if b is True:
        return False
    if b is False:
        return True
    if not isinstance(b, SBool):
        return not b
    if b.kind == "not":
        return b.a
    if b.kind == "le":
        return mk_le(-b.a + 1)
    return IT.boolean(("not", b.key), "not", b)


def mk_and(items):
    out = []
    seen = set()
    for x in items:
        if x is True:
            continue
        if x is False:
            return False
        if not isinstance(x, SBool):
            if not x:
                return False
            continue
        if x.kind == "and":
            sub = x.a
        else:
            sub = (x,)
        for y in sub:
            if y.key not in seen:
                seen.add(y.key)
                out.append(y)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return IT.boolean(("and",) + tuple([x.key for x in out]), "and", tuple(out))


def mk_or(items):
    out = []
    seen = set()
    for x in items:
        if x is False:
            continue
        if x is True:
            return True
        if not isinstance(x, SBool):
            if x:
                return True
            continue
        if x.kind == "or":
            sub = x.a
        else:
            sub = (x,)
        for y in sub:
            if y.key not in seen:
                seen.add(y.key)
                out.append(y)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return IT.boolean(("or",) + tuple([x.key for x in out]), "or", tuple(out))


def mk_iff(a, b):
    if not isinstance(a, SBool):
        a, b = b, a
    if not isinstance(a, SBool):
        return a == b
    if b is True:
        return a
    if b is False:
        return mk_not(a)
    if a.key == b.key:
        return True
    return mk_or([mk_and([a, b]), mk_and([mk_not(a), mk_not(b)])])


def mk_implies(a, b):
    return mk_or([mk_not(a), b])


def to_cond(x):
    """Truth value of x without forking when x is a plain symbolic condition."""
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return mk_not(mk_eq(x))
    if isinstance(x, SFloat):
        return mk_not(mk_eq(x.num)) if isinstance(x.num, SInt) else bool(x.num)
    return bool(x)


# ------------------------------------------------------------------- models
class Model(dict):
    """variable name -> value; '@f' -> (dict, default) for uninterpreted sets"""

    def fun(self, name, arg):
        d = self.get("@" + name)
        if d is None:
            return False
        return d[0].get(arg, d[1])


# ----------------------------------------------------------------- executor
class Executor:
    def __init__(self):
        self.zc = None
        self.solver_timeout_ms = 60000
        self.stats = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, branches=0, forced=0, paths=0,
                          checks=0, checks_const=0, assumes=0, concretizations=0)
        self.stack = []          # entries asserted in the solver: positions
        self.prev_decisions = []
        self.active = False

    # --- life cycle of one path
    def begin(self, prefix, model):
        if self.zc is not None and (self.zc.n > 400000 or IT.n > 400000 or len(IT.bools) > 400000):
            self.new_case()
        self.vars = {}
        self.funs = {}
        self.memos = {}
        self.decisions = []
        self.prefix = prefix
        self.model = model
        self.open = []
        self.pc = []             # (pos, SBool)
        self.facts = {}
        self.bounds = {}
        self.active = True
        # common prefix with the previous run decides which solver frames stay
        L = 0
        pd = self.prev_decisions
        n = min(len(pd), len(prefix))
        while L < n and pd[L] == prefix[L]:
            L += 1
        self.keep = L
        if self.zc is not None:
            k = len(self.stack)
            while k > 0 and self.stack[k - 1] > L:
                k -= 1
            if k < len(self.stack):
                self.zc.pop(len(self.stack) - k)
                del self.stack[k:]
        self.npc_in_solver = len(self.stack)

    def end(self):
        self.prev_decisions = self.decisions
        self.active = False

    def new_case(self):
        self.prev_decisions = []
        self.stack = []
        self.npc_in_solver = 0
        IT.reset()
        if self.zc is not None:
            self.zc.close()
            self.zc = None

    def _solver(self):
        zc = self.zc
        if zc is None:
            zc = self.zc = zz.Ctx(self.solver_timeout_ms)
            self.stack = []
            self.npc_in_solver = 0
        while self.npc_in_solver < len(self.pc):
            pos, b = self.pc[self.npc_in_solver]
            zc.push()
            zc.add_assert(b.z())
            self.stack.append(pos)
            self.npc_in_solver += 1
        return zc

    def query(self, *conds):
        """sat? of pc and conds -> Model or None."""
        t0 = time.perf_counter()
        zc = self._solver()
        zc.push()
        st = self.stats
        try:
            for c in conds:
                zc.add_assert(c.z())
            r = zc.check()
            st["queries"] += 1
            if r == -1:
                st["unsat"] += 1
                return None
            if r != 1:
                st["unknown"] += 1
                raise Inconclusive("solver: " + zc.reason())
            st["sat"] += 1
            return self._extract(zc)
        finally:
            zc.pop()
            zc.err()
            st["solver_s"] += time.perf_counter() - t0

    def _extract(self, zc):
        zm = zc.model()
        m = Model()
        for name, (kind, v) in self.vars.items():
            m[name] = zc.eval(zm, v.z(), kind == "int")
        for name in self.funs:
            fi = zc.fun_interp(zm, name)
            if fi is None:
                raise Inconclusive("function interpretation")
            m["@" + name] = fi
        zc.model_done(zm)
        return m

    # --- declarations
    def int_var(self, name, lo, hi):
        if lo == hi:
            return lo
        if name in self.vars:
            return from_atom(self.vars[name][1])
        a = IT.atom(("var", name, lo, hi), "var", name, lo, hi)
        self.vars[name] = ("int", a)
        if self.model is not None and name not in self.model:
            self.model[name] = lo
        x = from_atom(a)
        # bounds go straight to the solver (interval reasoning would make them constants)
        self._push_pc(len(self.decisions), IT.boolean(("bnd", a.id), "bnd", a))
        return x

    def bool_var(self, name):
        b = IT.boolean(("bvar", name), "var", name)
        if name not in self.vars:
            self.vars[name] = ("bool", b)
            if self.model is not None and name not in self.model:
                self.model[name] = False
        return b

    def fun_var(self, name):
        self.funs[name] = True
        if self.model is not None and ("@" + name) not in self.model:
            self.model["@" + name] = ({}, False)

    def _push_pc(self, pos, b):
        self.pc.append((pos, b))

    # --- path condition
    def ival(self, e):
        bd = self.bounds
        lo = hi = e.c
        for a, k in e.t:
            b = bd.get(a.id)
            if b is None:
                al, ah = a.lo, a.hi
            else:
                al, ah = b
            if k > 0:
                lo += k * al
                hi += k * ah
            else:
                lo += k * ah
                hi += k * al
        if e.lo > lo:
            lo = e.lo
        if e.hi < hi:
            hi = e.hi
        return lo, hi

    def _note(self, b, val):
        """record that b has value val on this path; refine bounds"""
        self.facts[b.key] = val
        k = b.kind
        if k == "not":
            self._note(b.a, not val)
            return
        if k == "and" and val:
            for x in b.a:
                self._note(x, True)
            return
        if k == "or" and not val:
            for x in b.a:
                self._note(x, False)
            return
        if k == "le":
            if val:
                self._refine_le(b.a)
            else:
                self._refine_le(-b.a + 1)
        elif k == "eq":
            if val:
                self._refine_le(b.a)
                self._refine_le(-b.a)
            elif len(b.a.t) == 1:
                a, c = b.a.t[0]
                if b.a.c % c == 0:
                    v = -b.a.c // c
                    lo, hi = self.bounds.get(a.id, (a.lo, a.hi))
                    if v == lo:
                        self.bounds[a.id] = (lo + 1, hi)
                    elif v == hi:
                        self.bounds[a.id] = (lo, hi - 1)

    def _refine_le(self, e):
        if not isinstance(e, SInt):
            return
        bd = self.bounds
        lo = e.c
        parts = []
        for a, k in e.t:
            al, ah = bd.get(a.id) or (a.lo, a.hi)
            m = k * al if k > 0 else k * ah
            parts.append((a, k, al, ah, m))
            lo += m
        for a, k, al, ah, m in parts:
            rest = lo - m
            # k*a <= -rest
            if k > 0:
                h = (-rest) // k
                if h < ah:
                    bd[a.id] = (al, h)
            else:
                # a >= rest/(-k), rounded up
                l = (rest + (-k) - 1) // (-k)
                if l > al:
                    bd[a.id] = (l, ah)

    def quick(self, b):
        """value of b if already determined on this path, else None"""
        v = self.facts.get(b.key)
        if v is not None:
            return v
        k = b.kind
        if k == "le":
            lo, hi = self.ival(b.a)
            if hi <= 0:
                return True
            if lo > 0:
                return False
        elif k == "eq":
            lo, hi = self.ival(b.a)
            if lo > 0 or hi < 0:
                return False
            if lo == 0 and hi == 0:
                return True
        elif k == "not":
            v = self.quick(b.a)
            return None if v is None else not v
        elif k == "and":
            und = False
            for x in b.a:
                v = self.quick(x)
                if v is False:
                    return False
                if v is None:
                    und = True
            return None if und else True
        elif k == "or":
            und = False
            for x in b.a:
                v = self.quick(x)
                if v is True:
                    return True
                if v is None:
                    und = True
            return None if und else False
        return None

    def branch(self, b):
        if b is True or b is False:
            return b
        if not self.active:
            raise EngineError("symbolic value used outside a path")
        v = self.quick(b)
        if v is not None:
            return v
        st = self.stats
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d is True or d is False or d == "T" or d == "F":
                forced = d in ("T", "F")
                val = d is True or d == "T"
            else:
                raise EngineError("nondeterministic replay (expected value choice)")
            self.decisions.append(d)
            if not forced:
                self._push_pc(i + 1, b if val else mk_not(b))
            self._note(b, val)
            return val
        st["branches"] += 1
        self._need_model()
        val = bool(b.ev(self.model))
        other = mk_not(b) if val else b
        m2 = self.query(other)
        if m2 is None:
            st["forced"] += 1
            self.decisions.append("T" if val else "F")
            self._note(b, val)
            return val
        self.open.append((self.decisions + [not val], m2))
        self.decisions.append(val)
        self._push_pc(i + 1, b if val else mk_not(b))
        self._note(b, val)
        return val

    def _need_model(self):
        if self.model is None:
            m = self.query()
            if m is None:
                raise PathEnd()
            self.model = m

    def concretize(self, e):
        if isinstance(e, SBool):
            return self.branch(e)
        if not isinstance(e, SInt):
            return e
        if not self.active:
            raise EngineError("symbolic value used outside a path")
        self.stats["concretizations"] += 1
        while True:
            lo, hi = self.ival(e)
            if lo == hi:
                return lo
            k = e.key()
            kv = self.facts.get(("val", k))
            if kv is not None:
                return kv
            i = len(self.decisions)
            if i < len(self.prefix):
                d = self.prefix[i]
                if not isinstance(d, tuple):
                    raise EngineError("nondeterministic replay (expected branch)")
                v, taken, forced = d
                self.decisions.append(d)
                b = mk_eq(e - v)
                if not isinstance(b, SBool):
                    if b is not taken:
                        raise EngineError("nondeterministic replay (value)")
                    if taken:
                        self.facts[("val", k)] = v
                        return v
                    continue
                if not forced:
                    self._push_pc(i + 1, b if taken else mk_not(b))
                self._note(b, taken)
                if taken:
                    self.facts[("val", k)] = v
                    return v
                continue
            self._need_model()
            v = e.ev(self.model)
            b = mk_eq(e - v)
            if not isinstance(b, SBool):
                if not b:
                    raise EngineError("model outside bounds")
                self.decisions.append((v, True, True))
                self.facts[("val", k)] = v
                return v
            q = self.quick(b)
            if q is True:
                self.decisions.append((v, True, True))
                self._note(b, True)     # as a replay of this decision does
                self.facts[("val", k)] = v
                return v
            m2 = self.query(mk_not(b))
            self.stats["branches"] += 1
            if m2 is None:
                self.decisions.append((v, True, True))
            else:
                self.open.append((self.decisions + [(v, False, False)], m2))
                self.decisions.append((v, True, False))
                self._push_pc(i + 1, b)
            self._note(b, True)
            self.facts[("val", k)] = v
            return v

    def assume(self, cond):
        c = to_cond(cond)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        v = self.quick(c)
        if v is True:
            return
        if v is False:
            raise PathEnd()
        self.stats["assumes"] += 1
        i = len(self.decisions)
        # an assumption is recorded like a forced decision so that positions stay aligned
        if i < len(self.prefix):
            d = self.prefix[i]
            if d != "A":
                raise EngineError("nondeterministic replay (expected assumption)")
            self.decisions.append("A")
            self._push_pc(i + 1, c)
            self._note(c, True)
            return
        if self.model is not None and c.ev(self.model):
            pass
        else:
            m = self.query(c)
            if m is None:
                raise PathEnd()
            self.model = m
        self.decisions.append("A")
        self._push_pc(i + 1, c)
        self._note(c, True)

    def model_for(self, cond):
        """None if cond cannot hold here, else a model of pc and cond"""
        c = to_cond(cond)
        if c is False:
            return None
        if c is True:
            self._need_model()
            return self.model
        v = self.quick(c)
        if v is False:
            return None
        self._need_model()
        if c.ev(self.model):
            return self.model
        return self.query(c)


EX = Executor()


def set_executor(ex):
    global EX
    EX = ex


def is_proxy(x):
    return isinstance(x, (SInt, SBool, SFloat))
