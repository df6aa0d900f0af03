"""Run-time side of the instrumentation: models of built-in operations on
symbolic values.  Anything without a model is handled by case split."""
import builtins
import functools
import itertools
import json
import re
import string
import struct
import types

from . import core
from .core import (SInt, SBool, SFloat, mk_and, mk_or, mk_not, mk_eq, ite, to_cond, as_int, Unsupported)
from .strs import SStr, SMatch, mkstr, conc as conc_str, dec_str, float_str, join, to_int, to_float, items_of, \
    str_contains, re_method, expand
from .sets import SSet

PROXIES = (SInt, SBool, SFloat, SStr, SSet)
SCALARS = (SInt, SBool, SFloat, SStr)

_Pattern = type(re.compile(""))
_builtin_function = type(len)
_orig = dict(vars(builtins))


def is_proxy(x):
    return isinstance(x, PROXIES)


def has_proxy(x, depth=3):
    if isinstance(x, PROXIES):
        return True
    if depth and isinstance(x, (tuple, list, set, frozenset)):
        for y in x:
            if has_proxy(y, depth - 1):
                return True
    elif depth and type(x) is dict:
        for k, v in x.items():
            if has_proxy(v, depth - 1) or has_proxy(k, 0):
                return True
    return False


def deep_conc(x, depth=4):
    """replace symbolic values by concrete ones (case split)"""
    if isinstance(x, (SInt, SBool)):
        return core.EX.concretize(x)
    if isinstance(x, SFloat):
        return x.conc()
    if isinstance(x, SStr):
        return conc_str(x)
    if isinstance(x, SSet):
        return set(deep_conc(e) for e in x)
    if depth:
        if type(x) is tuple:
            return tuple([deep_conc(y, depth - 1) for y in x])
        if type(x) is list:
            if has_proxy(x):
                return [deep_conc(y, depth - 1) for y in x]
            return x
        if type(x) is dict:
            if has_proxy(x):
                return {deep_conc(k, depth - 1): deep_conc(v, depth - 1) for k, v in x.items()}
            return x
    return x


# --------------------------------------------------------------- str()
def sx_str(x):
    if isinstance(x, (SInt, SBool)):
        return dec_str(x) if isinstance(x, SInt) else str(core.EX.branch(x))
    if isinstance(x, SFloat):
        return float_str(x)
    if isinstance(x, SStr):
        return x
    if isinstance(x, (str, int, float)) or x is None:
        return str(x)
    t = type(x)
    if t in (list, tuple, set, dict, frozenset):
        return sx_repr(x)
    f = getattr(t, "__str__", None)
    if isinstance(x, tuple) and f in (object.__str__, tuple.__str__):
        return sx_repr(x)
    if isinstance(f, types.FunctionType):
        return f(x)
    f = getattr(t, "__repr__", None)
    if isinstance(f, types.FunctionType) and getattr(t, "__str__", None) is object.__str__:
        return f(x)
    return str(x)


def _repr_text(x):
    """repr() of text; None: not without enumerating characters"""
    fixed = [i for i in x.items if isinstance(i, str)]
    if any(isinstance(i, SInt) and (i.lo < 32 or i.hi > 126 or i.lo <= 39 <= i.hi or i.lo <= 34 <= i.hi or i.lo <= 92 <= i.hi) for i in x.items):
        return None
    q = '"' if "'" in fixed and '"' not in fixed else "'"
    out = [q]
    for i in x.items:
        if not isinstance(i, str):
            out.append(i)
        elif i in "'\"":
            out.extend("\\" + i if i == q else i)
        else:
            out.extend(repr(i)[1:-1])
    return mkstr(out + [q])


def _repr_items(x):
    out = []
    for i, y in enumerate(x):
        out += ([", "] if i else []) + [sx_repr(y)]
    return out


def sx_repr(x):
    if isinstance(x, SInt):
        return dec_str(x)
    if isinstance(x, SFloat):
        return float_str(x)
    if isinstance(x, SStr):
        r = _repr_text(x)
        return repr(deep_conc(x)) if r is None else r
    if isinstance(x, PROXIES):
        return repr(deep_conc(x))
    t = type(x)
    if t in (int, str, float, bool, type(None)):
        return repr(x)
    if t is list:
        return join("", ["["] + _repr_items(x) + ["]"])
    if t is tuple:
        return join("", ["("] + _repr_items(x) + [",)" if len(x) == 1 else ")"])
    if t is dict:
        out = []
        for k, v in x.items():
            out += [", " if out else "", sx_repr(k), ": ", sx_repr(v)]
        return join("", ["{"] + out + ["}"])
    if isinstance(x, tuple) and hasattr(t, "_fields") and getattr(t.__repr__, "__module__", "").startswith(("collections", "namedtuple")):
        out = []
        for k, v in zip(t._fields, x):
            out += [", " if out else "", k, "=", sx_repr(v)]
        return join("", [t.__name__, "("] + out + [")"])
    if t in (set, frozenset):
        if has_proxy(x):
            return repr(deep_conc(x))
        return repr(x)
    f = getattr(t, "__repr__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    if has_proxy(x):
        return repr(deep_conc(x))
    return repr(x)


def sx_fmt(v, conv, spec):
    if conv == "r":
        v = sx_repr(v)
    elif conv == "s":
        v = sx_str(v)
    elif conv == "a":
        v = ascii(deep_conc(v))
    if spec == "" or spec is None:
        return sx_str(v)
    if isinstance(spec, SStr):
        spec = conc_str(spec)
    if spec == "d" and isinstance(v, (SInt,)):
        return dec_str(v)
    return format(deep_conc(v), spec)


def sx_fstr(*parts):
    return join("", [sx_str(p) if not isinstance(p, (str, SStr)) else p for p in parts])


_PCT = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?[hlL]?(?P<c>[diouxXeEfFgGcrsa%])")


def sx_mod(a, b):
    if isinstance(a, SStr):
        return conc_str(a) % deep_conc(b)
    if not isinstance(a, str):
        return a % b
    args = b if isinstance(b, tuple) else (b,)
    if not _needs_format_model(args) and not (isinstance(b, dict) and has_proxy(b)):
        return a % b
    out = []
    pos = 0
    n = 0
    for m in _PCT.finditer(a):
        out.append(a[pos:m.start()])
        pos = m.end()
        c = m.group("c")
        if c == "%":
            out.append("%")
            continue
        if m.group("w") == "*" or m.group("p") == "*":
            return a % deep_conc(b)
        if m.group("key") is not None:
            v = b[m.group("key")]
        else:
            if n >= len(args):
                raise TypeError("not enough arguments for format string")
            v = args[n]
            n += 1
        plain = not m.group("flags") and not m.group("w") and not m.group("p")
        if plain and c == "s":
            out.append(sx_str(v))
        elif plain and c == "r":
            out.append(sx_repr(v))
        elif plain and c in "diu":
            if isinstance(v, SFloat):
                v = v.trunc()
            if isinstance(v, SStr):
                raise TypeError("%d format: a number is required, not str")
            if isinstance(v, SBool):
                v = as_int(v)
            out.append(dec_str(v) if isinstance(v, SInt) else "%d" % v)
        elif plain and c == "c" and isinstance(v, SInt):
            out.append(SStr([v]))
        else:
            d = deep_conc(v)
            if c == "s":
                d = conc_str(sx_str(d))
            spec = m.group(0)
            if m.group("key") is not None:
                spec = "%" + spec[spec.index(")") + 1:]
            out.append(spec % (d,))
    if n < len(args) and not isinstance(b, dict):
        raise TypeError("not all arguments converted during string formatting")
    out.append(a[pos:])
    return join("", out)


def _needs_format_model(args):
    for x in args:
        if isinstance(x, PROXIES):
            return True
        if not isinstance(x, (str, int, float)) and x is not None:
            return True   # an object whose __str__ may be symbolic
    return False


_formatter = string.Formatter()


def sx_format(fmt, args, kwargs):
    out = []
    auto = 0
    for lit, field, spec, conv in _formatter.parse(fmt):
        out.append(lit)
        if field is None:
            continue
        name, rest = _split_field(field)
        if name == "":
            name = auto
            auto += 1
        elif name.isdigit():
            name = int(name)
        v = args[name] if isinstance(name, int) else kwargs[name]
        for is_attr, key in rest:
            v = getattr(v, key) if is_attr else v[key]
        if spec and "{" in spec:
            spec = sx_format(spec, args, kwargs)
        out.append(sx_fmt(v, conv, spec))
    return join("", out)


def _split_field(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return str(first), list(rest)


# --------------------------------------------------------------- in / not
_ATOMIC = (int, str, float, type(None))


def sx_in(x, c):
    if isinstance(c, SSet):
        return to_cond(c.has(x))
    if isinstance(c, (str, SStr)):
        if isinstance(x, SStr) or isinstance(c, SStr):
            return str_contains(c, x)
        return x in c
    t = type(c)
    if isinstance(x, SCALARS):
        if t is range:
            if isinstance(x, (SInt, SBool)):
                x = as_int(x) if isinstance(x, SBool) else x
                if len(c) == 0:
                    return False
                lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
                r = mk_and([to_cond(x >= lo), to_cond(x <= hi)])
                if abs(c.step) != 1:
                    r = mk_and([r, to_cond((x - c[0]) % abs(c.step) == 0)])
                return r
            return x in c
        if isinstance(c, (dict, set, frozenset)) or t in (_dk, _dv, list, tuple):
            alts = []
            for k in c:
                if isinstance(k, _ATOMIC) or isinstance(k, SCALARS):
                    if isinstance(x, SStr) != isinstance(k, (str, SStr)):
                        continue
                    if k is None:
                        continue
                    alts.append(to_cond(x == k))
                elif t in (list, tuple):
                    return x in c
                # other keys (tuples, enums) are never equal to a number or string here
                elif not isinstance(k, (tuple, frozenset)) and type(k).__eq__ is not object.__eq__ \
                        and not _is_enum(k):
                    return x in c
            return mk_or(alts)
        return x in c
    if t in (list, tuple) and isinstance(x, (int, str)) and has_proxy(c, 1):
        alts = []
        for k in c:
            if isinstance(k, _ATOMIC) or isinstance(k, SCALARS):
                alts.append(to_cond(x == k))
            else:
                return x in c
        return mk_or(alts)
    if type(x) is tuple and has_proxy(x, 1) and isinstance(c, (dict, set, frozenset)):
        alts = []
        for k in c:
            if type(k) is tuple and len(k) == len(x):
                alts.append(mk_and([to_cond(p == q) for p, q in zip(x, k)]))
        return mk_or(alts)
    return x in c


def _is_enum(k):
    import enum
    return isinstance(k, enum.Enum)


_dk = type({}.keys())
_dv = type({}.values())


def sx_not_in(x, c):
    r = sx_in(x, c)
    return mk_not(r) if isinstance(r, SBool) else not r


def sx_not(x):
    if isinstance(x, SBool):
        return mk_not(x)
    if isinstance(x, SInt):
        return mk_eq(x)
    return not x


# --------------------------------------------------------------- builtins
def sx_int(x=0, *a, **k):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return as_int(x)
    if isinstance(x, SFloat):
        return x.trunc()
    if isinstance(x, SStr):
        base = a[0] if a else k.get("base", 10)
        return to_int(x, base)
    return int(x, *a, **k)


def sx_float(x=0.0):
    if isinstance(x, SInt):
        return SFloat(x, 1)
    if isinstance(x, SBool):
        return SFloat(as_int(x), 1)
    if isinstance(x, SFloat):
        return x
    if isinstance(x, SStr):
        return to_float(x)
    return float(x)


def sx_bool(x=False):
    if isinstance(x, PROXIES):
        if isinstance(x, (SInt, SBool, SFloat)):
            return to_cond(x)
        return bool(x)
    return bool(x)


def sx_len(x):
    if isinstance(x, SSet):
        return x.size()
    if isinstance(x, SStr):
        return len(x)
    f = getattr(type(x), "__len__", None)
    if isinstance(f, types.FunctionType):
        r = f(x)
        if isinstance(r, (SInt, SBool)):
            if r < 0:
                raise ValueError("__len__() should return >= 0")
            return r
        return len(x) if not isinstance(r, int) else r
    return len(x)


def _merge(it, want):
    """all / any without a case split per element"""
    acc = []
    it = iter(it)
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        except Exception:
            # an earlier decided element would have stopped the iteration
            if acc:
                c = mk_and(acc) if want else mk_or(acc)
                c = bool(c)
                if c is not want:
                    return not want
            raise
        if isinstance(x, (SBool, SInt, SFloat)):
            c = to_cond(x)
        else:
            c = bool(x)
        if c is want:
            continue
        if c is (not want):
            return not want
        acc.append(c)
        if len(acc) >= 200:
            c = bool(mk_and(acc) if want else mk_or(acc))
            if c is not want:
                return not want
            acc = []
    return mk_and(acc) if want else mk_or(acc)


def sx_all(it):
    return _merge(it, True)


def sx_any(it):
    return _merge(it, False)


def _minmax(f, pick):
    def run(*a, **k):
        if k.get("key") is not None:
            return f(*a, **k)
        src = list(a[0]) if len(a) == 1 else list(a)
        if not src:
            return f(src, **k)
        if not any(isinstance(x, (SInt, SBool)) for x in src) or \
                not all(isinstance(x, (SInt, SBool, int)) for x in src):
            return f(src, **{q: w for q, w in k.items() if q == "key"}) if src else f(src, **k)
        r = src[0]
        for x in src[1:]:
            r = ite(to_cond(pick(x, r)), x, r)
        return r
    return run


sx_min = _minmax(min, lambda x, r: x < r)
sx_max = _minmax(max, lambda x, r: x > r)


def sx_isinstance(x, t):
    if isinstance(x, PROXIES):
        ts = t if isinstance(t, tuple) else (t,)
        if type(x) in ts:
            return True
        if isinstance(x, SInt):
            return isinstance(0, t)
        if isinstance(x, SBool):
            return isinstance(True, t)
        if isinstance(x, SFloat):
            return isinstance(0.5, t)
        if isinstance(x, SStr):
            return isinstance("", t)
        return isinstance(set(), t)
    return isinstance(x, t)


def sx_type(*a):
    if len(a) == 1 and isinstance(a[0], PROXIES):
        x = a[0]
        return int if isinstance(x, SInt) else bool if isinstance(x, SBool) else float if isinstance(x, SFloat) \
            else str if isinstance(x, SStr) else set
    return type(*a)


def sx_set(*a):
    if not a:
        return set()
    x = a[0]
    if isinstance(x, SSet):
        return x.copy()
    items = x if isinstance(x, (list, tuple)) else list(x)
    for y in items:
        if isinstance(y, (SInt, SBool)):
            return SSet.of(items)
        if isinstance(y, SStr):
            break
    return set(items)


def sx_setf(it, ops, plain):
    """{x for x in it if <comparisons of x with fixed values>} as set algebra when anything is symbolic"""
    if isinstance(it, (SSet, set, frozenset)):
        try:
            todo = ops()
        except Exception:
            todo = None
        if todo is not None and (isinstance(it, SSet) or any(has_proxy(v, 2) or isinstance(v, SSet) for _, v in todo)):
            r = it.copy() if isinstance(it, SSet) else SSet.of(list(it))
            for op, v in todo:
                if op in ("eq", "ne"):
                    if not isinstance(v, (int, SInt, SBool)):
                        return sx_set(plain(it))
                    v = [v]
                elif not isinstance(v, (SSet, set, frozenset, list, tuple)):
                    return sx_set(plain(it))
                if not isinstance(v, SSet):
                    if not all(isinstance(y, (int, SInt, SBool)) for y in v):
                        return sx_set(plain(it))
                    v = SSet.of(list(v))
                r = r._diff(v) if op in ("ne", "ni") else r._inter(v)
            return r
    return sx_set(plain(it))


def sx_setdisplay(*items):
    return sx_set(list(items))


def sx_frozenset(*a):
    if a and isinstance(a[0], SSet):
        return a[0].copy()
    if a:
        items = list(a[0])
        if any(isinstance(y, (SInt, SBool)) for y in items):
            return SSet.of(items)
        return frozenset(items)
    return frozenset()


def sx_chr(x):
    if isinstance(x, SInt):
        if x < 0 or x > 0x10ffff:
            raise ValueError("chr() arg not in range(0x110000)")
        return SStr([x])
    return chr(x)


def sx_ord(x):
    if isinstance(x, SStr):
        it = expand(x.items)
        if len(it) != 1:
            raise TypeError("ord() expected a character")
        return ord(it[0]) if isinstance(it[0], str) else it[0]
    return ord(x)


def sx_divmod(a, b):
    return divmod(a, b)


def sx_round(x, *n):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SFloat):
        return round(x.conc(), *n)
    return round(x, *n)


def sx_hash(x):
    return hash(x)


# --------------------------------------------------------------- json
def json_dumps(x, *a, **k):
    if a or k or not has_proxy(x, 6):
        return json.dumps(x, *a, **k)
    return _jd(x)


def _jd(x):
    if isinstance(x, SBool):
        return "true" if x else "false"
    if isinstance(x, SInt):
        return dec_str(x)
    if isinstance(x, SFloat):
        return float_str(x)
    if isinstance(x, SStr):
        out = ['"']
        for it in x.items:
            if isinstance(it, str):
                out.extend(json.dumps(it)[1:-1])
            elif not isinstance(it, SInt):
                out.append(it)
            elif it.lo >= 48 and it.hi <= 57:
                out.append(it)
            else:
                out.extend(json.dumps(chr(core.EX.concretize(it)))[1:-1])
        return mkstr(out + ['"'])
    if isinstance(x, (list, tuple)):
        return join("", ["["] + [join("", [", " if i else "", _jd(y)]) for i, y in enumerate(x)] + ["]"])
    if isinstance(x, dict):
        parts = []
        for i, (kk, v) in enumerate(x.items()):
            if not isinstance(kk, (str, SStr)):
                kk = conc_str(sx_str(kk))
            parts.append(join("", [", " if i else "", _jd(kk) if isinstance(kk, SStr) else json.dumps(kk), ": ", _jd(v)]))
        return join("", ["{"] + parts + ["}"])
    return json.dumps(x)


class _JP:
    def __init__(self, items):
        self.a = items
        self.i = 0

    def ws(self):
        while self.i < len(self.a) and isinstance(self.a[self.i], str) and self.a[self.i] in " \t\r\n":
            self.i += 1

    def value(self):
        self.ws()
        if self.i >= len(self.a):
            raise ValueError("Expecting value")
        c = self.a[self.i]
        if isinstance(c, str):
            if c == "[":
                self.i += 1
                out = []
                self.ws()
                if self.a[self.i] == "]":
                    self.i += 1
                    return out
                while True:
                    out.append(self.value())
                    self.ws()
                    if self.a[self.i] == ",":
                        self.i += 1
                        continue
                    if self.a[self.i] == "]":
                        self.i += 1
                        return out
                    raise Unsupported("json")
            if c == '"':
                self.i += 1
                out = []
                while True:
                    ch = self.a[self.i]
                    self.i += 1
                    if isinstance(ch, str):
                        if ch == '"':
                            return mkstr(out)
                        if ch == "\\":
                            raise Unsupported("json escape next to symbolic text")
                    out.append(ch)
            if c in "tfnNI":
                for w, v in (("true", True), ("false", False), ("null", None), ("NaN", float("nan")),
                             ("Infinity", float("inf"))):
                    if self.a[self.i:self.i + len(w)] == list(w):
                        self.i += len(w)
                        return v
                raise ValueError("Expecting value")
        # number
        j = self.i
        while j < len(self.a) and (not isinstance(self.a[j], str) or self.a[j] in "-+.0123456789eE"):
            j += 1
        tok = mkstr(self.a[self.i:j])
        self.i = j
        if isinstance(tok, str):
            return json.loads(tok)
        if any(isinstance(t, str) and t in ".eE" for t in tok.items):
            return to_float(tok)
        return to_int(tok)


def json_loads(s, *a, **k):
    if not isinstance(s, SStr) or a or k:
        return json.loads(deep_conc(s), *a, **k)
    try:
        p = _JP(s.items)
        v = p.value()
        p.ws()
        if p.i == len(p.a):
            return v
    except (IndexError, Unsupported):
        pass
    return json.loads(conc_str(s))


# --------------------------------------------------------------- struct / bitstruct
class SBytes:
    """big-endian bytes of a symbolic unsigned number"""

    def __init__(self, value, n):
        self.value = value
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, step = i.indices(self.n)
            if step != 1 or b <= a:
                return self.conc()[i]
            return SBytes((self.value >> (8 * (self.n - b))) & ((1 << (8 * (b - a))) - 1), b - a)
        if i < 0:
            i += self.n
        return (self.value >> (8 * (self.n - 1 - i))) & 0xff

    def __iter__(self):
        return iter([self[i] for i in range(self.n)])

    def conc(self):
        return core.EX.concretize(self.value).to_bytes(self.n, "big")

    def __eq__(self, o):
        if isinstance(o, SBytes):
            return self.value == o.value if self.n == o.n else False
        if isinstance(o, bytes):
            return self.value == int.from_bytes(o, "big") if len(o) == self.n else False
        return NotImplemented

    def __hash__(self):
        return hash(self.conc())

    def hex(self):
        return self.conc().hex()


_SIZES = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}


def _fields_of(fmt):
    """widths of a big-endian format of unsigned fields, else None"""
    if fmt[:1] in (">", "!") and len(fmt) > 1 and all(c in _SIZES for c in fmt[1:]):
        return [_SIZES[c] for c in fmt[1:]]
    return None


def sbytes_of(vals, widths, error):
    """big-endian bytes of the unsigned fields"""
    total = 0
    for v, n in zip(vals, widths):
        if isinstance(v, SBool):
            v = as_int(v)
        if not (mk_and([to_cond(v >= 0), to_cond(v < (1 << (8 * n)))])):
            raise error
        total = total * (1 << (8 * n)) + v
    n = sum(widths)
    return SBytes(total, n) if isinstance(total, SInt) else total.to_bytes(n, "big")


def struct_pack(fmt, *vals):
    if any(isinstance(v, (SInt, SBool)) for v in vals):
        widths = _fields_of(fmt)
        if widths is not None and len(widths) == len(vals) and all(isinstance(v, (int, SInt, SBool)) for v in vals):
            return sbytes_of(vals, widths, struct.error("format requires 0 <= number"))
        return struct.pack(fmt, *[deep_conc(v) for v in vals])
    if any(isinstance(v, (SStr, SFloat)) for v in vals):
        if any(isinstance(v, SStr) for v in vals):
            raise struct.error("required argument is not an integer")
        return struct.pack(fmt, *[deep_conc(v) for v in vals])
    return struct.pack(fmt, *vals)


def struct_unpack(fmt, data):
    if isinstance(data, SBytes):
        widths = _fields_of(fmt)
        if widths is not None and sum(widths) == data.n:
            out, pos = [], 8 * data.n
            for n in widths:
                pos -= 8 * n
                out.append((data.value >> pos) & ((1 << (8 * n)) - 1) if len(widths) > 1 else data.value)
            return tuple(out)
        return struct.unpack(fmt, data.conc())
    return struct.unpack(fmt, data)


def sx_bytes(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SBytes):
            return x
        if isinstance(x, (list, tuple)) and any(isinstance(v, (SInt, SBool)) for v in x):
            return sbytes_of(x, [1] * len(x), ValueError("bytes must be in range(0, 256)"))
        if isinstance(x, (SInt, SStr)):
            x = deep_conc(x)
            return bytes(x)
        if isinstance(x, types.GeneratorType):
            return sx_bytes(list(x))
    return bytes(*[deep_conc(v) for v in a], **{q: deep_conc(v) for q, v in k.items()})


_FMT = re.compile(r"([usbp])(\d+)")
_bit_formats = {}


def bit_compile(fmt, *a, **k):
    import bitstruct
    r = bitstruct.compile(fmt, *a, **k)
    try:
        _bit_formats[id(r)] = (fmt, r)
    except Exception:
        pass
    return r


def _bit_fields(fmt):
    body = fmt[1:] if fmt[:1] == ">" else fmt
    if "<" in body or _FMT.sub("", body):
        return None
    return [(k, int(w)) for k, w in _FMT.findall(body)]


def _bits_of(fields, data):
    if data.n * 8 < sum(w for _, w in fields):
        return None
    out = []
    pos = data.n * 8
    for kind, w in fields:
        pos -= w
        v = (data.value >> pos) & ((1 << w) - 1)
        if kind == "p":
            continue
        if kind == "b":
            v = to_cond(v != 0) if isinstance(v, SInt) else bool(v)
        elif kind == "s":
            v = v - ite(to_cond(v >= (1 << (w - 1))), 1 << w, 0)
        out.append(v)
    return tuple(out)


def bit_unpack(fmt, native, data):
    if isinstance(data, SBytes):
        fields = _bit_fields(fmt)
        r = None if fields is None else _bits_of(fields, data)
        return native(data.conc()) if r is None else r
    return native(data)


def bit_pack(fmt, native, vals):
    if any(isinstance(v, (SInt, SBool)) for v in vals):
        fields = _bit_fields(fmt)
        if fields is not None and all(k in "ub" for k, _ in fields) and len(fields) == len(vals):
            total = 0
            for (k, w), v in zip(fields, vals):
                if k == "b":
                    v = ite(to_cond(v), 1, 0)
                elif isinstance(v, SBool):
                    v = as_int(v)
                if not (mk_and([to_cond(v >= 0), to_cond(v < (1 << w))])):
                    import bitstruct
                    raise bitstruct.Error("value out of range")
                total = total * (1 << w) + v
            n = sum(w for _, w in fields)
            pad = (-n) % 8
            total = total * (1 << pad)
            if isinstance(total, SInt):
                return SBytes(total, (n + pad) // 8)
            return total.to_bytes((n + pad) // 8, "big")
        return native(*[deep_conc(v) for v in vals])
    return native(*vals)


def int_from_bytes(data, byteorder="big", **k):
    if isinstance(data, SBytes) and byteorder == "big" and not k:
        return data.value
    if isinstance(data, SBytes):
        data = data.conc()
    if isinstance(data, (list, tuple)) and any(isinstance(v, SInt) for v in data):
        return int_from_bytes(sx_bytes(data), byteorder, **k)
    return int.from_bytes(data, byteorder, **k)


# --------------------------------------------------------------- dispatcher
MODELS = {
    int: sx_int, float: sx_float, bool: sx_bool, str: sx_str, len: sx_len, all: sx_all, any: sx_any, min: sx_min,
    max: sx_max, isinstance: sx_isinstance, type: sx_type, set: sx_set, frozenset: sx_frozenset, chr: sx_chr,
    ord: sx_ord, repr: sx_repr, round: sx_round, json.dumps: json_dumps, json.loads: json_loads,
    struct.pack: struct_pack, struct.unpack: struct_unpack, bytes: sx_bytes,
}
_MODEL_IDS = {id(k): v for k, v in MODELS.items()}
# models that must see plain arguments too (generators / objects may hide proxies)
_ALWAYS = {id(f): v for f, v in MODELS.items() if f in (str, len, all, any, min, max, set, frozenset, isinstance, repr, bytes)}

FALLBACKS = {"count": 0}


def _any_proxy(a, k):
    for x in a:
        if isinstance(x, PROXIES):
            return True
    if k:
        for x in k.values():
            if isinstance(x, PROXIES):
                return True
    return False


def _str_method(s, name, a, k):
    if name == "join":
        return join(s, a[0])
    if name == "format":
        return sx_format(s, a, k)
    if name == "format_map":
        return sx_format(s, (), a[0])
    if name in ("index", "find", "rindex", "rfind") and len(a) == 1 and isinstance(a[0], SStr):
        it = expand(a[0].items)
        if len(it) == 1 and name in ("index", "find") and isinstance(it[0], SInt):
            for i, ch in enumerate(s):
                if it[0] == ord(ch):
                    return i
            if name == "index":
                raise ValueError("substring not found")
            return -1
    if name in ("startswith", "endswith", "split", "replace", "count", "partition", "strip", "lstrip", "rstrip") \
            and _any_proxy(a, k):
        return getattr(SStr(list(s)), name)(*a, **k)
    if _any_proxy(a, k):
        return getattr(s, name)(*[deep_conc(x) for x in a], **{q: deep_conc(v) for q, v in k.items()})
    return getattr(s, name)(*a, **k)


_HOF = {id(f) for f in (map, filter, functools.reduce, functools.partial, itertools.starmap, itertools.accumulate,
                        itertools.takewhile, itertools.dropwhile, itertools.filterfalse, itertools.groupby)}
_BOUND = (str, _Pattern, set, frozenset)
_STR_METHODS = {n: getattr(str, n) for n in dir(str) if not n.startswith("__")}


def _through(f):
    """a function handed to another one that will call it: routed through the hooks if it has a model"""
    if id(f) in _MODEL_IDS:
        pass
    elif isinstance(f, types.FunctionType) and f.__name__ not in _STR_METHODS or not callable(f) or f is None:
        return f
    elif not (type(getattr(f, "__self__", None)) in _BOUND or _STR_METHODS.get(getattr(f, "__name__", None)) is f):
        return f
    return lambda *a, **k: sx_c(f, *a, **k)


def _memo_call(f, w, a, k):
    """a function with a cache (functools.lru_cache): the cache compares its arguments symbolically"""
    s = getattr(f, "__self__", None)
    if s is not None:
        a = (s,) + a
    memo = core.EX.memos.setdefault(id(getattr(f, "__func__", f)), [])
    asked = 0
    for a2, k2, r in memo:
        if len(a2) != len(a) or set(k2) != set(k):
            continue
        conds = []
        for x, y in [(x, y) for x, y in zip(a, a2)] + [(k[n], k2[n]) for n in k]:
            e = True if x is y else x == y
            if e is False or e is NotImplemented:
                conds = None
                break
            if e is not True:
                conds.append(e)
        if conds is None:
            continue
        if conds and asked >= 3:
            continue        # computed again: the functions of the project under a cache are pure
        asked += bool(conds)
        if all(map(bool, conds)):
            return r
    r = w(*a, **k)
    memo.append((a, k, r))
    return r


def sx_c(f, *a, **k):
    """call f"""
    i = id(f)
    if i in _HOF:
        a = tuple([_through(x) for x in a[:2]]) + a[2:]
    if k and "key" in k:
        k["key"] = _through(k["key"])
    m = _ALWAYS.get(i)
    if m is not None:
        return m(*a, **k)
    s = getattr(f, "__self__", None)
    if s is not None and not isinstance(s, types.ModuleType):
        ts = type(s)
        if ts is str:
            n = f.__name__
            if n in ("join", "format", "format_map") or _any_proxy(a, k):
                return _str_method(s, n, a, k)
            return f(*a, **k)
        if ts is _Pattern:
            if _any_proxy(a, k):
                n = f.__name__
                if n in ("sub", "subn") and len(a) >= 2:
                    return f(*[deep_conc(x) for x in a], **k)
                return re_method(s, "finditer" if n == "scanner" else n, a, k)
            return f(*a, **k)
        if ts in (set, frozenset) and a and any(isinstance(x, (SSet, SInt)) or has_proxy(x, 1) for x in a):
            n = f.__name__
            if n in ("union", "difference", "intersection", "symmetric_difference", "issubset", "issuperset",
                     "isdisjoint"):
                return getattr(SSet.of(list(s)), n)(*a, **k)
            return f(*a, **k)
        if s is int and f.__name__ == "from_bytes":
            return int_from_bytes(*a, **k)
        if id(s) in _bit_formats:
            fmt = _bit_formats[id(s)][0]
            if f.__name__ in ("unpack", "unpack_from"):
                return bit_unpack(fmt, f, *a, **k)
            if f.__name__ == "pack":
                return bit_pack(fmt, f, a)
    if _any_proxy(a, k):
        m = _MODEL_IDS.get(i)
        if m is not None:
            return m(*a, **k)
        w = getattr(f, "__wrapped__", None)
        if w is not None and hasattr(f, "cache_clear"):
            return _memo_call(f, w, a, k)
        n = getattr(f, "__name__", None)
        if n in _STR_METHODS and _STR_METHODS[n] is f:
            return getattr(a[0], n)(*a[1:], **k) if isinstance(a[0], SStr) else _str_method(a[0], n, a[1:], k)
        fm = getattr(f, "__module__", None)
        if fm is not None and (fm.startswith("loguru") or fm == "logging"):
            return None     # nothing listens
        if fm == "re" and f.__name__ in ("match", "search", "fullmatch", "finditer", "findall", "split"):
            return re_method(re.compile(conc_str(a[0]), *a[2:3]), f.__name__, (a[1],), k)
        if fm in ("urllib.parse",) and isinstance(f, types.FunctionType):
            from .instrument import library
            return getattr(library(fm), f.__name__)(*a, **k)
        if _foreign(f, fm) and (any(isinstance(x, SStr) for x in a) or any(isinstance(x, SStr) for x in k.values())):
            FALLBACKS["count"] += 1
            return f(*[conc_str(x) for x in a], **{q: conc_str(v) for q, v in k.items()})
        return f(*a, **k)
    if i == _ID_BITCOMPILE[0]:
        return bit_compile(*a, **k)
    if a and any(isinstance(x, SBytes) for x in a):
        m = _MODEL_IDS.get(i)
        if m is not None:
            return m(*a, **k)
        return f(*[x.conc() if isinstance(x, SBytes) else x for x in a], **k)
    m = _MODEL_IDS.get(i)
    if m is not None and (f is json.dumps):
        return m(*a, **k)
    return f(*a, **k)


_ID_BITCOMPILE = [None]
_CONTAINER_OK = ("collections", "builtins", "itertools", "functools", "operator", "argparse", "copy", "_collections",
                 "enum", "bisect", "_bisect", "_operator", "_functools", "heapq", "_heapq", "dataclasses", "typing", "types",
                 "contextlib", "_contextlib", "weakref", "_weakref", "abc")


def _foreign(f, fm):
    """a function outside the project that would look inside a string argument"""
    if fm is None:
        return False
    if fm.startswith(("mahjong", "symx", "props", "harness", "symlib")):
        return False
    root = fm.split(".")[0]
    if root in _CONTAINER_OK or root.startswith("namedtuple_"):
        return False
    if fm.startswith("xml.etree"):
        return False
    return True


def install():
    for n, f in (("_sx_c", sx_c), ("_sx_in", sx_in), ("_sx_ni", sx_not_in), ("_sx_not", sx_not), ("_sx_mod", sx_mod),
                 ("_sx_fstr", sx_fstr), ("_sx_fmt", sx_fmt), ("_sx_setd", sx_setdisplay), ("_sx_set", sx_set), ("_sx_setf", sx_setf),
                 ("_sx_native", deep_conc)):
        setattr(builtins, n, f)
    try:
        import bitstruct
        _ID_BITCOMPILE[0] = id(bitstruct.compile)
    except ImportError:
        pass
