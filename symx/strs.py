"""Symbolic strings: a list of concrete characters, symbolic code points and
decimal renderings of symbolic integers; and a regex matcher over them."""
import re
import sre_parse
import sre_constants as sc

from . import core
from .core import SInt, SBool, mk_and, mk_or, mk_eq, mk_not, mk_le, Unsupported


class Dec:
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x


class SDec(Dec):
    """decimal rendering of an integer of undecided sign; only inside SStr.raw"""
    __slots__ = ()


def resolve(items):
    """decide the signs"""
    out = []
    for it in items:
        if type(it) is SDec:
            if it.x >= 0:
                out.append(Dec(it.x))
            else:
                out += ["-", Dec(-it.x)]
        else:
            out.append(it)
    return out


def mkraw(items):
    for it in items:
        if type(it) is SDec:
            r = SStr(items)
            r.sg = True
            return r
    return mkstr(items)


def raw_of(s):
    return s.raw if isinstance(s, SStr) else list(s)


def dec_str(x):
    """str() of an integer value"""
    if isinstance(x, SBool):
        return str(core.EX.branch(x))
    if not isinstance(x, SInt):
        return str(x)
    lo, hi = core.EX.ival(x)
    if lo == hi:
        return str(lo)
    if lo >= 0:
        return SStr([Dec(x)])
    return mkraw([SDec(x)])


def float_str(f):
    n, d = f.num, f.den
    if d == 1:
        s = dec_str(n)
        return s + ".0"
    return repr(f.conc())


def mkstr(items):
    for it in items:
        if not isinstance(it, str):
            return SStr(items)
    return "".join(items)


def items_of(s):
    return s.items if isinstance(s, SStr) else list(s)


def expand_dec(d):
    x = d.x
    if not isinstance(x, SInt):
        return list(str(x))
    n = 1
    lo, hi = core.EX.ival(x)
    maxn = len(str(hi))
    while n < maxn:
        if x < 10 ** n:
            break
        n += 1
    out = []
    for i in range(n - 1, -1, -1):
        q = x // (10 ** i)
        if i < n - 1:
            q = q % 10
        elif isinstance(q, SInt):
            l, h = max(q.lo, 0 if n == 1 else 1), min(q.hi, 9)
            q = l if l == h else SInt(q.t, q.c, l, h)
        out.append(code_item(q + 48))
    return out


def code_item(c):
    return c if isinstance(c, SInt) else chr(c)


def expand(items):
    for it in items:
        if isinstance(it, Dec):
            break
    else:
        return items
    out = []
    for it in items:
        if isinstance(it, Dec):
            out.extend(expand_dec(it))
        else:
            out.append(it)
    return out


def conc(s):
    """concretise (case split) a string"""
    if not isinstance(s, SStr):
        return s
    out = []
    for it in s.items:
        if isinstance(it, str):
            out.append(it)
        elif isinstance(it, Dec):
            out.append(str(core.EX.concretize(it.x)))
        else:
            out.append(chr(core.EX.concretize(it)))
    return "".join(out)


def char_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    ca = ord(a) if isinstance(a, str) else a
    cb = ord(b) if isinstance(b, str) else b
    return mk_eq(ca - cb)


def _nondigit_or_end(items, i):
    if i >= len(items):
        return True
    it = items[i]
    if isinstance(it, str):
        return not ("0" <= it <= "9")
    if isinstance(it, Dec):
        return False
    return it.lo > 57 or it.hi < 48


_INT = re.compile("(0|-?[1-9][0-9]*)\\Z")


def _sdec_eq(a, b):
    """a is one rendering of undecided sign"""
    x = a.raw[0].x
    if isinstance(b, str):
        return mk_eq(x - int(b)) if _INT.match(b) else False
    if len(b.raw) == 1 and isinstance(b.raw[0], Dec):
        return mk_eq(x - b.raw[0].x)
    return None


def str_eq(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SStr) and x.sg and len(x.raw) == 1:
            r = _sdec_eq(x, y)
            if r is not None:
                return r
    a, b = items_of(a), items_of(b)
    conds = []
    i = j = 0
    while True:
        if i >= len(a) or j >= len(b):
            if i >= len(a) and j >= len(b):
                return mk_and(conds)
            # leftovers are non-empty
            return False
        x, y = a[i], b[j]
        if isinstance(x, Dec) and isinstance(y, Dec) and _nondigit_or_end(a, i + 1) and _nondigit_or_end(b, j + 1):
            conds.append(mk_eq(x.x - y.x))
            i += 1
            j += 1
        elif isinstance(x, Dec) or isinstance(y, Dec):
            if isinstance(y, Dec) and not isinstance(x, Dec):
                a, b, i, j, x, y = b, a, j, i, y, x
            if isinstance(y, Dec) or not _nondigit_or_end(a, i + 1):
                return mk_and(conds + [str_eq(mkstr(expand(a[i:])), mkstr(expand(b[j:])))])
            k = j
            while k < len(b) and isinstance(b[k], str) and "0" <= b[k] <= "9":
                k += 1
            if not _nondigit_or_end(b, k):
                return mk_and(conds + [str_eq(mkstr(expand(a[i:])), mkstr(expand(b[j:])))])
            run = "".join(b[j:k])
            if not run or (len(run) > 1 and run[0] == "0"):
                if not run and k < len(b) and not isinstance(b[k], str) and not isinstance(b[k], Dec):
                    return mk_and(conds + [str_eq(mkstr(expand(a[i:])), mkstr(expand(b[j:])))])
                return False
            conds.append(mk_eq(x.x - int(run)))
            i += 1
            j = k
        else:
            c = char_eq(x, y)
            if c is False:
                return False
            conds.append(c)
            i += 1
            j += 1


class SStr:
    __slots__ = ("raw", "sg")

    def __init__(self, items):
        self.raw = items
        self.sg = False

    @property
    def items(self):
        if self.sg:
            self.raw = resolve(self.raw)
            self.sg = False
        return self.raw

    @items.setter
    def items(self, v):
        self.raw = v
        self.sg = False

    # --- structure
    def __len__(self):
        self.items = expand(self.items)
        return len(self.items)

    def __iter__(self):
        self.items = expand(self.items)
        return iter([mkstr([c]) for c in self.items])

    def __getitem__(self, i):
        self.items = expand(self.items)
        if isinstance(i, slice):
            return mkstr(self.items[i])
        return mkstr([self.items[i]])

    def __bool__(self):
        return len(self.items) > 0

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return mkraw(self.raw + raw_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SStr)):
            return mkraw(raw_of(o) + self.raw)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.items * core.EX.concretize(n))
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return str_eq(self, o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    def _lt(self, o, strict):
        a, b = expand(self.items), expand(items_of(o))
        for x, y in zip(a, b):
            if core.to_cond(char_eq(x, y)) is True:
                continue
            cx = ord(x) if isinstance(x, str) else x
            cy = ord(y) if isinstance(y, str) else y
            if cx == cy:
                continue
            return cx < cy
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._lt(o, True) if isinstance(o, (str, SStr)) else NotImplemented

    def __le__(self, o):
        return self._lt(o, False) if isinstance(o, (str, SStr)) else NotImplemented

    def __gt__(self, o):
        return mk_not(self._lt(o, False)) if isinstance(o, (str, SStr)) else NotImplemented

    def __ge__(self, o):
        return mk_not(self._lt(o, True)) if isinstance(o, (str, SStr)) else NotImplemented

    def __hash__(self):
        return hash(conc(self))

    def __str__(self):
        return conc(self)

    def __repr__(self):
        return repr(conc(self))

    def __format__(self, spec):
        return format(conc(self), spec)

    def __contains__(self, o):
        return core.to_cond(str_contains(self, o))

    def __mod__(self, args):
        return conc(self) % args

    def __int__(self):
        r = to_int(self)
        return core.EX.concretize(r) if isinstance(r, SInt) else r

    def __float__(self):
        return float(conc(self))

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    # --- methods with a model
    def startswith(self, p, *rest):
        if rest:
            return conc(self).startswith(p, *rest)
        if isinstance(p, tuple):
            return mk_or([core.to_cond(self.startswith(q)) for q in p])
        pi = items_of(p)
        a = self.items
        n = 0
        conds = []
        for x in pi:
            if n >= len(a):
                return False
            if isinstance(a[n], Dec) or isinstance(x, Dec):
                self.items = a = expand(a)
                if isinstance(x, Dec):
                    return self.startswith(mkstr(expand(pi)))
                if n >= len(a):
                    return False
            conds.append(char_eq(a[n], x))
            n += 1
        return mk_and(conds)

    def endswith(self, p, *rest):
        if rest:
            return conc(self).endswith(p, *rest)
        if isinstance(p, tuple):
            return mk_or([core.to_cond(self.endswith(q)) for q in p])
        pi = expand(items_of(p))
        if not pi:
            return True
        a = self.items
        if len(pi) <= len(a) and not any(isinstance(x, Dec) for x in a[len(a) - len(pi):]):
            return mk_and([char_eq(x, y) for x, y in zip(a[len(a) - len(pi):], pi)])
        self.items = a = expand(a)
        if len(pi) > len(a):
            return False
        return mk_and([char_eq(x, y) for x, y in zip(a[len(a) - len(pi):], pi)])

    def split(self, sep=None, maxsplit=-1):
        if sep is None or isinstance(sep, SStr) or sep == "":
            return _split_ws(self) if sep is None and maxsplit == -1 else conc(self).split(sep, maxsplit)
        if any("0" <= c <= "9" for c in sep):
            self.items = expand(self.items)
        a = self.items if "-" in sep else self.raw
        out, cur, i, n = [], [], 0, 0
        while i < len(a):
            if (maxsplit < 0 or n < maxsplit) and _match_at(a, i, sep):
                out.append(mkraw(cur))
                cur = []
                i += len(sep)
                n += 1
            else:
                cur.append(a[i])
                i += 1
        out.append(mkraw(cur))
        return out

    def partition(self, sep):
        r = self.split(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (r[0], "", "")

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is not None and maxsplit < 0:
            return self.split(sep)
        return conc(self).rsplit(sep, maxsplit)

    def find(self, sub, *rest):
        if isinstance(sub, SStr):
            return conc(self).find(conc(sub), *rest)
        self.items = a = expand(self.items)
        lo, hi, _ = slice(*(tuple(rest) + (None,) if len(rest) == 1 else tuple(rest) or (None, None))).indices(len(a))
        for i in range(lo, hi - len(sub) + 1):
            if _match_at(a, i, sub):
                return i
        return -1

    def isascii(self):
        for it in self.items:
            if isinstance(it, str):
                if not it.isascii():
                    return False
            elif not isinstance(it, Dec) and not (it < 128):
                return False
        return True

    def index(self, sub, *rest):
        r = self.find(sub, *rest)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, *rest):
        if rest or len(sub) != 1:
            return conc(self).count(conc(sub), *rest)
        self.items = a = expand(self.items)
        r = 0
        for x in a:
            r = r + core.ite(core.to_cond(char_eq(x, sub)), 1, 0)
        return r

    def replace(self, old, new, *rest):
        if rest or isinstance(old, SStr) or old == "":
            return conc(self).replace(conc(old), conc(new), *rest)
        parts = self.split(old)
        return join(new, parts)

    def join(self, it):
        return join(self, it)

    def _strip(self, chars, left, right):
        a = list(self.items)

        def isws(it):
            if isinstance(it, Dec):
                return False if chars is None or not any(c.isdigit() for c in chars) else None
            if isinstance(it, str):
                return it.isspace() if chars is None else it in chars
            if chars is None:
                return bool(_ws_cond(it))
            return bool(mk_or([char_eq(it, c) for c in chars]))
        if chars is not None and any("0" <= c <= "9" for c in chars):
            a = expand(a)
        i, j = 0, len(a)
        while left and i < j and isws(a[i]):
            i += 1
        while right and j > i and isws(a[j - 1]):
            j -= 1
        return mkstr(a[i:j])

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def isdigit(self):
        if not self.items:
            return False
        conds = []
        for it in self.items:
            if isinstance(it, Dec):
                continue
            if isinstance(it, str):
                if not it.isdigit():
                    return False
            elif it.hi < 128:
                conds.append(mk_and([mk_le(48 - it), mk_le(it - 57)]))
            else:
                return conc(self).isdigit()
        return mk_and(conds)
    isdecimal = isdigit
    isnumeric = isdigit

    def lower(self):
        if all(isinstance(i, (str, Dec)) for i in self.items):
            return mkstr([i if isinstance(i, Dec) else i.lower() for i in self.items])
        return conc(self).lower()

    def upper(self):
        if all(isinstance(i, (str, Dec)) for i in self.items):
            return mkstr([i if isinstance(i, Dec) else i.upper() for i in self.items])
        return conc(self).upper()

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)

        def generic(*a, **k):
            return getattr(conc(self), name)(*[conc(x) for x in a], **k)
        return generic


def _ws_cond(it):
    return mk_or([char_eq(it, c) for c in " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u3000"])


def _split_ws(s):
    out, cur = [], []
    for it in s.items:
        ws = it.isspace() if isinstance(it, str) else (False if isinstance(it, Dec) else bool(_ws_cond(it)))
        if ws:
            if cur:
                out.append(mkstr(cur))
            cur = []
        else:
            cur.append(it)
    if cur:
        out.append(mkstr(cur))
    return out


def _match_at(a, i, sub):
    """does concrete sub occur at item i (sub without digits, or a expanded)"""
    conds = []
    for k, ch in enumerate(sub):
        if i + k >= len(a):
            return False
        it = a[i + k]
        if isinstance(it, Dec):
            return False
        c = char_eq(it, ch)
        if c is False:
            return False
        conds.append(c)
    return bool(mk_and(conds))


def str_contains(hay, needle):
    """needle in hay, both possibly symbolic -> condition"""
    if not isinstance(needle, (str, SStr)):
        raise TypeError("'in <string>' requires string as left operand")
    h = expand(items_of(hay))
    n = expand(items_of(needle))
    if not n:
        return True
    alts = []
    for i in range(len(h) - len(n) + 1):
        c = mk_and([core.to_cond(char_eq(h[i + k], n[k])) for k in range(len(n))])
        if c is True:
            return True
        alts.append(c)
    return mk_or(alts)


def join(sep, it):
    parts = list(it)
    out = []
    si = raw_of(sep)
    for k, p in enumerate(parts):
        if not isinstance(p, (str, SStr)):
            raise TypeError("sequence item %d: expected str instance" % k)
        if k:
            out.extend(si)
        out.extend(raw_of(p))
    return mkraw(out)


def to_int(s, base=10):
    """int(str) on a symbolic string"""
    if base != 10:
        return int(conc(s), core.EX.concretize(base))
    if s.sg and all(c == "0" for c in s.raw[1:]) and type(s.raw[0]) is SDec:
        return s.raw[0].x * 10 ** (len(s.raw) - 1)
    s2 = s.strip()
    if isinstance(s2, str):
        return int(s2)
    items = s2.items
    neg = False
    if items and not isinstance(items[0], Dec):
        if isinstance(items[0], str):
            if items[0] in "+-":
                neg = items[0] == "-"
                items = items[1:]
        elif bool(char_eq(items[0], "-")):
            neg = True
            items = items[1:]
        elif bool(char_eq(items[0], "+")):
            items = items[1:]
    if len(items) == 1 and isinstance(items[0], Dec):
        v = items[0].x
        return -v if neg else v
    if len(items) > 1 and isinstance(items[0], Dec) and all(isinstance(c, str) and "0" <= c <= "9" for c in items[1:]):
        v = items[0].x * 10 ** (len(items) - 1) + int("".join(items[1:]))
        return -v if neg else v
    items = expand(items)
    if not items:
        raise ValueError("invalid literal for int()")
    v = 0
    for it in items:
        if isinstance(it, str):
            if not it.isdecimal():
                if it == "_":
                    return int(conc(s))
                raise ValueError("invalid literal for int()")
            d = int(it)
        else:
            if it.hi >= 128 or (it.lo <= 95 <= it.hi and bool(char_eq(it, "_"))):
                return int(conc(s))
            if not bool(mk_and([mk_le(48 - it), mk_le(it - 57)])):
                raise ValueError("invalid literal for int()")
            d = it - 48
        v = v * 10 + d
    return -v if neg else v


def to_float(s):
    if s.sg and len(s.raw) == 1:
        return core.SFloat(s.raw[0].x, 1)
    s2 = s.strip()
    if isinstance(s2, str):
        return float(s2)
    items = s2.items
    neg = False
    if items and items[0] == "-" and isinstance(items[0], str):
        neg = True
        items = items[1:]
    if len(items) == 1 and isinstance(items[0], Dec):
        v = items[0].x
        return core.SFloat(-v if neg else v, 1)
    ok = all(isinstance(i, Dec) or (isinstance(i, SInt) and i.lo >= 48 and i.hi <= 57)
             or (isinstance(i, str) and (i in "0123456789.")) for i in items)
    if ok:
        dots = [k for k, i in enumerate(items) if isinstance(i, str) and i == "."]
        if len(dots) <= 1 and len(items) > len(dots):
            if dots:
                a, b = items[:dots[0]], items[dots[0] + 1:]
            else:
                a, b = items, []
            b = expand(b)
            v = to_int(mkstr(a + b)) if isinstance(mkstr(a + b), SStr) else int(mkstr(a + b))
            return core.SFloat(-v if neg else v, 10 ** len(b))
    return float(conc(s))


# ------------------------------------------------------------------ regex
class NeedExpand(Exception):
    pass


_parsed = {}


def _parse(pattern):
    p = _parsed.get(pattern)
    if p is None:
        t = sre_parse.parse(pattern.pattern, pattern.flags & ~re.UNICODE)
        p = _parsed[pattern] = t
    return p


_CATS = {sc.CATEGORY_DIGIT: ("digit", False), sc.CATEGORY_NOT_DIGIT: ("digit", True),
         sc.CATEGORY_SPACE: ("space", False), sc.CATEGORY_NOT_SPACE: ("space", True),
         sc.CATEGORY_WORD: ("word", False), sc.CATEGORY_NOT_WORD: ("word", True)}


def _cat_test(name, ch):
    if name == "digit":
        return ch.isdecimal()
    if name == "space":
        return ch.isspace()
    return ch.isalnum() or ch == "_"


def _class_cond(node, it):
    """condition that item `it` (char or code) matches single-char node"""
    op, av = node
    if op is sc.LITERAL:
        return char_eq(it, chr(av))
    if op is sc.NOT_LITERAL:
        return mk_not(char_eq(it, chr(av)))
    if op is sc.ANY:
        return mk_not(char_eq(it, "\n"))
    if op is sc.IN:
        neg = False
        alts = []
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                alts.append(char_eq(it, chr(a)))
            elif o is sc.RANGE:
                if isinstance(it, str):
                    alts.append(a[0] <= ord(it) <= a[1])
                else:
                    alts.append(mk_and([mk_le(a[0] - it), mk_le(it - a[1])]))
            elif o is sc.CATEGORY:
                name, n = _CATS[a]
                ch = it if isinstance(it, str) else None
                if ch is None:
                    if it.hi < 128 and name == "digit":
                        c = mk_and([mk_le(48 - it), mk_le(it - 57)])
                        alts.append(mk_not(c) if n else c)
                        continue
                    ch = chr(core.EX.concretize(it))
                alts.append(_cat_test(name, ch) != n)
            else:
                raise Unsupported("regex class %s" % o)
        c = mk_or(alts)
        return mk_not(c) if neg else c
    raise Unsupported("regex op %s" % op)


_SINGLE = (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN)


def _all_digits(node):
    return all(_class_cond(node, d) is True for d in "0123456789")


def _no_digits(node):
    return all(_class_cond(node, d) is False for d in "0123456789")


class _M:
    def __init__(self, items):
        self.items = items
        self.n = len(items)

    def seq(self, nodes, k, pos, groups, cont):
        if k == len(nodes):
            return cont(pos, groups)
        op, av = nodes[k]
        items = self.items
        if op in _SINGLE:
            if pos >= self.n:
                return None
            it = items[pos]
            if isinstance(it, Dec):
                if _no_digits((op, av)):
                    return None
                raise NeedExpand()
            if core.to_cond(_class_cond((op, av), it)):
                return self.seq(nodes, k + 1, pos + 1, groups, cont)
            return None
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                ok = pos == 0
            elif av is sc.AT_END_STRING:
                ok = pos == self.n
            elif av is sc.AT_END:
                ok = pos == self.n or (pos == self.n - 1 and not isinstance(items[pos], Dec)
                                       and bool(core.to_cond(char_eq(items[pos], "\n"))))
            else:
                raise Unsupported("regex anchor")
            return self.seq(nodes, k + 1, pos, groups, cont) if ok else None
        if op is sc.SUBPATTERN:
            g, addf, delf, sub = av
            if addf or delf:
                raise Unsupported("regex flags")

            def after(p2, gr2):
                if g is not None:
                    gr2 = dict(gr2)
                    gr2[g] = (pos, p2)
                return self.seq(nodes, k + 1, p2, gr2, cont)
            return self.seq(list(sub), 0, pos, groups, after)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, groups, lambda p2, g2: self.seq(nodes, k + 1, p2, g2, cont))
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is sc.MAX_REPEAT
            unbounded = hi is sc.MAXREPEAT
            if greedy and len(sub) == 1 and sub[0][0] in _SINGLE:
                # iterative greedy scan
                stops = [pos]
                p = pos
                while p < self.n and (unbounded or len(stops) - 1 < hi):
                    it = items[p]
                    if isinstance(it, Dec):
                        if _no_digits(sub[0]):
                            break
                        if not (unbounded and lo <= 1 and _all_digits(sub[0])):
                            raise NeedExpand()
                    elif not core.to_cond(_class_cond(sub[0], it)):
                        break
                    p += 1
                    stops.append(p)
                while len(stops) - 1 >= lo:
                    r = self.seq(nodes, k + 1, stops[-1], groups, cont)
                    if r is not None:
                        return r
                    q = stops.pop()
                    if q > pos and isinstance(items[q - 1], Dec):
                        raise NeedExpand()
                return None

            def rep(count, p, gr):
                def more(p2, g2):
                    if p2 == p and count >= lo:
                        return None
                    return rep(count + 1, p2, g2)
                if greedy:
                    if unbounded or count < hi:
                        r = self.seq(sub, 0, p, gr, more)
                        if r is not None:
                            return r
                    if count >= lo:
                        return self.seq(nodes, k + 1, p, gr, cont)
                    return None
                if count >= lo:
                    r = self.seq(nodes, k + 1, p, gr, cont)
                    if r is not None:
                        return r
                if unbounded or count < hi:
                    return self.seq(sub, 0, p, gr, more)
                return None
            return rep(0, pos, groups)
        raise Unsupported("regex op %s" % op)


class SMatch:
    def __init__(self, pattern, s, items, start, end, groups):
        self.re = pattern
        self.string = s
        self._items = items
        self._start = start
        self._end = end
        self._groups = groups

    def _span(self, g):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g == 0:
            return self._start, self._end
        if g > self.re.groups:
            raise IndexError("no such group")
        return self._groups.get(g, (-1, -1))

    def _one(self, g, default=None):
        a, b = self._span(g)
        return default if a < 0 else mkstr(self._items[a:b])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple([self._one(g) for g in gs])

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple([self._one(g, default) for g in range(1, self.re.groups + 1)])

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    def _flat(self):
        if any(isinstance(i, Dec) for i in self._items):
            raise Unsupported("match position over decimal")

    def span(self, g=0):
        self._flat()
        return self._span(g)

    def start(self, g=0):
        self._flat()
        return self._span(g)[0]

    def end(self, g=0):
        self._flat()
        return self._span(g)[1]

    def __bool__(self):
        return True


def _match_items(tree, items, start, full):
    m = _M(items)
    nodes = list(tree)

    def done(p, g):
        if full and p != m.n:
            return None
        return p, g
    return m.seq(nodes, 0, start, {}, done)


def re_method(pattern, name, args, kwargs):
    """pattern.<name>(symbolic string)"""
    s = args[0] if args else kwargs["string"]
    simple = len(args) == 1 and not kwargs and not (pattern.flags & ~re.UNICODE)
    if simple and name in ("match", "fullmatch", "search", "finditer", "findall", "split"):
        tree = _parse(pattern)
        while True:
            try:
                return _run(pattern, tree, name, s)
            except NeedExpand:
                if not any(isinstance(i, Dec) for i in s.items):
                    raise core.EngineError("regex expansion")
                s = SStr(expand(s.items))
    return getattr(pattern, name)(*[conc(a) for a in args], **{k: conc(v) for k, v in kwargs.items()})


def _first_no_digit(tree):
    for node in tree:
        if node[0] in _SINGLE:
            return _no_digits(node)
        if node[0] is sc.AT:
            continue
        return False
    return False


def _run(pattern, tree, name, s):
    items = s.items
    if name in ("match", "fullmatch"):
        r = _match_items(tree, items, 0, name == "fullmatch")
        return None if r is None else SMatch(pattern, s, items, 0, r[0], r[1])
    out = []
    pos = 0
    n = len(items)
    while pos <= n:
        r = _match_items(tree, items, pos, False)
        if r is not None:
            out.append(SMatch(pattern, s, items, pos, r[0], r[1]))
            if name == "search":
                break
            if r[0] > pos:
                pos = r[0]
            else:
                pos += 1
        else:
            if pos < n and isinstance(items[pos], Dec) and not _first_no_digit(tree):
                raise NeedExpand()
            pos += 1
    if name == "search":
        return out[0] if out else None
    if name == "finditer":
        return iter(out)
    if name == "findall":
        return [m.groups() if pattern.groups > 1 else m.group(pattern.groups) for m in out]
    # split
    res, last = [], 0
    for m in out:
        res.append(mkstr(items[last:m._start]))
        res.extend(m.groups())
        last = m._end
    res.append(mkstr(items[last:]))
    return res
