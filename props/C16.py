"""Category indexing."""
import math
from symx.harness import Case

FUNCTIONS = ["SubCategory.category", "SubCategory.index", "SubCategory.__len__", "MixedCategory.category", "MixedCategory.index",
             "MixedCategory.__len__", "MixedCategory._accumulate", "flat_named_tuple_class"]
BOUNDS = ["nested categories of depth 1..3 with every radix 1..5 (quick) / 1..7 (thorough), all indices symbolic",
          "nested categories of up to six levels and radices up to 200, mixes of up to six parts (fixed shapes, all indices symbolic)", "unbounded head category: index symbolic 0..2000", "mixed categories of 1..3 parts, each part any of 7 shapes (one nested mixed), all indices symbolic"]
OUTSIDE = ["len() of an unbounded category and mixes containing one (Python's len() cannot be infinite, building such a mix raises TypeError)", "radices above the bound; mixed categories of more than 3 parts"]
ASSUMES = []


def digits(i, totals):
    """lexicographic numbering: most significant first"""
    out = []
    for t in reversed(totals[1:]):
        out.append(i % t)
        i = i // t
    out.append(i if totals[0] == -1 else i % totals[0])
    return tuple(reversed(out))


def number(t, totals):
    n = 0
    for x, r in zip(t, totals):
        n = n * r + x
    return n


def eq_tuple(h, a, b):
    a, b = tuple(a), tuple(b)
    return h.and_(len(a) == len(b), h.all_([x == y for x, y in zip(a, b)])) if len(a) == len(b) else False


def lex_less(h, a, b):
    """a < b lexicographically"""
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = h.or_(x < y, h.and_(x == y, r))
    return r


def sub(h, depth, top, head):
    C = h.mod("mahjong.record.category")
    totals = list(depth) if isinstance(depth, tuple) else [h.value(h.int("r%d" % k, 1, top)) for k in range(depth)]
    depth = len(totals)
    if head:
        totals[0] = -1
    named = h.branch(h.bool("named"))
    c = C.SubCategory(*totals, caption="cat", names=["f%d" % k for k in range(depth)]) if named else C.SubCategory(*totals)
    n = 1
    for t in totals:
        n *= t
    if head:
        hi = 2000
    else:
        h.check(len(c) == n, "length is the number of tuples")
        hi = n - 1
    i = h.int("i", 0, hi)
    t = c.category(i)
    h.check(eq_tuple(h, t, digits(i, totals)), "category gives the i-th tuple")
    if named:
        h.check(h.all_([getattr(t, "f%d" % k) == v for k, v in enumerate(digits(i, totals))]), "named fields")
    h.check(c.index(t) == i, "index inverts category")
    if not head and n > 1:
        j = h.int("j", 0, hi)
        h.check((i < j) == lex_less(h, t, c.category(j)), "order is lexicographic")
    x = tuple([h.int("x%d" % k, 0, (r - 1) if r != -1 else 60) for k, r in enumerate(totals)])
    h.check(c.index(x) == number(x, totals), "index of a tuple")
    h.check(eq_tuple(h, c.category(c.index(x)), x), "category inverts index")
    h.obs([list(t), i])


SHAPES = [[3], [2, 4], [5, 2], [2, 3, 2], [1], [4, 4], "mixed", [100], [2, 1, 3, 2], [3, 70]]
ANY = 7


def make(C, shape, named):
    if shape == "mixed":
        return C.MixedCategory([C.SubCategory(2), C.SubCategory(3)]) if not named else C.MixedCategory(
            [C.SubCategory(2, caption="a", names=["x"]), C.SubCategory(3, caption="b", names=["x"])], "inner", "which")
    if named:
        return C.SubCategory(*shape, caption="s%d" % len(shape), names=["d%d" % k for k in range(len(shape))])
    return C.SubCategory(*shape)


def size(shape):
    if shape == "mixed":
        return 5
    n = 1
    for r in shape:
        n *= r
    return n


def tuple_of(h, shape, i):
    if shape == "mixed":
        if h.branch(i < 2):
            return (0, i)
        return (1, i - 2)
    return digits(i, shape)


def mixed(h, parts, named):
    C = h.mod("mahjong.record.category")
    shapes = [SHAPES[parts[k] if isinstance(parts, tuple) else h.value(h.int("p%d" % k, 0, ANY - (2 if named else 1)))] for k in range(len(parts) if isinstance(parts, tuple) else parts)]
    cats = [make(C, s, named) for s in shapes]
    m = C.MixedCategory(cats, "mix", "part") if named else C.MixedCategory(cats)
    sizes = [size(s) for s in shapes]
    total = sum(sizes)
    h.check(len(m) == total, "length is the number of tuples")
    i = h.int("i", 0, total - 1)
    # which part
    base, k = 0, 0
    while h.branch(i >= base + sizes[k]):
        base += sizes[k]
        k += 1
    want = (k,) + tuple(tuple_of(h, shapes[k], i - base))
    got = m.category(i)
    h.check(eq_tuple(h, got, want), "category gives the i-th tuple")
    h.check(m.index(want) == i, "index inverts category")
    if named:
        h.check(h.all_([got.part == k] + [getattr(got, "d%d" % n) == v for n, v in enumerate(want[1:])]), "named fields")
    h.obs([list(got), i])


def cases(tier):
    top = 7 if tier == "thorough" else 4
    r = [Case("sub%d%s" % (d, "u" if head else ""), sub, d, top if d < 3 else top - 1, head) for d in (1, 2, 3) for head in (False, True)]
    r += [Case("mixed%d%s" % (p, "n" if named else ""), mixed, p, named) for p in (1, 2, 3) for named in (False, True) if p < 3 or tier == "thorough" or not named]
    r += [Case("sub.%s%s" % ("x".join(map(str, t)), "u" if head else ""), sub, t, 0, head) for t in ((4, 100, 70), (200,), (2, 2, 2, 2, 2, 2), (3, 1, 65, 2, 1)) for head in (False, True)]
    r += [Case("mixed.%s%s" % ("".join(map(str, p)), "n" if named else ""), mixed, p, named) for p in ((0, 0, 0, 0, 0), (1, 8, 9, 7, 3, 0), (7, 7, 9, 1), (8, 9)) for named in (False, True)]
    return r
