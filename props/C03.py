"""Tile multiset algebra."""
from symx.harness import Case
from .common import FACES, INDEX, SUITS, mk_tile, face_of, fidx, prewarm, sym_tile

FUNCTIONS = ["TileSet.__add__", "TileSet.__sub__", "TileSet.__and__", "TileSet.__or__", "TileSet.contains", "TileSet.exclude", "TileSet.__len__",
             "TileSet.tiles", "TileSet.re_sort", "collections.Counter operators"]
BOUNDS = ["two operands over universes of 3 (quick) / 4 (thorough) faces plus a red five key, every subset of keys present, symbolic counts 0..4 each",
          "insertion order of the second operand ascending and descending", "any two tiles of all 37 with symbolic counts 1..4"]
ASSUMES = ["counts are non-negative (multisets)"]
OUTSIDE = ["negative counts"]
warm = prewarm


def build(h, name, faces, hi, order=1, zero=False):
    ts = h.mod("mahjong.container.set").TileSet()
    spec = {}
    for f in faces[::order]:   # a red five key in one operand meets a plain five key in the other
        n = h.int("%s.%d%s" % (name, f[0], f[1]), 0, hi)
        k = face_of(mk_tile(h, f))
        if h.branch(n >= 1):
            ts[mk_tile(h, f)] = n
            spec[k] = n
        elif zero:
            ts[mk_tile(h, f)] = 0
    return ts, spec


def counts(ts):
    r = {}
    for t, n in ts.items():
        k = face_of(t)
        r[k] = r.get(k, 0) + n
    return r


def same(h, ts, want, keys):
    got = counts(ts)
    conds = [got.get(k, 0) == want(k) for k in keys]
    conds += [n == 0 for k, n in got.items() if k not in keys]
    return h.all_(conds)


def algebra(h, faces, hi, order, ops, zero=False):
    a, sa = build(h, "a", faces, hi, 1, zero == "a")
    b, sb = build(h, "b", [(5 if f[0] == 0 else f[0], f[1]) for f in faces] if order < 0 else faces, hi, order, zero == "b")
    keys = sorted(set(face_of(mk_tile(h, f)) for f in faces))
    A = lambda k: sa.get(k, 0)
    B = lambda k: sb.get(k, 0)
    pos = lambda x: h.ite(x > 0, x, 0)

    def unchanged(tag):
        h.check(h.and_(same(h, a, A, keys), same(h, b, B, keys)), "operands unchanged by " + tag)

    def mut(r, tag):
        if r is None:
            return
        h.check(r is not a and r is not b, tag + " returns a new set")
        h.check(len(r) == sum(counts(r).values()), "length of the result of " + tag)
        h.check(r.contains(r), "the result of %s contains itself" % tag)
        r[mk_tile(h, (1, "z"))] = 3
        for f in faces:
            r[mk_tile(h, f)] = 17
        unchanged("changing the result of " + tag)
    if ops == 0:
        r = a + b
        h.check(same(h, r, lambda k: A(k) + B(k), keys), "a + b")
        unchanged("+")
        h.check(len(r) == len(a) + len(b), "length of the sum")
        mut(r, "+")
    elif ops == 1:
        r = a - b
        h.check(same(h, r, lambda k: pos(A(k) - B(k)), keys), "a - b")
        unchanged("-")
        mut(r, "-")
    elif ops == 2:
        r = a & b
        h.check(same(h, r, lambda k: h.ite(A(k) < B(k), A(k), B(k)), keys), "a & b")
        unchanged("&")
        mut(r, "&")
    elif ops == 3:
        r = a | b
        h.check(same(h, r, lambda k: h.ite(A(k) > B(k), A(k), B(k)), keys), "a | b")
        unchanged("|")
        mut(r, "|")
    elif ops == 4:
        want = h.all_([A(k) >= B(k) for k in keys])
        r = a.contains(b)
        h.check(r == want, "contains")
        unchanged("contains")
        r = a.exclude(b)
        unchanged("exclude")
        if r is None:
            h.check(h.not_(want), "exclude None only when not contained")
        else:
            h.check(want, "exclude gives a set only when contained")
            h.check(same(h, r, lambda k: A(k) - B(k), keys), "exclude is the difference")
        mut(r, "exclude")


def listing(h, faces, hi, order):
    a, sa = build(h, "a", faces, hi, order)
    keys = sorted(set(face_of(mk_tile(h, f)) for f in faces))
    n = len(a)
    h.check(n == sum([sa.get(k, 0) for k in keys]), "length is the number of tiles")
    seen = {}
    for t in a.tiles():
        k = face_of(t)
        seen[k] = seen.get(k, 0) + 1
    h.check(h.all_([seen.get(k, 0) == sa.get(k, 0) for k in keys] + [k in keys for k in seen]), "tiles() lists exactly the multiset")
    h.check(same(h, a, lambda k: sa.get(k, 0), keys), "listing leaves the set unchanged")
    h.obs([n, sorted([str(t) for t in seen])])


def itself(h, faces, hi):
    """both operands are one and the same set"""
    a, sa = build(h, "a", faces, hi)
    keys = sorted(set(face_of(mk_tile(h, f)) for f in faces))
    A = lambda k: sa.get(k, 0)
    for tag, r, want in (("+", a + a, lambda k: 2 * A(k)), ("-", a - a, lambda k: 0), ("&", a & a, A), ("|", a | a, A), ("exclude", a.exclude(a), lambda k: 0)):
        h.check(same(h, r, want, keys), "a %s a" % tag)
        h.check(r is not a, tag + " returns a new set")
        for f in faces:
            r[mk_tile(h, f)] = 17
        h.check(same(h, a, A, keys), "operand unchanged by changing the result of " + tag)
    h.check(a.contains(a), "a set contains itself")


def two(h):
    """any two tiles at all"""
    T = h.mod("mahjong.container.set").TileSet
    t, i = sym_tile(h, "t")
    u, j = sym_tile(h, "u")
    n, m = h.int("n", 1, 4), h.int("m", 1, 4)
    a, b = T(), T()
    a[t] = n
    b[u] = m
    eq = i == j
    cnt = lambda s, k: counts(s).get(FACES[k], 0)
    h.check(h.and_(cnt(a + b, i) == (n + m if eq else n), cnt(a + b, j) == (n + m if eq else m)), "sum of two tiles")
    h.check(cnt(a - b, i) == (h.ite(n > m, n - m, 0) if eq else n), "difference of two tiles")
    h.check(cnt(a & b, i) == (h.ite(n > m, m, n) if eq else 0), "intersection of two tiles")
    h.check(h.and_(cnt(a | b, i) == (h.ite(n > m, n, m) if eq else n), cnt(a | b, j) == (h.ite(n > m, n, m) if eq else m)), "union of two tiles")
    h.check(a.contains(b) == h.and_(eq, n >= m), "contains of two tiles")
    h.check(h.and_(cnt(a, i) == n, cnt(b, j) == m, len(a) == n, len(b) == m), "operands unchanged")


def cases(tier):
    r = [Case("two", two)]
    small = [(2, "m"), (5, "m"), (1, "z")]
    red = [(4, "p"), (0, "p"), (7, "z")]
    sets = [(small, 4), (red, 3)]
    if tier == "thorough":
        sets += [([(1, "m"), (9, "m"), (5, "s"), (7, "z")], 4), ([(0, "s"), (6, "s"), (1, "p"), (3, "z")], 4),
                 ([(1, "m"), (2, "m"), (3, "m"), (4, "m"), (5, "m")], 4)]
    for n, (faces, hi) in enumerate(sets):
        for order in (1, -1):
            for op in range(5):
                r.append(Case("alg%d.%d.%d" % (n, op, order), algebra, faces, hi, order, op))
            r.append(Case("list%d.%d" % (n, order), listing, faces, hi, order))
        r.append(Case("itself%d" % n, itself, faces, hi))
        r += [Case("zero%d.%d.%s" % (n, op, z), algebra, faces, 2, 1, op, z) for op in range(5) for z in "ab"]
    return r
