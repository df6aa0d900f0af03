"""Shared vocabulary of the harnesses: faces, symbolic tiles and hands, and the
specification of winning shapes and distances as solver constraints."""
from functools import lru_cache

from symx import core, instrument
from symx.core import mk_and, mk_or, mk_not, to_cond, Model

SUITS = "mpsz"
FACES = [(n, s) for s in "mps" for n in range(1, 10)] + [(n, "z") for n in range(1, 8)]   # 34 in order
INDEX = {f: i for i, f in enumerate(FACES)}


def fidx(text):
    """'5m' -> index"""
    return INDEX[(int(text[0]), text[1])]


def all_known(c):
    """no count is a solver expression (isinstance would accept them as integers)"""
    return not any(core.is_proxy(x) for x in c)


def tile_mod(h):
    return h.mod("mahjong.tile.definition")


def mk_tile(h, face):
    n, s = face
    d = tile_mod(h)
    return d.AkaTile(0, s) if n == 0 else d.Tile(n, s)


def all_tiles(h):
    return [mk_tile(h, f) for f in FACES]


def prewarm():
    """build every tile once, so that paths share the pools"""
    import importlib
    d = importlib.import_module("mahjong.tile.definition")
    importlib.import_module("mahjong.container.distribution")
    for n, s in FACES:
        d.Tile(n, s)
    for s in "mps":
        d.AkaTile(0, s)


def face_of(t):
    """face with red fives as fives"""
    return (5 if t.number == 0 else t.number, t.color)


def sym_tile(h, name, red=True):
    """any valid tile (34 faces, 3 red fives) -> (tile, face index)"""
    k = h.int(name, 0, 36 if red else 33)
    k = h.value(k)
    if k >= 34:
        f = (0, "mps"[k - 34])
        return mk_tile(h, f), INDEX[(5, "mps"[k - 34])]
    return mk_tile(h, FACES[k]), k


def sym_counts(h, idxs, hi=4, lo=0, total=None, prefix="c"):
    """symbolic number of copies for the given face indices; others 0"""
    c = [0] * 34
    for i in idxs:
        c[i] = h.int("%s.%d%s" % (prefix, FACES[i][0], FACES[i][1]), lo, hi)
    if total is not None:
        s = sum([c[i] for i in idxs], 0)
        a, b = total
        h.assume(h.and_(s >= a, s <= b))
    return c


def build_hand(h, c, order=None):
    """TileSet with these counts, inserted in the given order of face indices"""
    ts = h.mod("mahjong.container.set").TileSet
    hand = ts()
    for i in (order if order is not None else range(34)):
        n = c[i]
        if not core.is_proxy(n):
            if n > 0:
                hand[mk_tile(h, FACES[i])] = n
        elif h.branch(n >= 1):
            hand[mk_tile(h, FACES[i])] = n
    return hand


def counts_of(hand):
    """[34] counts of a tile multiset (red fives as fives); None if a key is not a tile"""
    c = [0] * 34
    for t, n in hand.items():
        i = INDEX.get(face_of(t))
        if i is None:
            return None
        c[i] = c[i] + n
    return c


def same_counts(h, a, b):
    if a is None or b is None:
        return False
    return h.all_([x == y for x, y in zip(a, b)])


# ------------------------------------------------------------------ winning shapes
@lru_cache(maxsize=None)
def _suit(c, honor, melds, pairs, free):
    """(m, p) -> (cost, D): cheapest target of m melds and p pairs inside one suit.
    free=True: missing tiles may be drawn (cost), at most four copies each;
    free=False: only tiles present may be used (cost 0)."""
    n = len(c)
    cur = {(0, 0, 0, 0): (0, ())}
    for i in range(n):
        new = {}
        for (r1, r2, m, p), (cost, D) in cur.items():
            fmax = 0 if (honor or i + 2 >= n) else melds - m
            for f in range(fmax + 1):
                for t in range(0, 2):
                    if m + f + t > melds:
                        break
                    for q in range(0, 3):
                        if p + q > pairs:
                            break
                        d = f + r1 + r2 + 3 * t + 2 * q
                        if d > 4:
                            break
                        k = max(0, d - c[i])
                        if k and not free:
                            break
                        key = (f, r1, m + f + t, p + q)
                        v = cost + k
                        o = new.get(key)
                        if o is None or o[0] > v:
                            new[key] = (v, D + (d,))
        cur = new
    out = {}
    for (r1, r2, m, p), v in cur.items():
        if r1 == 0 and r2 == 0:
            o = out.get((m, p))
            if o is None or o[0] > v[0]:
                out[(m, p)] = v
    return out


def best_target(c, melds, pairs, free=True):
    """cheapest target: (missing tiles, D[34]) or None"""
    assert all_known(c)
    cur = {(0, 0): (0, ())}
    parts = [(tuple(c[0:9]), False), (tuple(c[9:18]), False), (tuple(c[18:27]), False)]
    parts += [((c[i],), True) for i in range(27, 34)]
    for part, honor in parts:
        b = _suit(part, honor, melds, pairs, free)
        new = {}
        for (m, p), (k, D) in cur.items():
            for (m2, p2), (k2, D2) in b.items():
                if m + m2 > melds or p + p2 > pairs:
                    continue
                key = (m + m2, p + p2)
                o = new.get(key)
                if o is None or o[0] > k + k2:
                    new[key] = (k + k2, D + D2)
        cur = new
    return cur.get((melds, pairs))


def distance(c, melds, pairs):
    r = best_target(c, melds, pairs)
    return None if r is None else r[0]


def decomposition(c, melds, pairs):
    r = best_target(c, melds, pairs, free=False)
    return None if r is None else r[1]


# ---- symbolic side
_fresh = [0]


def target_vars(h, melds, pairs, idxs=range(34), tag="w"):
    """existential target: returns (constraint, D[34])"""
    ex = core.EX
    idxs = list(idxs)
    S = set(idxs)
    D = [0] * 34
    ms, ps = 0, 0
    for i in idxs:
        if melds:
            t = ex.int_var("%s.t%d" % (tag, i), 0, 1)
            ms = ms + t
            D[i] = D[i] + t * 3
            if i < 27 and i % 9 <= 6 and i + 1 in S and i + 2 in S:
                f = ex.int_var("%s.f%d" % (tag, i), 0, melds)
                ms = ms + f
                for j in (i, i + 1, i + 2):
                    D[j] = D[j] + f
        if pairs:
            q = ex.int_var("%s.q%d" % (tag, i), 0, min(2, pairs))
            ps = ps + q
            D[i] = D[i] + q * 2
    cons = []
    if melds:
        cons.append(to_cond(ms == melds))
    if pairs:
        cons.append(to_cond(ps == pairs))
    for i in idxs:
        cons.append(to_cond(D[i] <= 4))
    return mk_and(cons), D


def deficit(D, c, idxs=range(34), tag="w"):
    """sum of max(0, D - c)"""
    s = 0
    for i in idxs:
        if not core.is_proxy(D[i]) and D[i] == 0:
            continue
        e = D[i] - c[i]
        s = s + core.ite(to_cond(e > 0), e, 0)
    return s


def conc_counts(c, m):
    return tuple([x.ev(m) if core.is_proxy(x) else x for x in c])


def forall_by_witness(h, label, witness, rounds=400):
    """On this path a fact must hold for all inputs; witness(model) gives a sufficient
    condition that is true for that model, or None if the fact fails for it."""
    bad = True
    for _ in range(rounds):
        m = core.EX.model_for(bad)
        if m is None:
            h.check(True, label)
            return
        w = witness(m)
        if w is None:
            h.violations.append((label, Model(m)))
            raise core.PathEnd()
        w = to_cond(w)
        if w is True:
            h.check(True, label)
            return
        bad = mk_and([bad, mk_not(w)])
    raise core.Inconclusive("witness rounds")


# ------------------------------------------------------------------ exact winning condition
def win_exact(h, got, c, melds, pairs, label, unique_pairs=False):
    """`got` is True exactly when `pairs` pairs and `melds` melds can be taken from counts c"""
    if all_known(c):
        h.check(bool(got) == (decomposition(tuple(c), melds, pairs) is not None), label)
        return
    got = h.branch(got)
    idxs = [i for i in range(34) if core.is_proxy(c[i]) or c[i] != 0]
    if got:
        def witness(m):
            D = decomposition(conc_counts(c, m), melds, pairs)
            if D is None:
                return None
            return mk_and([to_cond(c[i] >= D[i]) for i in idxs if D[i]])
        forall_by_witness(h, label, witness)
    else:
        cons, D = target_vars(h, melds, pairs, idxs)
        bad = mk_and([cons] + [to_cond(D[i] <= c[i]) for i in idxs])
        m = core.EX.model_for(bad)
        if m is None:
            h.check(True, label)
            return
        h.violations.append((label, Model(m)))
        raise core.PathEnd()


def unit_vector(h, sel):
    """canonical form of a decomposition: sorted tuple of ('q'|'t'|'f', face index); None if a unit is malformed"""
    out = []
    for u in sel:
        items = [(INDEX.get(face_of(t)), n) for t, n in u.items() if core.is_proxy(n) or n != 0]
        items.sort()
        if len(items) == 1 and items[0][1] == 2:
            out.append(("q", items[0][0]))
        elif len(items) == 1 and items[0][1] == 3:
            out.append(("t", items[0][0]))
        elif len(items) == 3 and all(n == 1 for _, n in items):
            i = items[0][0]
            if i >= 27 or i % 9 > 6 or [j for j, _ in items] != [i, i + 1, i + 2]:
                return None
            out.append(("f", i))
        else:
            return None
    return tuple(sorted(out))


def vector_tiles(v):
    D = [0] * 34
    for k, i in v:
        if k == "q":
            D[i] += 2
        elif k == "t":
            D[i] += 3
        else:
            for j in (i, i + 1, i + 2):
                D[j] += 1
    return D


def all_decompositions(c, melds, pairs):
    """every decomposition of concrete counts, as canonical vectors"""
    out = set()

    def go(i, c, melds, pairs, acc):
        if melds == 0 and pairs == 0:
            out.add(tuple(sorted(acc)))
            return
        if i >= 34:
            return
        for q in range(0, min(pairs, c[i] // 2) + 1):
            for t in range(0, min(melds, (c[i] - 2 * q) // 3) + 1):
                left = c[i] - 2 * q - 3 * t
                fm = 0
                if i < 27 and i % 9 <= 6:
                    fm = min(left, c[i + 1], c[i + 2], melds - t)
                for f in range(fm + 1):
                    d = list(c)
                    if f:
                        d[i + 1] -= f
                        d[i + 2] -= f
                    go(i + 1, d, melds - t - f, pairs - q, acc + [("q", i)] * q + [("t", i)] * t + [("f", i)] * f)
    go(0, list(c), melds, pairs, [])
    return out


def decomposition_vars(melds, pairs, idxs, tag="w"):
    """existential decomposition: (constraint, D[34], {unit: multiplicity variable})"""
    ex = core.EX
    S = set(idxs)
    D = [0] * 34
    U = {}
    ms, ps = 0, 0
    for i in idxs:
        if melds:
            t = U[("t", i)] = ex.int_var("%s.t%d" % (tag, i), 0, 1)
            ms = ms + t
            D[i] = D[i] + t * 3
            if i < 27 and i % 9 <= 6 and i + 1 in S and i + 2 in S:
                f = U[("f", i)] = ex.int_var("%s.f%d" % (tag, i), 0, melds)
                ms = ms + f
                for j in (i, i + 1, i + 2):
                    D[j] = D[j] + f
        if pairs:
            q = U[("q", i)] = ex.int_var("%s.q%d" % (tag, i), 0, min(2, pairs))
            ps = ps + q
            D[i] = D[i] + q * 2
    cons = []
    if melds:
        cons.append(to_cond(ms == melds))
    if pairs:
        cons.append(to_cond(ps == pairs))
    return mk_and(cons), D, U


def none_missing(h, c, melds, pairs, listed, label):
    """every decomposition of counts c is among the listed canonical vectors"""
    if all_known(c):
        h.check(all_decompositions(tuple(c), melds, pairs) <= set(listed), label)
        return
    idxs = [i for i in range(34) if core.is_proxy(c[i]) or c[i] != 0]
    cons, D, U = decomposition_vars(melds, pairs, idxs)
    bad = [cons] + [to_cond(D[i] <= c[i]) for i in idxs]
    for v in set(listed):
        cnt = {}
        for u in v:
            cnt[u] = cnt.get(u, 0) + 1
        if any(u not in U for u in cnt):
            continue
        bad.append(mk_or([to_cond(x != cnt.get(u, 0)) for u, x in U.items()]))
    m = core.EX.model_for(mk_and(bad))
    if m is None:
        h.check(True, label)
        return
    h.violations.append((label, Model(m)))
    raise core.PathEnd()


# ------------------------------------------------------------------ exact distance and useful tiles
SUIT_RANGES = [range(0, 9), range(9, 18), range(18, 27)] + [range(i, i + 1) for i in range(27, 34)]


@lru_cache(maxsize=None)
def _suit_cost(c, honor, melds, pairs, pos=None):
    """(m, p) -> least number of missing tiles; with pos, over targets using more copies of that face than are held"""
    n = len(c)
    cur = {(0, 0, 0, 0): 0}
    for i in range(n):
        new = {}
        for (r1, r2, m, p), cost in cur.items():
            fmax = 0 if (honor or i + 2 >= n) else melds - m
            for f in range(fmax + 1):
                for t in range(0, 2):
                    if m + f + t > melds:
                        break
                    for q in range(0, 3):
                        if p + q > pairs:
                            break
                        d = f + r1 + r2 + 3 * t + 2 * q
                        if d > 4:
                            break
                        if i == pos and d <= c[i]:
                            continue
                        key = (f, r1, m + f + t, p + q)
                        v = cost + max(0, d - c[i])
                        o = new.get(key)
                        if o is None or o > v:
                            new[key] = v
        cur = new
    return {(m, p): v for (r1, r2, m, p), v in cur.items() if r1 == 0 and r2 == 0}


def _plus(a, b, melds, pairs):
    new = {}
    for (m, p), k in a.items():
        for (m2, p2), k2 in b.items():
            if m + m2 <= melds and p + p2 <= pairs:
                key = (m + m2, p + p2)
                o = new.get(key)
                if o is None or o > k + k2:
                    new[key] = k + k2
    return new


def known_values(c):
    """counts that the path condition determines become plain numbers"""
    out = []
    for x in c:
        if core.is_proxy(x):
            lo, hi = core.EX.ival(x)
            if lo == hi:
                x = lo
        out.append(x)
    return out


def useful_of(c, melds, pairs, d):
    """indices of the tiles that lower the distance d of concrete counts"""
    tabs = []
    for r in SUIT_RANGES:
        tabs.append(_suit_cost(tuple([c[i] for i in r]), len(r) == 1, melds, pairs))
    out = set()
    for k, r in enumerate(SUIT_RANGES):
        rest = {(0, 0): 0}
        for j in range(len(tabs)):
            if j != k:
                rest = _plus(rest, tabs[j], melds, pairs)
        part = tuple([c[i] for i in r])
        for n, i in enumerate(r):
            if c[i] < 4:
                b = _plus(rest, _suit_cost(part, len(r) == 1, melds, pairs, n), melds, pairs).get((melds, pairs))
                if b is not None and b <= d:
                    out.add(i)
    return out


def distance_exact(h, c, w, melds, pairs, label, useful=None):
    """The least number of missing tiles of counts c is w + 1; with `useful` (face indices), exactly these tiles lower it.

    Decided for every input of the current path: the solver finds no cheaper target (integer constraints over the
    multiplicities of the units of undetermined suits, minimal-cost tables of the determined ones), and every input has
    a target of that cost (witness targets until the solver finds no input left)."""
    w = h.value(w)
    c = known_values(c)
    if all_known(c):
        d = distance(tuple(c), melds, pairs)
        h.check(d == w + 1, label + ": waiting step")
        if useful is not None:
            h.check(useful_of(c, melds, pairs, d) == set(useful), label + ": useful tiles")
        return
    sym, rest, free = [], {(0, 0): 0}, []
    tabs = []
    for r in SUIT_RANGES:
        part = [c[i] for i in r]
        if any(core.is_proxy(x) for x in part):
            sym += list(r)
        else:
            free.append((r, tuple(part)))
            tabs.append(_suit_cost(tuple(part), len(r) == 1, melds, pairs))
            rest = _plus(rest, tabs[-1], melds, pairs)
    ex = core.EX
    D, ms, ps, cons = [0] * 34, 0, 0, []
    for i in sym:
        if melds:
            t = ex.int_var("w.t%d" % i, 0, 1)
            ms = ms + t
            D[i] = D[i] + t * 3
            if i < 27 and i % 9 <= 6:
                f = ex.int_var("w.f%d" % i, 0, melds)
                ms = ms + f
                for j in (i, i + 1, i + 2):
                    D[j] = D[j] + f
        if pairs:
            q = ex.int_var("w.q%d" % i, 0, min(2, pairs))
            ps = ps + q
            D[i] = D[i] + q * 2
    cons = [to_cond(D[i] <= 4) for i in sym]
    cost = deficit(D, c, sym)

    def affordable(table, limit):
        return mk_or([mk_and([to_cond(ms == melds - m), to_cond(ps == pairs - p), to_cond(cost <= limit - k)])
                      for (m, p), k in table.items() if k <= limit])
    bad = mk_and(cons + [affordable(rest, w)])
    m = ex.model_for(bad)
    if m is not None:
        h.violations.append((label + ": waiting step", Model(m)))
        raise core.PathEnd()
    h.check(True, label + ": waiting step")

    def near(m):
        b = best_target(conc_counts(c, m), melds, pairs)
        if b is None or b[0] > w + 1:
            return None
        return to_cond(deficit(b[1], c) <= w + 1)
    forall_by_witness(h, label + ": waiting step", near)
    if useful is None:
        return
    useful = set(useful)
    other = [i for i in sym if i not in useful]
    more = mk_or([to_cond(D[i] > c[i]) for i in other])
    kbad = {}
    for k, (r, part) in enumerate(free):
        others = {(0, 0): 0}
        for j, t in enumerate(tabs):
            if j != k:
                others = _plus(others, t, melds, pairs)
        for n, i in enumerate(r):
            if i not in useful and part[n] < 4:
                for key, v in _plus(others, _suit_cost(part, len(r) == 1, melds, pairs, n), melds, pairs).items():
                    if key not in kbad or kbad[key] > v:
                        kbad[key] = v
    bad = mk_and(cons + [mk_or([mk_and([more, affordable(rest, w + 1)]), affordable(kbad, w + 1)])])
    m = ex.model_for(bad)
    if m is not None:
        h.violations.append((label + ": useful tiles (one is missing)", Model(m)))
        raise core.PathEnd()
    h.check(True, label + ": useful tiles")
    h.check(h.all_([c[i] <= 3 for i in useful]), label + ": useful tiles")

    def all_near(m):
        cc = list(conc_counts(c, m))
        parts = []
        for i in useful:
            cc[i] += 1
            b = best_target(cc, melds, pairs)
            cc[i] -= 1
            if b is None or b[0] > w:
                return None
            s = deficit(b[1], [x + 1 if j == i else x for j, x in enumerate(c)])
            parts.append(to_cond(s <= w))
        return mk_and(parts)
    forall_by_witness(h, label + ": useful tiles", all_near)
