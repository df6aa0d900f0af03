"""Win decompositions."""
from symx.harness import Case
from .common import (FACES, build_hand, counts_of, same_counts, sym_counts, prewarm, unit_vector, vector_tiles, none_missing)
from .C06 import idx

FUNCTIONS = ["WinPattern.win_selections", "WinPattern._win_selections", "WinPattern.unique_win_selections", "WinPattern.update_possible_units",
             "NormalTypeWin.next_states", "UniquePairs.next_states", "distinct", "TileSet.__lt__", "TileSet.__sub__"]
ASSUMES = ["0..4 copies of each face", "completeness is one solver query per path: no assignment of unit multiplicities fits the hand and differs from every listed decomposition"]
warm = prewarm


def normal(h, free, fixed, lo, hi, pairs, melds, order):
    c = sym_counts(h, idx(free), 4, total=(lo, hi))
    for f in idx(fixed):
        c[f] = c[f] + 1
    o = list(range(34))
    if order == "down":
        o.reverse()
    t = build_hand(h, c, o)
    w = h.mod("mahjong.container.pattern.win").NormalTypeWin(pairs, melds)
    sels = list(w.win_selections(t))
    uni = list(w.unique_win_selections(t))
    vs = []
    for part, tag in ((sels, ""), (uni, " (unique)")):
        vs = []
        for s in part:
            v = unit_vector(h, s)
            h.check(v is not None, "units are pairs, runs and triplets" + tag)
            kinds = [k for k, _ in v]
            h.check(kinds.count("q") == pairs and len(kinds) == pairs + melds, "exactly the required pairs and melds" + tag)
            D = vector_tiles(v)
            h.check(h.all_([c[i] >= D[i] for i in range(34) if D[i]]), "a decomposition fits in the hand" + tag)
            vs.append(v)
        none_missing(h, c, melds, pairs, vs, "every decomposition is listed" + tag)
    h.check(len(set(vs)) == len(vs), "the unique listing has no repetition")
    h.check(same_counts(h, counts_of(t), c), "the hand still holds the same tiles")
    h.obs(sorted(set(vs)))


def seven(h, free, fixed, k, hi):
    c = sym_counts(h, idx(free), hi)
    for f in idx(fixed):
        c[f] = c[f] + 1
    t = build_hand(h, c)
    w = h.mod("mahjong.container.pattern.win").UniquePairs(k)
    uni = list(w.unique_win_selections(t))
    vs = []
    for s in uni:
        v = unit_vector(h, s)
        h.check(v is not None and all(x == "q" for x, _ in v) and len(v) == k and len(set(v)) == k, "exactly k different pairs")
        h.check(h.all_([c[i] >= 2 for _, i in v]), "the pairs are in the hand")
        vs.append(v)
    h.check(len(set(vs)) == len(vs), "listed once")
    n = 0
    have = [h.branch(x >= 2) for x in c]
    total = sum(have)
    want = 1
    for i in range(k):
        want = want * (total - i) // (i + 1)
    h.check(len(vs) == (want if total >= k else 0), "every choice of pairs is listed")
    allsel = list(w.win_selections(t))
    h.check(set(unit_vector(h, s) for s in allsel) == set(vs), "both listings agree")


def wins(tier):
    r = []
    for o in ("up", "down"):
        r += [("1m2m3m4m5m", "", 5, 6, 1, 1, o), ("2m3m4m5m6m7m", "", 5, 5, 1, 1, o), ("6m7m8m9m1p", "", 6, 6, 0, 2, o)]
    r += [("1p2p3p4p", "", 8, 9, 1, 2, "up"), ("1z2z9s8s7s", "", 5, 6, 1, 1, "down"), ("1m2m3m4m5m", "", 2, 4, 2, 0, "up"), ("3s4s5s6s", "", 6, 8, 2, 1, "down"),
          ("2m3m4m", "1p1p1p7z7z", 9, 9, 1, 4, "up"), ("1s2s3s4s", "", 11, 11, 1, 3, "up"),
          ("3m4m5m6m", "1p1p1p7s8s9s", 6, 6, 0, 4, "up"), ("1p2p5z", "1m1m9m9m", 5, 6, 3, 1, "up")]
    if tier == "thorough":
        r += [("1m2m3m4m5m", "", 8, 9, 1, 2, "up"), ("1m2m3m4m5m", "", 11, 11, 1, 3, "down"), ("1m2m3m4m5m", "", 14, 14, 1, 4, "up"),
              ("2m3m4m5m6m7m8m", "", 8, 8, 1, 2, "up"), ("1m2m3m4m5m6m7m8m9m", "", 5, 5, 1, 1, "down"), ("1m2m3m4m5m6m", "", 9, 9, 0, 3, "down"),
              ("1m2m3m4m5m6m", "", 14, 14, 1, 4, "down")]
    return r


def cases(tier):
    q = len(wins("quick"))
    r = [Case("%s+%s.%d-%d.p%dm%d.%s" % w, normal, *w, weight=w[3], optional=n >= q) for n, w in enumerate(wins(tier))]
    r += [Case("pairs.%s.%d" % (f, k), seven, f, x, k, hi) for f, x, k, hi in
          (("1m2m3m4m5m", "", 2, 4), ("1m2m3m4m5m", "", 3, 4), ("1z2z3z4z", "1m1m9m9m5p5p5s5s", 7, 4), ("1m9m1p9p1s9s7z", "", 5, 3))]
    return r


BOUNDS = ["; ".join("%s+%s, %d..%d free tiles, %d pairs %d melds, inserted %s" % w for w in wins("quick")), "distinct pairs: choices of 2, 3, 5 and 7 over 4..8 faces"]
