"""Seven-pairs win recognition."""
from symx.harness import Case
from .common import FACES, build_hand, counts_of, same_counts, sym_counts, prewarm, mk_tile, face_of, INDEX
from .C06 import idx

FUNCTIONS = ["WinPattern.match", "WinPattern.win_selections", "WinPattern._win_selections", "WinPattern.update_possible_units", "UniquePairs.next_states",
             "UniquePairs.need_count", "UniquePairs.has_win", "TileSet.contains/__sub__/re_sort"]
ASSUMES = ["0..4 copies of each face"]
warm = prewarm


def pairs(h, free, fixed, k, hi, order, red=False):
    c = sym_counts(h, idx(free), hi)
    for f in idx(fixed):
        c[f] = c[f] + 1
    o = list(range(34))
    if order == "down":
        o.reverse()
    t = build_hand(h, c, o)
    if red:
        m = h.mod("mahjong.tile.definition").AkaTile(0, "m")
        i = INDEX[face_of(m)]
        t[m] += 1
        c[i] = c[i] + 1
        h.assume(c[i] <= 4)
    U = h.mod("mahjong.container.pattern.win").UniquePairs
    w = U() if k == 7 else U(k)
    got = w.match(t)
    have = sum([h.ite(x >= 2, 1, 0) for x in c], 0)
    h.check(got == (have >= k), "%d distinct pairs" % k)
    h.check(same_counts(h, counts_of(t), c), "the hand still holds the same tiles")
    h.check(w.match(t) == got, "asking again gives the same answer")
    h.obs(got)


def wins(tier):
    m5, seven = "1m2m3m4m5m", "1m9m1p9p1s9s7z"
    r = [(m5, "", k, 4, o) for k in (1, 2, 3) for o in ("up", "down")]
    r += [("1z2z3z4z5z6z7z", "", 7, 4, "up"), (seven, "", 7, 4, "down"), (seven, "", 4, 2, "up")]
    r += [("5m5p5s", "1m1m2m2m3m3m4m4m", 7, 4, "up"), ("4m6m", "1z1z1z1z2z2z3z3z9s9s", 5, 4, "down")]
    if tier == "thorough":
        r += [("1m2m3m4m5m6m7m8m9m", "", k, 4, "up") for k in (2, 4, 5)]
        r += [("1m2m3m4m5m6m7m8m9m", "", 7, 4, "down"), ("1m3m5m7m9m1z2z3z4z", "", 6, 4, "up")]
    return r


def cases(tier):
    r = [Case("%s+%s.k%d.%s" % (w[0], w[1], w[2], w[4]), pairs, *w) for w in wins(tier)]
    r.append(Case("red", pairs, "4m5m6m", "1z1z2z2z3z3z4z4z", 6, 4, "up", True))
    return r


BOUNDS = ["; ".join("%s +%s: %d pairs, counts 0..%d, inserted %s" % w for w in wins("quick")), "a red five among fives", "thorough: nine free faces"]
