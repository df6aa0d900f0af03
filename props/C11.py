"""Seven-pairs waiting step and useful tiles."""
from symx.harness import Case
from .common import INDEX, build_hand, counts_of, face_of, same_counts, sym_counts, prewarm
from .C06 import idx

FUNCTIONS = ["HeuristicPatternMatchWaiting.waiting_and_useful_tiles/before_waiting_step/useful_tiles/init_search_by_hand/_win_selections_in_tiles", "UniquePairs.*",
             "PatternMatchWaiting.before_waiting_step/useful_tiles"]
ASSUMES = ["0..4 copies of each face", "hands without seven pairs (for a win only the waiting step is specified)"]
warm = prewarm


def step_of(h, c, k):
    pairs = sum([h.ite(x >= 2, 1, 0) for x in c], 0)
    kinds = sum([h.ite(x >= 1, 1, 0) for x in c], 0)
    p = h.ite(pairs >= k, k, pairs)
    return k - 1 - p + h.ite(kinds >= k, 0, k - kinds), pairs, kinds


def hand(h, free, fixed, lo, hi, order, k=7, top=4, algo="HeuristicPatternMatchWaiting", again=False):
    c = sym_counts(h, idx(free), top, total=(lo, hi))
    for f in idx(fixed):
        c[f] = c[f] + 1
    o = list(range(34))
    if order == "down":
        o.reverse()
    t = build_hand(h, c, o)
    win = h.mod("mahjong.container.pattern.win")
    w = getattr(h.mod("mahjong.container.pattern.reasoning"), algo)(win.UniquePairs(k) if k != 7 else win.UniquePairs())
    if again:
        w.waiting_and_useful_tiles(h.mod("mahjong.container.utils").tile_set_from_string(again))
    alone = w.before_waiting_step(t)
    want, pairs, kinds = step_of(h, c, k)
    h.check(alone == want, "waiting step")
    if h.branch(want < 0):
        h.check(same_counts(h, counts_of(t), c), "the hand still holds the same tiles")
        return
    step, use = w.waiting_and_useful_tiles(t)
    h.check(step == want, "waiting step returned with the useful tiles")
    u = [INDEX.get(face_of(x)) for x in use]
    h.check(None not in u and len(set(u)) == len(u), "useful tiles are tiles, each once")
    h.check(h.all_([(i in u) == h.or_(c[i] == 1, h.and_(c[i] == 0, kinds < k)) for i in range(34)]), "useful tiles")
    h.check(same_counts(h, counts_of(t), c), "the hand still holds the same tiles")
    h.obs((step, sorted(u)))


def hands(tier):
    r = []
    for o in ("up", "down"):
        r += [("1m2m3m4m", "1p1p5p5p9s9s1z", 6, 7, o), ("1z2z3z4z", "1m1m3m3m5p5p7s7s9s9s", 3, 4, o), ("1m5p9s", "2m2m3m3m6p6p7p7p8p", 4, 5, o)]
    r += [("2m4m6m", "1p1p1p1p3p3p3p3p", 4, 6, "up"), ("1s2s3s4s5s", "7z7z6z6z5z5z4z4z", 4, 5, "up"), ("1z2z", "1m2m3m4m5m6m1p2p2p3p", 2, 4, "down"),
          ("1m2m3m4m5m", "", 1, 4, "up", 3), ("1m9m1p9p", "", 0, 6, "down", 2), ("1m2m3m", "", 6, 10, "up", 3), ("5z6z7z", "1m1m1m2m2m2m3m3m3m", 4, 5, "up")]
    if tier == "thorough":
        r += [("1m2m3m4m5m6m", "1p1p2p2p", 8, 10, "up"), ("1m2m3m4m5m", "1p1p2p2p9s", 8, 9, "down"), ("1z2z3z4z5z6z7z", "1m1m2m2m3m3m", 6, 8, "up"),
              ("1m2m3m4m5m6m7m8m9m", "1p1p2p2p3p3p", 6, 8, "up")]
    return r


def cases(tier):
    q = len(hands("quick"))
    r = [Case("%s+%s.%d-%d.%s" % w[:5], hand, *w, weight=w[3], optional=n >= q) for n, w in enumerate(hands(tier))]
    r.append(Case("pattern match", hand, "1m2m3m", "", 1, 5, "up", 3, 4, "PatternMatchWaiting"))
    r.append(Case("pattern match wide", hand, "1z5s9p", "1m1m", 2, 4, "down", 3, 4, "PatternMatchWaiting"))
    r.append(Case("again", hand, "1m2m3m4m", "", 1, 4, "up", 3, 4, "HeuristicPatternMatchWaiting", "1p5p"))
    return r


BOUNDS = ["; ".join("%s+%s, %d..%d free tiles, inserted %s" % w[:5] for w in hands("quick")), "2, 3 and 7 pairs; pattern-matching algorithm for 3 pairs"]
