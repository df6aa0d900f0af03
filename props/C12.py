"""The three waiting-step algorithms."""
from symx.harness import Case
from .common import INDEX, build_hand, counts_of, face_of, same_counts, sym_counts, prewarm, distance_exact
from .C06 import idx
from .C11 import step_of

FUNCTIONS = ["BruteForceWaiting.before_waiting_step/useful_tiles", "PatternMatchWaiting.before_waiting_step/useful_tiles/waiting_and_useful_tiles/_win_selections_in_tiles",
             "HeuristicPatternMatchWaiting.*", "Waiting.waiting_and_useful_tiles", "WinPattern.match", "NormalTypeWin.*", "UniquePairs.*"]
ASSUMES = ["0..4 copies of each face", "hands that do not contain a win (win hands: only the waiting step -1)"]
BOUNDS = []
warm = prewarm


def agree(h, free, fixed, lo, hi, form, brute, order, top=4):
    c = sym_counts(h, idx(free), top, total=(lo, hi))
    for f in idx(fixed):
        c[f] = c[f] + 1
    o = list(range(34))
    if order == "down":
        o.reverse()
    r = h.mod("mahjong.container.pattern.reasoning")
    win = h.mod("mahjong.container.pattern.win")
    res = []
    for name in ["PatternMatchWaiting", "HeuristicPatternMatchWaiting"] + (["BruteForceWaiting"] if brute else []):
        t = build_hand(h, c, o)
        w = getattr(r, name)(win.UniquePairs(form[1]) if form[0] == "u" else win.NormalTypeWin(*form))
        step = h.value(w.before_waiting_step(t))
        h.check(same_counts(h, counts_of(t), c), "the hand still holds the same tiles (%s)" % name)
        u = None
        if step >= 0:
            s2, use = w.waiting_and_useful_tiles(t)
            h.check(s2 == step, "the step returned with the useful tiles is the waiting step (%s)" % name)
            u = sorted(INDEX[face_of(x)] for x in use)
            u2 = sorted(INDEX[face_of(x)] for x in w.useful_tiles(t))
            h.check(u2 == u, "useful tiles asked for separately (%s)" % name)
            h.check(same_counts(h, counts_of(t), c), "the hand still holds the same tiles (%s)" % name)
        res.append((step, u))
    h.check(all(x[0] == res[0][0] for x in res), "same waiting step")
    h.check(all(x[1] == res[0][1] for x in res), "same useful tiles")
    if form[0] == "u":
        want, pairs, kinds = step_of(h, c, form[1])
        h.check(res[0][0] == want, "waiting step of pairs")
    else:
        distance_exact(h, c, res[0][0], form[1], form[0], "standard form", res[0][1])
    h.obs(res[0])


def hands(tier):
    """(free, fixed, lo, hi, (pairs, melds) or ('u', k), with the exhaustive algorithm, order)"""
    r = [("1m2m3m", "", 1, 2, (0, 1), True, "up"), ("7p8p9p1z", "", 2, 2, (0, 1), True, "down"), ("4s5s6s7s", "", 4, 5, (1, 1), True, "up"), ("1m2m9m1z", "5z5z", 2, 2, (1, 1), True, "down"),
         ("1m2m3m", "", 2, 3, ("u", 2), True, "up"), ("3s3p3z5z", "", 3, 3, ("u", 2), True, "down"), ("1m2m3m", "", 0, 1, (1, 0), True, "up"), ("1p2p3p", "5p6p7p", 1, 2, (1, 1), True, "up"),
         ("3m4m5m", "6m7m", 5, 6, (1, 2), True, "down"), ("6s7s8s9s", "", 7, 8, (1, 2), False, "up"), ("1m2m3m4m5m", "7z7z", 5, 6, (1, 2), False, "up"),
         ("2p3p4p", "5m6m7m1z1z6s7s8s", 5, 6, (1, 4), False, "down"), ("1m9m1z7z", "2p3p4p5p6p7p9s9s9s", 4, 5, (1, 4), False, "up"),
         ("1m2m3m4m", "1p1p5p5p9s9s", 4, 6, ("u", 7), False, "up"), ("1z2z3z4z", "", 4, 6, ("u", 4), False, "down"), ("5m6m7m8m9m", "", 5, 6, (2, 1), False, "down")]
    if tier == "thorough":
        r += [("1m2m3m4m5m", "", 4, 5, (1, 1), True, "down"), ("1m2m3m4m", "", 7, 8, (1, 2), True, "up"), ("2m3m4m5m6m", "", 7, 8, (1, 2), False, "down"),
              ("1p2p3p4p5p", "1m2m3m7z7z", 8, 9, (1, 4), False, "up"), ("4s5s6s7s8s9s", "", 7, 8, (1, 2), False, "up"), ("1m2m3m4m5m6m", "1p1p2p2p", 6, 8, ("u", 6), False, "up")]
    return r


def cases(tier):
    q = len(hands("quick"))
    return [Case("%s+%s.%d-%d.%s.%s.%s" % (w[0], w[1], w[2], w[3], "".join(map(str, w[4])), "b" if w[5] else "", w[6]), agree, *w, weight=w[3] * (5 if w[5] else 1),
                 optional=n >= q) for n, w in enumerate(hands(tier))]


BOUNDS += ["; ".join("%s+%s, %d..%d free tiles, %s %s, inserted %s" % (w[0], w[1], w[2], w[3], w[4], "all three" if w[5] else "pattern matching and heuristic", w[6])
                     for w in hands("quick"))]
OUTSIDE = ["the exhaustive algorithm beyond patterns of two units (its running time is 34^distance)"]
