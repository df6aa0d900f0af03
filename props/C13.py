"""Batch discard analysis."""
from symx.harness import Case
from .common import INDEX, build_hand, counts_of, face_of, same_counts, sym_counts, prewarm, distance_exact
from .C06 import idx

FUNCTIONS = ["HeuristicPatternMatchWaiting.batch_waiting_and_useful_tiles", "HeuristicPatternMatchWaiting.count_hand_borrow_combinition_iter",
             "HeuristicPatternMatchWaiting.before_waiting_step/_win_selections_in_tiles/init_search_by_hand", "TileSet.__sub__/__add__", "NormalTypeWin.*", "UniquePairs.*"]
ASSUMES = ["0..4 copies of each face", "hands that do not contain a win"]
BOUNDS = []
warm = prewarm


def batch(h, free, fixed, lo, hi, form, order, top=4, before=None):
    c = sym_counts(h, idx(free), top, total=(lo, hi))
    for f in idx(fixed):
        c[f] = c[f] + 1
    o = list(range(34))
    if order == "down":
        o.reverse()
    t = build_hand(h, c, o)
    win = h.mod("mahjong.container.pattern.win")
    w = h.mod("mahjong.container.pattern.reasoning").HeuristicPatternMatchWaiting(win.UniquePairs(form[1]) if form[0] == "u" else win.NormalTypeWin(*form))
    if before:
        gone = h.mod("mahjong.container.utils").tile_set_from_string(fixed)
        extra = h.mod("mahjong.container.utils").tile_set_from_string(before)
        t.subtract(gone)
        for tile in extra:
            t[tile] += 1
        list(w.batch_waiting_and_useful_tiles(t))
        w.useful_tiles(t)
        for tile in extra:
            t[tile] -= 1
        t.update(gone)
    step = h.value(w.before_waiting_step(t))
    h.assume(step >= 0)
    got = list(w.batch_waiting_and_useful_tiles(t))
    h.check(same_counts(h, counts_of(t), c), "the hand still holds the same tiles")
    rows = {}
    for tile, s, use in got:
        i = INDEX.get(face_of(tile))
        h.check(i is not None and i not in rows, "each tile is listed once")
        h.check(s == step, "listed with the waiting step of the hand")
        u = [INDEX.get(face_of(x)) for x in use]
        h.check(None not in u and len(set(u)) == len(u), "useful tiles are tiles, each once")
        rows[i] = u
    present = [h.branch(x >= 1) for x in c]
    for i in range(34):
        if not present[i]:
            h.check(i not in rows, "only tiles of the hand are listed")
            continue
        d = [x - 1 if j == i else x for j, x in enumerate(c)]
        if form[0] == "u":
            k = form[1]
            pairs = sum([h.ite(x >= 2, 1, 0) for x in d], 0)
            kinds = sum([h.ite(x >= 1, 1, 0) for x in d], 0)
            after = k - 1 - h.ite(pairs >= k, k, pairs) + h.ite(kinds >= k, 0, k - kinds)
            h.check((after == step) == (i in rows), "listed exactly when the discard keeps the waiting step")
            if i in rows:
                h.check(h.all_([(j in rows[i]) == h.or_(d[j] == 1, h.and_(d[j] == 0, kinds < k)) for j in range(34)]), "useful tiles after the discard")
        elif i in rows:
            distance_exact(h, d, step, form[1], form[0], "after a listed discard", rows[i])
        else:
            farther(h, d, step, form[1], form[0])
    h.obs(sorted((i, sorted(u)) for i, u in rows.items()))


def farther(h, d, step, melds, pairs):
    """a discard that is not listed leaves a hand one step farther away"""
    distance_exact(h, d, step + 1, melds, pairs, "a discard that is not listed loses a step")


def hands(tier):
    r = []
    for o in ("up", "down"):
        r += [("3m4m5m6m", "", 4, 5, (1, 1), o), ("4p5p6p", "1m2m3m5m6m7m7z7z", 5, 6, (1, 4), o), ("1s2s9s1z", "", 3, 4, ("u", 3), o), ("1m3m5m", "", 3, 3, (0, 1), o)]
    r += [("1m2m3m4m", "1p2p5p5p", 5, 6, (1, 3), "up"), ("1p3p5p7p", "1m2m3m4m5m6m7z7z", 5, 6, (1, 4), "up"), ("5s6s7s8s", "3s3s4s4s1p2p5z5z", 6, 6, (1, 4), "down"),
          ("2m3m7p8p1z", "4m4m4m6s7s8s9s9s9s", 5, 5, (1, 4), "down"), ("6m7m8m9m", "", 8, 8, (1, 2), "up"), ("1m2m3m4m5m", "9m9m", 3, 4, (2, 1), "up"),
          ("1z2z3z4z5z", "1m1m2m3m4m5m6m7m8m9m", 3, 4, (1, 4), "up"), ("1m2m3m4m", "1p1p5p5p9s9s8s", 6, 7, ("u", 7), "up"), ("1z2z3z", "1m1m3m3m5p5p7s7s9s9s", 3, 4, ("u", 7), "down"),
          ("2m3m4m5m", "6p7p8p", 5, 5, (1, 2), "up", 4, "1p"), ("1m2m3m", "1p1p5p", 3, 4, ("u", 4), "up", 4, "9s"), ("1m5m9m", "9p9p1z1z", 1, 2, (2, 1), "down"),
          ("3m4m5m6m", "1p1p1p7s8s9s", 6, 6, (0, 4), "up")]
    if tier == "thorough":
        r += [("1m2m3m4m5m6m", "1z1z", 6, 6, (1, 2), "down"), ("2p3p4p5p", "", 11, 11, (1, 3), "down"), ("1m2m3m4m5m6m7m", "1p2p3p9p9p", 8, 9, (1, 4), "up"),
              ("1m2m3m4m5m", "1p1p2p2p9s", 8, 9, ("u", 7), "down"), ("2m3m4m5m6m7m8m", "7z", 5, 5, (1, 2), "up")]
    return r


def cases(tier):
    q = len(hands("quick"))
    return [Case("%s+%s.%d-%d.%s.%s%s" % (w[0], w[1], w[2], w[3], "".join(map(str, w[4])), w[5], ".after" if len(w) > 6 else ""), batch, *w, weight=w[3], optional=n >= q) for n, w in enumerate(hands(tier))]


BOUNDS += ["; ".join("%s+%s, %d..%d free tiles, %s, inserted %s" % w[:6] for w in hands("quick"))]
