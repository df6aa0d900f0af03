"""Waiting step of the standard form."""
from symx.harness import Case
from .common import build_hand, counts_of, same_counts, sym_counts, prewarm, distance_exact
from .C06 import idx

FUNCTIONS = ["HeuristicPatternMatchWaiting.before_waiting_step", "HeuristicPatternMatchWaiting.init_search_by_hand", "HeuristicPatternMatchWaiting._win_selections_in_tiles",
             "borrowed_limit", "borrowed_tile_count", "need_to_borrow", "NormalTypeWin.next_states/need_count/need_units/max_unit_length", "TileSet.copy/subtract/__neg__/re_sort"]
ASSUMES = ["0..4 copies of each face"]
BOUNDS = []
warm = prewarm


def hand(h, free, fixed, lo, hi, pairs, melds, order, top=4, again=False):
    c = sym_counts(h, idx(free), top, total=(lo, hi))
    for f in idx(fixed):
        c[f] = c[f] + 1
    o = list(range(34))
    if order == "down":
        o.reverse()
    elif order == "mid":
        o = o[5:] + o[:5][::-1]
    t = build_hand(h, c, o)
    w = h.mod("mahjong.container.pattern.reasoning").HeuristicPatternMatchWaiting(h.mod("mahjong.container.pattern.win").NormalTypeWin(pairs, melds))
    if isinstance(again, str):
        gone = h.mod("mahjong.container.utils").tile_set_from_string(fixed)
        extra = h.mod("mahjong.container.utils").tile_set_from_string(again)
        t.subtract(gone)
        for tile in extra:
            t[tile] += 1
        w.waiting_and_useful_tiles(t)
        list(w.batch_waiting_and_useful_tiles(t))
        for tile in extra:
            t[tile] -= 1
        t.update(gone)
    elif again:
        w.waiting_and_useful_tiles(h.mod("mahjong.container.utils").tile_set_from_string("19m19p19s1234567z"[:again]))
    got = w.before_waiting_step(t)
    distance_exact(h, c, got, melds, pairs, "%d pairs, %d melds" % (pairs, melds))
    h.check(same_counts(h, counts_of(t), c), "the hand still holds the same tiles")
    h.obs(got)


def hands(tier):
    r = []
    m5, m7, m9 = "1m2m3m4m5m", "2m3m4m5m6m7m8m", "1m2m3m4m5m6m7m8m9m"
    for o in ("up", "down"):
        r += [(m5, "", 0, 3, 0, 1, o), ("3m4m5m6m", "", 4, 5, 1, 1, o), ("4p5p6p", "1m2m3m4m5m6m7z7z", 6, 6, 1, 4, o), ("7s8s9s1z2z", "", 5, 6, 0, 2, o)]
    r += [(m5, "1p4p7p2s5s8s1z2z", 5, 6, 1, 4, "mid"), ("1p3p5p7p9p", "1m2m3m4m5m6m7z7z", 5, 6, 1, 4, "up"), ("5s6s7s8s", "3s3s4s4s1p2p5z5z", 5, 6, 1, 4, "down"),
          ("2m3m7p8p1z", "4m4m4m6s7s8s9s9s", 5, 6, 1, 4, "mid"), ("6m7m8m9m", "", 8, 10, 1, 2, "up"), (m5, "9m9m1z1z", 2, 4, 2, 1, "mid"),
          ("1z2z3z4z5z6z7z", "1m1m2m3m4m5m6m7m8m9m", 3, 4, 1, 4, "up"), (m9, "", 1, 3, 1, 1, "mid"), ("1m9m1p9p1s9s", "", 0, 4, 1, 2, "up"),
          ("4m5m6m", "", 9, 11, 1, 3, "down"), (m5, "3p3p3p4p4p4p", 7, 8, 1, 4, "up"), ("1s2s3s", "1s2s3s", 7, 8, 1, 4, "up", 3),
          ("2p3p4p5p6p", "", 10, 11, 1, 3, "down"), (m7, "1z1z1z", 5, 5, 1, 2, "up"), (m5, "", 0, 3, 1, 4, "up"),
          ("1m5m9m1p1z", "", 0, 4, 1, 4, "down"), ("1m4m7m", "1p9s5z", 0, 2, 1, 4, "mid"), ("3m7m", "1z2z3z", 0, 3, 1, 3, "up"),
          (m5, "9m9m1z1z", 0, 1, 2, 1, "up"), ("1m5m9m", "9p9p1z1z", 0, 1, 2, 1, "down"), ("3m4m5m6m", "1p1p1p7s8s9s", 5, 6, 0, 4, "up"), ("1p2p5z", "1m1m9m9m", 2, 4, 3, 1, "up")]
    if tier == "thorough":
        r += [(m5, "", 13, 14, 1, 4, "up"), (m7, "1z1z", 6, 6, 1, 2, "down"), ("1m2m3m4m5m6m", "", 10, 11, 1, 3, "mid"), (m7, "1p2p3p9p9p", 8, 9, 1, 4, "up"),
              (m9, "1p2p3p", 5, 5, 1, 2, "up"), ("1m2m3m4m5m6m", "", 13, 14, 1, 4, "up"), (m9, "", 13, 14, 1, 4, "down")]
    return r


def cases(tier):
    n = len(hands("quick"))
    r = [Case("%s+%s.%d-%d.p%dm%d.%s" % w[:7], hand, *w, weight=w[3], optional=k >= n) for k, w in enumerate(hands(tier))]
    r.append(Case("after another hand", hand, "2m3m4m5m", "6p7p8p", 5, 5, 1, 2, "up", 4, 13))
    r.append(Case("same hand changed", hand, "2m3m4m5m", "6p7p8p", 4, 5, 1, 2, "up", 4, "1p"))
    r.append(Case("same hand changed far", hand, "2m3m4m5m", "6p7p8p", 2, 3, 1, 2, "up", 4, "9s9s1z"))
    r.append(Case("after a small hand", hand, "2m3m4m5m", "6p7p8p", 5, 5, 1, 2, "up", 4, 3))
    return r


BOUNDS += ["; ".join("%s+%s, %d..%d free tiles, %d pairs %d melds, inserted %s" % w[:7] for w in hands("quick")),
           "thorough: up to all nine faces of one suit with 14 tiles (time-boxed)"]
