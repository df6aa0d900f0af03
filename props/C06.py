"""Standard win recognition."""
from symx.harness import Case
from .common import FACES, INDEX, fidx, build_hand, counts_of, same_counts, sym_counts, win_exact, prewarm

FUNCTIONS = ["WinPattern.match", "WinPattern.win_selections", "WinPattern._win_selections", "WinPattern.update_possible_units", "NormalTypeWin.next_states",
             "NormalTypeWin.need_count", "NormalTypeWin.has_win", "TileSet.contains/__sub__/re_sort", "Tile.flush/pair/triplet"]
BOUNDS = []
ASSUMES = ["0..4 copies of each face", "the specification (p pairs and m melds fit into the counts simultaneously) is an integer constraint system solved by Z3 for every "
           "path that reports no win, and a witness decomposition for every path that reports one"]
warm = prewarm


def idx(text):
    return [fidx(text[i:i + 2]) for i in range(0, len(text), 2)]


def hand(h, free, fixed, lo, hi, pairs, melds, order, top):
    c = sym_counts(h, idx(free), top, total=(lo, hi))
    for f in idx(fixed):
        c[f] = c[f] + 1
    o = list(range(34))
    if order == "down":
        o.reverse()
    elif order == "mid":
        o = o[5:] + o[:5][::-1]
    t = build_hand(h, c, o)
    w = h.mod("mahjong.container.pattern.win").NormalTypeWin(pairs, melds)
    got = w.match(t)
    win_exact(h, got, c, melds, pairs, "standard win with %d pairs and %d melds" % (pairs, melds))
    h.check(same_counts(h, counts_of(t), c), "the hand still holds the same tiles")
    h.obs(got)


def wins(tier):
    """(free faces, fixed tiles, min and max number of free tiles, pairs, melds, order, max copies)"""
    r = []
    m5, m7, m9 = "1m2m3m4m5m", "2m3m4m5m6m7m8m", "1m2m3m4m5m6m7m8m9m"
    for o in ("up", "down"):
        r.append((m5, "", 2, 6, 1, 1, o, 4))
        r.append((m7, "", 5, 5, 1, 1, o, 4))
        r.append(("7m8m9m1p2p3p1z", "", 5, 5, 1, 1, o, 3))
        r.append(("5m6m7m1z5z", "", 6, 6, 0, 2, o, 4))
        r.append(("1p2p3p4p5p", "", 8, 8, 1, 2, o, 4))
    r.append(("3m4m5m6m", "1p1p1p7s8s9s", 6, 6, 0, 4, "up", 4))
    r.append(("7s8s9s", "1m1m1m2m2m2m", 6, 7, 0, 4, "mid", 4))
    r.append(("1p2p5z", "1m1m9m9m", 5, 6, 3, 1, "up", 4))
    r.append((m9, "", 3, 3, 0, 1, "mid", 3))
    r.append((m9, "", 2, 2, 1, 0, "mid", 2))
    r.append(("1s2s3s4s", "", 4, 8, 2, 1, "mid", 4))
    r.append(("6s7s8s9s", "1z1z1z2z2z5p6p7p", 6, 6, 1, 4, "mid", 4))
    r.append(("3p4p5p6p7p", "1m2m3m9m9m9m", 8, 8, 1, 4, "up", 4))
    r.append(("4s5s6s", "1m1m2m2m3m3m7p8p", 6, 6, 1, 4, "down", 4))
    r.append(("2m3m4m5m", "6m7m8m1p1p", 9, 9, 1, 4, "up", 4))
    # more tiles than the win needs
    r.append(("3p4p5p6p7p", "", 14, 14, 1, 4, "up", 4))
    r.append((m7, "", 14, 14, 1, 4, "up", 4))
    r.append(("1m2m3m4m5m6m", "7m8m9m9m9m", 9, 9, 1, 4, "mid", 4))
    r.append(("3s4s5s6s", "2s2s7s8s9s1z1z1z6p7p", 8, 10, 1, 4, "up", 4))
    r.append(("4m5m6m", "1p1p2p2p3p3p5s5s7s8s9s1z2z3z", 6, 10, 1, 4, "down", 4))
    r.append(("1s2s3s4s5s6s", "1p5p9p", 7, 8, 1, 2, "mid", 3))
    if tier == "thorough":
        for o in ("up", "mid"):
            r.append((m9, "", 5, 5, 1, 1, o, 4))
            r.append((m7, "", 8, 8, 1, 2, o, 4))
            r.append((m5, "", 11, 11, 1, 3, o, 4))
            r.append((m5, "", 14, 14, 1, 4, o, 4))
        r.append(("1m2m3m4m5m6m", "", 9, 9, 0, 3, "down", 4))
        r.append(("1m2m3m4m5m6m", "", 14, 14, 1, 4, "down", 4))
        r.append((m9, "", 8, 8, 1, 2, "mid", 4))
        r.append(("1m9m1p9p1s9s1z7z", "", 8, 8, 1, 2, "up", 4))
        r.append((m9, "1z1z1z", 11, 11, 1, 4, "up", 4))
        r.append((m9, "", 14, 14, 1, 4, "up", 4))
    return r


def cases(tier):
    r = []
    for n, w in enumerate(wins(tier)):
        big = tier == "thorough" and n >= len(wins("quick"))
        r.append(Case("%s+%s.%d-%d.p%dm%d.%s" % (w[0], w[1], w[2], w[3], w[4], w[5], w[6]), hand, *w, optional=big, weight=w[3] * len(w[0])))
    return r


BOUNDS += ["free counts 0..4 over: %s" % "; ".join("%s%s (%d..%d free tiles, %d pairs %d melds, inserted %s)" % (w[0], "+" + w[1] if w[1] else "", w[2], w[3], w[4], w[5], w[6])
                                                 for w in wins("quick")), "thorough additionally all nine faces of a suit up to 14 tiles (time-boxed)"]
