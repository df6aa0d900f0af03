"""Final standings."""
from symx.harness import Case
from .common import prewarm
from .world import YAKU, start
from .C27 import HAND

FUNCTIONS = ["game_finish (final scores, points, ranks)", "agari_command", "no_win_command", "number_list", "GameInterpreter.interpret", "execute_new_value"]
BOUNDS = ["symbolic final scores -2000..9999 for every seat (all orders and ties), symbolic integral points -999..999 and points with one decimal, 3 and 4 players, "
          "three-player logs that list three or four seats, last game won or drawn, with and without score list"]
ASSUMES = ["the last event lists score and point of every seat"]
warm = prewarm


def final(h, n, listed, how, points):
    w = start(h, n, k=7)
    w.ignore.add("faans")
    fin = []
    for p in range(listed):
        s = h.int("s%d" % p, -2000, 9999) if p < n else 0
        if points == "symbolic":
            v = h.int("p%d" % p, -999, 999)
            fin.append((s, (str(v), v)))
        else:
            v = [45.2, -12.5, 30.0, -62.7][p]
            fin.append((s, ("%.1f" % v, v)))
    sc = [(250, 10), (250, -10), (240, 0), (260, 0)]
    if how == "win":
        w.win(2, 0, HAND, 20, [(1, YAKU[1], 1)], sc, fin)
    elif how == "tsumo":
        w.win(1, 1, HAND, 20, [(0, YAKU[0], 1)], sc, fin)
    else:
        w.nobody("nm" if how == "reason" else None, sc if how != "bare" else None, fin)
    w.check("last game")
    got = [w.got[(p, "player", "rank")] for p in range(n)]
    h.check(sorted([h.value(x) for x in got]) == list(range(1, n + 1)), "the ranks are a permutation")
    for p in range(n):
        for q in range(n):
            if p != q:
                better = h.or_(fin[p][0] > fin[q][0], h.and_(fin[p][0] == fin[q][0], p < q))
                h.check(better == (got[p] < got[q]), "a higher score has the better rank, ties by seat")
    ev = [(c.property.name, c.event.name) for c in w.last if c.property.name in ("rank", "final_score", "final_point")]
    h.check(len(ev) == 3 * n and all(e == "record_finish" for _, e in ev), "kind of the final commands")
    h.obs(got)


def not_last(h, n):
    """no final standing before the last game ends"""
    w = start(h, n)
    w.ignore.add("faans")
    w.win(2, 0, HAND, 20, [(1, YAKU[1], 1)], [(h.int("s", -9, 9), 1), (250, -10), (240, 0), (260, 0)])
    w.check("a game in between")


def cases(tier):
    r = []
    for n, l in ((4, 4), (3, 3), (3, 4)):
        for how in ("win", "tsumo", "drawn", "reason", "bare"):
            if how == "win" or n == 3 or tier != "quick" or how == "drawn":
                r.append(Case("%d of %d.%s.symbolic" % (n, l, how), final, n, l, how, "symbolic"))
        r.append(Case("%d of %d.decimal" % (n, l), final, n, l, "win", "decimal"))
    r += [Case("not last.%d" % n, not_last, n) for n in (4, 3)]
    return r
