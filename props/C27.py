"""Results of a game."""
from symx.harness import Case
from .common import prewarm
from .world import DRAWN, YAKU, World, start

FUNCTIONS = ["agari_command", "no_win_command", "game_finish", "tile_str_list", "number_list", "GameInterpreter.interpret", "execute_new_value", "TenhouCommandTranslator.translate"]
BOUNDS = ["every winner and discarder (or self-draw), symbolic scores -3000..9999 and changes -2000..2000 per seat, 3 and 4 players",
          "every yaku and yakuman name with symbolic han count, lists of up to three yaku or yakuman", "every draw reason and the exhaustive draw, with and without score list",
          "two winners on one discard, a win after an earlier result, results after a riichi"]
ASSUMES = ["the hand of a win event contains the winning tile, as tenhou writes it", "a win lists its yaku (with han counts) or its yakuman"]
warm = prewarm

HAND = [0, 1, 2, 20, 21, 23, 40, 44, 48, 76, 77, 108, 109, 110]


def sc(h, n, name="s"):
    return [(h.int("%s%d" % (name, p), -3000, 9999), h.int("%sd%d" % (name, p), -2000, 2000)) for p in range(n)] + [(0, 0)] * (4 - n)


def win(h, n, hist):
    w = start(h, n)
    if hist == "riichi":
        w.reach(1, 1)
        w.draw(0, 100)
        w.reach(1, 2)
    elif hist == "draw":
        w.nobody("yao9", None)
    elif hist == "win":
        w.win(0, 0, HAND, 20, [(0, YAKU[0], 1)], sc(h, n, "t"))
    who, src = h.int("who", 0, n - 1), h.int("from", 0, n - 1)
    w.win(who, src, HAND, HAND[h.value(h.int("machi", 0, 3))], [(1, YAKU[1], h.int("han", 1, 2))], sc(h, n))
    w.check("win")


def double(h):
    """two winners on one discard"""
    w = start(h)
    a, b, src = h.int("a", 0, 3), h.int("b", 0, 3), h.int("from", 0, 3)
    h.assume(h.and_(a != src, b != src, a != b))
    w.win(a, src, HAND, 48, [(8, YAKU[8], 1)], sc(h, 4, "s"))
    w.check("first win")
    w.win(b, src, [t + 2 if t == 108 else t for t in HAND], 48, [(7, YAKU[7], 1), (52, YAKU[52], 2)], sc(h, 4, "t"))
    w.check("second win")


def names(h, kind):
    """every yaku"""
    w = start(h)
    i = h.value(h.int("yaku", 0, len(YAKU) - 1))
    y = [(i, YAKU[i], h.int("han", 1, 13))]
    if kind == "several":
        j = h.value(h.int("second", 0, 2)) * 20
        y += [(j, YAKU[j], h.int("han2", 1, 6)), (54, YAKU[54], h.int("han3", 1, 6))]
    elif kind == "yakumans":
        j = h.value(h.int("second", 37, 40))
        y += [(j, YAKU[j], 1), (43, YAKU[43], 1)][:h.value(h.int("further", 1, 2))]
    w.win(1, h.value(h.int("from", 1, 2)), HAND, 0, y, [(250, 0)] * 4, yakuman=kind.startswith("yakuman"))
    w.check("win")


def sorted_in(h, tiles, t):
    """t at its place, as tenhou lists a hand"""
    i = 0
    while i < len(tiles) and not h.branch(tiles[i] >= t):
        i += 1
    h.assume(h.all_([t != x for x in tiles]))
    return tiles[:i] + [t] + tiles[i:]


def tile(h, reds):
    """every winning tile"""
    w = start(h)
    t = h.int("t", 0, 135)
    hand = sorted_in(h, [4, 5, 6, 16, 18, 52, 53, 88, 90, 108, 109, 133] if reds else [4, 17, 18, 19, 53, 54, 89, 91, 108, 133], t)
    w.win(2, h.value(h.int("from", 2, 3)), hand, t, [(1, YAKU[1], 1)], [(250, 0)] * 4)
    w.check("win")


def nobody(h, n, hist):
    w = start(h, n)
    if hist:
        w.win(1, 2, HAND, 20, [(0, YAKU[0], 1)], sc(h, n, "t"))
    typ = h.choice("type", [None] + sorted(DRAWN))
    w.nobody(typ, sc(h, n) if h.branch(h.bool("sc")) else None)
    w.check("drawn game")


def cases(tier):
    r = [Case("win.%d.%s" % (n, k), win, n, k) for n in (4, 3) for k in ("first", "riichi", "draw", "win")]
    r += [Case("double", double), Case("tile.reds", tile, True), Case("tile.plain", tile, False)]
    r += [Case("yaku." + k, names, k) for k in ("one", "several", "yakuman", "yakumans")]
    r += [Case("drawn.%d.%s" % (n, "later" if k else "first"), nobody, n, k) for n in (4, 3) for k in (False, True)]
    return r
