"""Start of a game."""
from symx.harness import Case
from . import longgame
from .common import prewarm
from .world import World, start

FUNCTIONS = ["game_init_command", "set_oya_command_yield", "hand_update", "tile_str_list", "number_list", "SubCategory.category", "GameInterpreter.interpret", "execute_new_value",
             "PropertyTypeManager.default_value", "TenhouCommandTranslator.translate/postprocess"]
BOUNDS = ["all rounds the rules know (symbolic), sub-round 0..30, deposits 0..20, dealer, symbolic scores -3000..9999 per seat, 3 and 4 players",
          "every combination of length, player count and one of: tips; red fives and open tanyao; speed and shadow; level; unknown bits", "any first indicator (0..135); any tile dealt to any seat next to 12 plain ones", "as the first game and after an earlier game with draws, discards, calls, riichi, indicators and a result",
          "scripted games of full length with all kinds of calls (two, thorough: three), one tile of each and the scores symbolic, 3 and 4 players"]
ASSUMES = ["a start event lists round, sub-round, deposits, two dice and the indicator"]
warm = prewarm

HANDS = [[4 * i + p for i in (0, 1, 2, 4, 13, 20, 22, 25, 27, 28, 30, 33, 17)] for p in range(4)]


def before(h, n, earlier):
    """a world before the start event"""
    if not earlier:
        return World(h, n)
    w = start(h, n, {1: [33, 34], 2: [80, 120]}, k=3, oya=2)
    w.draw(0, 88)
    w.discard(0, 88)
    w.meld(1, 1 + 8 + 32 * 3 + 512 * 3 * 8, [33, 34], [32])
    w.discard(1, 5)
    if n == 3:
        w.meld(2, 32 + 256 * 120, [120], [], north=True)
    w.draw(2, 81)
    w.reach(2, 1)
    w.discard(2, 81)
    w.reach(2, 2)
    w.dora(52)
    if earlier == "win":
        w.win(2, 1, [80, 8], 8, [(1, "立直", 1)], [(250, -10), (240, 20), (230, 5), (220, 0)][:n] + [(0, 0)] * (4 - n))
    elif earlier == "draw":
        w.nobody(None, None)
    w.draw(0, 92)
    w.ignore |= {"is_win", "is_discard_lose_game", "faans"}     # results stay until the next result
    return w


def hands_of(n):
    return [list(HANDS[p]) for p in range(n)]


def numbers(h, n, earlier):
    w = before(h, n, earlier)
    top = 11
    k = h.int("k", 0, top)
    ten = [h.int("ten%d" % p, -3000, 9999) for p in range(n)] + [0] * (4 - n)
    w.init(k, h.int("sub", 0, 30), h.int("sticks", 0, 20), 72, h.int("oya", 0, n - 1), ten, hands_of(n), dice=(h.int("dice0", 0, 5), h.int("dice1", 0, 5)))
    w.check("start event")
    w.draw(1, 44)
    w.discard(1, 44)
    w.check("first turn")


def short(h):
    """an east-only game"""
    w = World(h, 4, 1)
    w.init(h.int("k", 0, 7), 0, 1, 7, h.int("oya", 0, 3), [250] * 4, hands_of(4))
    w.check("start event")


def kinds(h, bits):
    """every combination of further game type bits"""
    kind = 1
    for b in bits:
        if h.branch(h.bool("bit%d" % b)):
            kind += b
    w = World(h, 4, kind)
    n = w.players
    w.init(h.int("k", 0, 11 if kind // 8 % 2 else 7), h.int("sub", 0, 3), 1, 7, h.int("oya", 0, n - 1), [250] * n + [0] * (4 - n), hands_of(n))
    w.check("start event")


def tile(h, n, earlier, what):
    w = before(h, n, earlier)
    hands = hands_of(n)
    t = h.int("t", 0, 135)
    if what == "hand":
        hands[h.value(h.int("seat", 0, n - 1))][h.value(h.int("pos", 0, 1)) * 12] = t
    w.init(4, 1, 0, t if what == "dora" else 9, 1, [250] * n + [0] * (4 - n), hands)
    w.check("start event")
    w.discard(0, hands[0][0])
    w.check("first discard counts as from the hand")


def cases(tier):
    r = []
    for n in (4, 3):
        for e in ("", "win", "draw", "open"):
            r.append(Case("numbers.%d.%s" % (n, e or "first"), numbers, n, e))
        for e in ("", "win"):
            r += [Case("dora.%d.%s" % (n, e or "first"), tile, n, e, "dora"), Case("hand.%d.%s" % (n, e or "first"), tile, n, e, "hand")]
    r.append(Case("east only", short))
    r += [Case("games.%d" % n, longgame.record, n, 3, "whole games", ("init",)) for n in (4, 3)]
    r += [Case("kinds.%s" % "+".join([str(b) for b in bs]), kinds, bs) for bs in ((8, 16, 512), (8, 16, 2, 4), (16, 64, 256), (16, 32, 128), (8, 1024, 2048))]
    return r
