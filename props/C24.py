"""Draw and discard commands."""
from symx.harness import Case
from . import longgame
from .common import prewarm
from .world import World, face, start

FUNCTIONS = ["draw_command", "discard_command", "tile_change_tenhou", "tile_str_list", "hand_update", "CommandTranslator.__call__/fallback_call/postprocess",
             "TenhouCommandTranslator.translate/postprocess", "GameInterpreter.interpret", "execute_new_value", "add_general", "remove_all", "TenhouEvent.__init__", "tile_from_tenhou"]
BOUNDS = ["a draw and the discard of any tile (numbers 0..135) by any seat, 3 and 4 players; two draws and discards in every interleaving of two players with tiles from a "
          "range holding a red five, plain fives and sixes", "histories of 3 (quick) / 4 (thorough) draw/discard/call events", "the whole visible state of every player is compared after each event",
          "scripted games of full length with all kinds of calls (two, thorough: three), one tile of each and the scores symbolic, 3 and 4 players"]
ASSUMES = ["a discarded tile is in the discarding player's hand", "events of a game follow its start event"]
warm = prewarm


def one(h, n, drawn):
    """draw any tile, discard any tile of the hand"""
    who = h.int("who", 0, n - 1)
    t, d = h.int("t", 0, 135), h.int("d", 0, 135)
    if drawn == "same face":
        h.assume(t // 4 == d // 4)
        t0 = d
        h.assume(h.or_(t != d, t == d))
    seat = h.value(who)
    w = start(h, n, {seat: [d] if drawn != "drawn" else []})
    w.check("start")
    if drawn == "drawn":
        h.assume(t == d)
    if drawn != "nothing":
        w.draw(who, t)
        w.check("draw")
    w.discard(who, d)
    w.check("discard")


def several(h, n, steps, lo, hi):
    """interleaved draws and discards of two players; tiles of few faces, so copies and red fives meet"""
    tiles = {0: [lo, h.int("h", lo, hi)], 1: [hi]}
    w = start(h, n, {p: list(v) for p, v in tiles.items()})
    for s in range(steps):
        p = h.value(h.int("p%d" % s, 0, 1))
        k = h.choice("k%d" % s, ["draw", "discard"])
        if k == "draw":
            t = h.int("t%d" % s, lo, hi)
            w.draw(p, t)
            tiles[p].append(t)
        else:
            i = h.value(h.int("i%d" % s, 0, len(tiles[p]) - 1)) if len(tiles[p]) else None
            if i is None:
                return
            w.discard(p, tiles[p].pop(i))
        w.check("step")


def call_between(h):
    """the tile drawn before a call, a riichi or an indicator is not the tile drawn before the discard / still is"""
    t, d = h.int("t", 16, 23), h.int("d", 16, 23)
    k = h.choice("k", ["pon", "reach", "dora", "other draw", "bye"])
    w = start(h, 4, {1: [d, 32, 33, 34], 2: [t]})
    w.draw(1, t)
    if k == "pon":
        # the called tile comes from player 2, two tiles leave the hand of player 1
        w.meld(1, 1 + 8 + 32 * 3 + 512 * 3 * 8, [33, 34], [32])
    elif k == "reach":
        w.reach(1, h.int("step", 1, 2))
    elif k == "dora":
        w.dora(h.int("x", 16, 23))
    elif k == "other draw":
        w.draw(2, h.int("x", 16, 23))
    else:
        w.bye(1)
    w.discard(1, d)
    w.check("discard after " + k)


def cases(tier):
    r = []
    for n in (4, 3):
        for k in ("nothing", "drawn", "same face"):
            r.append(Case("one.%d.%s" % (n, k), one, n, k))
    r.append(Case("between", call_between))
    r += [Case("games.%d" % n, longgame.record, n, 2 if tier == "quick" else 3, "whole games", ("some",)) for n in (4, 3)]
    r.append(Case("several 2", several, 4, 2, 15, 18))
    r.append(Case("several 3", several, 4, 3, 16, 18, weight=4))
    r.append(Case("several 3 of 3", several, 3, 3, 52, 53, weight=4))
    if tier != "quick":
        r.append(Case("several 4", several, 4, 4, 88, 89, weight=9, optional=True))
        r.append(Case("several 3 wide", several, 4, 3, 15, 20, weight=9, optional=True))
    return r
