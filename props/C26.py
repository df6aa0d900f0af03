"""Meld commands."""
from symx.harness import Case
from . import longgame
from .common import prewarm
from .C18 import code, spec
from .world import start

FUNCTIONS = ["open_hand", "hand_update", "meld_from and the meld classes", "tile_str_list", "remove_all", "add_general", "GameInterpreter.interpret", "execute_new_value"]
BOUNDS = ["every code of every meld kind (chi, pon, added kan, closed kan, open kan, north), every caller, 3 and 4 players; the caller holds the tiles it contributes next to others "
          "of other faces", "two melds of one player, melds of two players, a draw before and a discard of the drawn tile after the call",
          "scripted games of full length with all kinds of calls (two, thorough: three), one tile of each and the scores symbolic, 3 and 4 players"]
ASSUMES = ["the caller holds the contributed tiles", "meld codes as tenhou emits them"]
warm = prewarm


def one(h, kind, n):
    seat = h.value(h.int("who", 0, n - 1))
    c, kui, t, x = code(h, kind)
    own, taken = spec(h, kind, t, x)
    w = start(h, n, {seat: list(own)})
    w.check("start")
    w.meld(seat, c, own, taken, north=(kind == "north"))
    w.check("call")


def after_draw(h, kind):
    """the tile drawn before the call counts as taken from the hand afterwards"""
    c, kui, t, x = code(h, kind)
    h.assume(h.all_([t % 4 == 0] if kind in ("closed", "open") else [h.or_(t == 12, t == 13)] if kind != "chi" else [t == 6, x[0] == 0, x[1] == 1]))
    own, taken = spec(h, kind, t, x)
    d = h.int("d", 16, 24)
    w = start(h, 4, {1: list(own)})
    w.draw(1, d)
    w.meld(1, c, own, taken)
    w.check("call")
    if kind in ("closed", "open", "added"):
        if h.branch(h.bool("rinshan")):
            r = h.int("r", 100, 103)
            w.draw(1, r)
            w.discard(1, r)
            w.check("discard of the replacement tile")
            return
    w.discard(1, d)
    w.check("discard after the call")


def two(h, a, b, same):
    """two melds of one player or of two"""
    fix = {"pon": (1 + 8 + 32 * 3 + 512 * 3 * 8, [33, 34], [32]), "closed": (256 * 88, [88, 89, 90, 91], []), "chi": (3 + 4 + 1024 * 3 * 8, [44, 48], [40]),
           "north": (32 + 256 * 122, [122], [])}
    c1, own1, taken1 = fix[a]
    c, kui, t, x = code(h, b, "b.")
    if b == "chi":
        h.assume(h.and_(t >= 3 * 9, t < 3 * 12))
    elif b in ("pon", "added"):
        h.assume(h.and_(t >= 3 * 12, t < 3 * 15))
    elif b in ("closed", "open"):
        h.assume(h.and_(t >= 4 * 12, t < 4 * 15))
    own, taken = spec(h, b, t, x)
    p, q = 2, (2 if same else 3)
    w = start(h, 4, {p: own1 + (list(own) if same else []), 3: [] if same else list(own)})
    w.meld(p, c1, own1, taken1, north=(a == "north"))
    w.check("first call")
    w.meld(q, c, own, taken, north=(b == "north"))
    w.check("second call")
    w.discard(q, 5)
    w.check("discard")


def cases(tier):
    kinds = ("chi", "pon", "added", "closed", "open", "north")
    r = [Case("one.%s.%d" % (k, n), one, k, n) for k in kinds for n in (4, 3)]
    r += [Case("draw." + k, after_draw, k) for k in ("chi", "pon", "closed", "open", "added")]
    r += [Case("games.%d" % n, longgame.record, n, 2 if tier == "quick" else 3, "whole games", ("call",)) for n in (4, 3)]
    for a in ("pon", "closed", "chi", "north"):
        for b in kinds:
            for same in (True, False):
                if tier != "quick" or b in ("chi", "closed", "added", "north"):
                    r.append(Case("two.%s.%s.%s" % (a, b, "same" if same else "other"), two, a, b, same))
    return r
