"""Pair, triplet, run and successor of a tile."""
from symx.harness import Case
from .common import SUITS, face_of
from .C01 import fresh, tile

FUNCTIONS = ["Tile.__new__ (flush/triplet/pair construction)", "AkaTile.__new__", "Tile.next", "AkaTile.next", "Tile.flush", "Tile.triplet", "Tile.pair",
             "tile_pair", "tile_triplet", "tile_flush", "Tile.repeat", "AkaTile.repeat", "TileSet.__init__"]
BOUNDS = ["one symbolic tile over all 34 faces and 3 red fives; optionally one further symbolic tile built before it (all construction orders from empty pools)"]
ASSUMES = ["tiles are valid: suits 1-9 (or the red five 0), honors 1-7"]


def as_counts(ts):
    return {face_of(t): n for t, n in ts.items()}


def one(h, before):
    d = fresh(h)
    if before:
        tile(h, d, "b")
    a, _, _ = tile(h, d, "a")
    n, s = face_of(a)
    n = h.value(n)
    suit = s in "mps"
    n_, s_ = n, s
    h.check(as_counts(a.pair()) == {(n_, s_): 2}, "pair is two copies")
    h.check(as_counts(a.triplet()) == {(n_, s_): 3}, "triplet is three copies")
    fl = a.flush()
    if suit and n <= 7:
        h.check(fl is not None, "a run starts at 1..7")
        h.check(as_counts(fl) == {(n, s): 1, (n + 1, s): 1, (n + 2, s): 1}, "run is n, n+1, n+2")
    else:
        h.check(fl is None, "no run for 8, 9 and honors")
    nx = a.next()
    if suit and n <= 8:
        h.check(nx is not None, "a successor exists up to 8")
        h.check(h.and_(nx == d.Tile(n + 1, s), nx.number == n + 1, nx.color == s), "successor is n+1")
    else:
        h.check(nx is None, "no successor for 9 and honors")
    h.check(h.and_(len(a.pair()) == 2, len(a.triplet()) == 3), "sizes")
    for f, want in ((d.tile_pair, a.pair()), (d.tile_triplet, a.triplet()), (d.tile_flush, fl)):
        h.check(f(a) == want, "unit functions give the same units")
    # asking again after the units were handed out gives the same units
    h.check(as_counts(a.pair()) == {(n_, s_): 2}, "pair again")
    h.obs([str(a), None if fl is None else str(fl), str(nx)])


def sequence(h, numbers):
    """tiles of every suit asked one after the other: an answer never depends on what was asked before"""
    d = fresh(h)
    asked = []
    for k in range(3):
        s = "mpsz"[h.value(h.int("s%d" % k, 0, 3))]
        n = h.value(h.choice("n%d" % k, numbers))
        t = d.AkaTile(0, s) if h.branch(h.bool("r%d" % k)) and n == 5 and s != "z" else d.Tile(n, s)
        asked.append((t, n, s))
    for t, n, s in asked + asked[:1]:
        nx, fl = t.next(), t.flush()
        h.check((nx is not None) == (s != "z" and n <= 8), "a successor exists up to 8")
        if nx is not None:
            h.check(face_of(nx) == (n + 1, s), "successor is n+1 of the same suit")
        h.check((fl is not None) == (s != "z" and n <= 7), "a run starts at 1..7")
        if fl is not None:
            h.check(as_counts(fl) == {(n, s): 1, (n + 1, s): 1, (n + 2, s): 1}, "run is n, n+1, n+2")
        h.check(as_counts(t.pair()) == {(n, s): 2} and as_counts(t.triplet()) == {(n, s): 3}, "pair and triplet")


def red(h):
    """a red five answers like the plain five"""
    d = fresh(h)
    s = SUITS[h.value(h.int("suit", 0, 2))]
    if h.branch(h.bool("plain_first")):
        p, r = d.Tile(5, s), d.AkaTile(0, s)
    else:
        r, p = d.AkaTile(0, s), d.Tile(5, s)
    h.check(h.and_(r.pair() == p.pair(), r.triplet() == p.triplet(), r.flush() == p.flush(), r.next() == p.next()), "red five units")
    h.check(as_counts(r.flush()) == {(5, s): 1, (6, s): 1, (7, s): 1}, "red five run")


def cases(tier):
    r = [Case("one", one, False), Case("red", red)]
    r.append(Case("after", one, True))
    r += [Case("sequence.%d" % k, sequence, n) for k, n in enumerate(((5, 7), (1, 6), (4, 5)))]
    return r
