"""Tile equality, hashing and ordering."""
from symx.harness import Case
from symx import instrument

FUNCTIONS = ["Tile.__new__/__hash__/__eq__/__ne__/__lt__ (and total_ordering's <=, >, >=)", "AkaTile.__new__", "tile_hash_num"]
BOUNDS = ["two independent symbolic tiles over all 34 faces and 3 red fives (number 0..9 and suit m/p/s/z, validity assumed)",
          "three independent tiles per suit pair for transitivity", "fresh tile pools on every path: every construction order of the tiles involved is covered"]
ASSUMES = ["tiles are valid: suits 1-9 (or the red five 0), honors 1-7"]

SUITS = "mpsz"


def fresh(h):
    """tile modules executed anew: construction order starts from empty pools"""
    instrument.purge("mahjong")
    return h.mod("mahjong.tile.definition")


def tile(h, d, name):
    s = h.int(name + ".suit", 0, 3)
    n = h.int(name + ".number", 0, 9)
    h.assume(h.or_(s < 3, h.and_(n >= 1, n <= 7)))
    suit = h.choice(name + ".s", range(4)) if False else s
    suit = h.value(suit)
    red = h.branch(n == 0)
    t = d.AkaTile(n, SUITS[suit]) if red else d.Tile(n, SUITS[suit])
    return t, s, h.ite(n == 0, 5, n)


def pair(h):
    d = fresh(h)
    a, sa, fa = tile(h, d, "a")
    b, sb, fb = tile(h, d, "b")
    ka, kb = sa * 10 + fa, sb * 10 + fb
    h.check((a == b) == (ka == kb), "== is equality of suit and face")
    h.check((a != b) == (ka != kb), "!= is the negation")
    h.check(h.or_(ka != kb, hash(a) == hash(b)), "equal tiles hash alike")
    h.check((a < b) == (ka < kb), "<")
    h.check((a <= b) == (ka <= kb), "<=")
    h.check((a > b) == (ka > kb), ">")
    h.check((a >= b) == (ka >= kb), ">=")
    h.obs([str(a), str(b), a < b])


def again(h):
    d = fresh(h)
    a, sa, fa = tile(h, d, "a")
    b, _, _ = tile(h, d, "b")
    n, s = a.number, a.color
    c = d.AkaTile(n, s) if h.branch(n == 0) else d.Tile(n, s)
    h.check(h.and_(a == c, hash(a) == hash(c)), "the same tile again is equal")
    h.check(h.and_(c.color == s, c.number == n), "asked face is delivered")


def inset(h):
    """equal tiles are one element of a set / one key of a mapping"""
    d = fresh(h)
    a, sa, fa = tile(h, d, "a")
    b, sb, fb = tile(h, d, "b")
    n = len({a, b})
    h.check(n == h.ite(h.and_(sa == sb, fa == fb), 1, 2), "set of two tiles")
    ts = h.mod("mahjong.container.set").TileSet([a, b])
    h.check(ts[b] == h.ite(h.and_(sa == sb, fa == fb), 2, 1), "tile counts merge equal tiles")
    s = sorted([a, b])
    h.check(s[0] <= s[1], "sorting")


def cases(tier):
    return [Case("pair", pair), Case("again", again), Case("inset", inset)]
