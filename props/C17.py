"""Tenhou tile numbers."""
from symx.harness import Case
from .common import FACES, INDEX, mk_tile, face_of, sym_tile, prewarm

FUNCTIONS = ["tile_from_tenhou", "tile_to_tenhou_range", "MixedCategory.index/category (TENHOU_TILE_CATEGORY)", "SubCategory.index/category",
             "tile_set_from_tenhou", "Tile.__new__", "AkaTile.__new__"]
BOUNDS = ["every tile number 0..135 and every tile (34 faces, 3 red fives): the full domain"]
ASSUMES = []
warm = prewarm
RED = (16, 52, 88)


def number(h):
    m = h.mod("mahjong.record.utils.value.tile")
    k = h.int("k", 0, 135)
    t = m.tile_from_tenhou(k)
    suit = h.ite(k < 36, 0, h.ite(k < 72, 1, h.ite(k < 108, 2, 3)))
    s = "mpsz".index(h.value(t.color))
    h.check(s == suit, "suit of tile number k")
    n = k // 4 - 9 * suit + 1
    red = h.or_(k == 16, k == 52, k == 88)
    h.check(t.number == h.ite(red, 0, n), "face of tile number k")
    h.check((type(t).__name__ == "AkaTile") == red, "red five exactly for the first five")
    h.check(face_of(t)[0] == n, "face with red fives as fives")
    a = h.mod("mahjong.tile.definition")
    h.check(t == a.Tile(n, "mpsz"[s]), "equals the plain tile of its face")
    h.obs([str(t), k])


def back(h):
    m = h.mod("mahjong.record.utils.value.tile")
    t, i = sym_tile(h, "t")
    r = list(m.tile_to_tenhou_range(t))
    h.check(len(r) == 4, "four numbers per tile")
    h.check(h.all_([a == 4 * i + d for d, a in enumerate(r)]), "the numbers are those of the face")
    k = h.int("k", 0, 135)
    h.check((m.tile_from_tenhou(k) == t) == h.any_([k == x for x in r]), "a number is listed iff its tile equals the tile")
    h.obs([r, str(t)])


def pair(h):
    """two numbers: sets built from numbers count faces"""
    m = h.mod("mahjong.record.utils.value.meld")
    a, b = h.int("a", 0, 135), h.int("b", 0, 135)
    s = m.tile_set_from_tenhou([a, b])
    h.check(len(s) == 2, "set of two numbers")
    h.check((len(list(s.keys())) == 1) == (a // 4 == b // 4), "numbers of one face are one tile")


def cases(tier):
    return [Case("number", number), Case("back", back), Case("pair", pair)]
