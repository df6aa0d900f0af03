"""Unicode glyphs."""
from symx.harness import Case
from .common import FACES, INDEX, sym_tile, prewarm
import unicodedata

FUNCTIONS = ["to_unicode_tile", "to_plain_tile", "MixedCategory.index (TILE_CATEGORY)", "SubCategory.index"]
BOUNDS = ["every tile (34 faces and 3 red fives): the full domain"]
ASSUMES = []
warm = prewarm

NUM = ["ONE", "TWO", "THREE", "FOUR", "FIVE", "SIX", "SEVEN", "EIGHT", "NINE"]
HONOR = ["EAST WIND", "SOUTH WIND", "WEST WIND", "NORTH WIND", "WHITE DRAGON", "GREEN DRAGON", "RED DRAGON"]
NAMES = ["MAHJONG TILE %s OF %s" % (n, s) for s in ("CHARACTERS", "CIRCLES", "BAMBOOS") for n in NUM] + ["MAHJONG TILE " + n for n in HONOR]
GLYPH = [unicodedata.lookup(n) for n in NAMES]


def one(h):
    m = h.mod("mahjong.tenhou_record_check")
    t, i = sym_tile(h, "t")
    g = m.to_unicode_tile(t)
    h.check(g == GLYPH[i], "glyph of the tile")
    h.check(m.to_plain_tile(t) == "%d%s" % (t.number, t.color), "plain name of the tile")
    h.obs(g)


def two(h):
    m = h.mod("mahjong.tenhou_record_check")
    t, i = sym_tile(h, "t")
    u, j = sym_tile(h, "u")
    h.check((m.to_unicode_tile(t) == m.to_unicode_tile(u)) == (i == j), "different faces never share a glyph")


def cases(tier):
    return [Case("one", one), Case("two", two)]
