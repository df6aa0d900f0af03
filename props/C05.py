"""Hand notation."""
from symx.harness import Case
from .common import face_of, prewarm

FUNCTIONS = ["tiles_from_string", "tile_set_from_string", "_tile_group_regex", "Tile.__new__", "AkaTile.__new__", "TileSet.re_sort"]
BOUNDS = ["texts of length 2 and 3 over an Arabic-Indic digit, a full-width digit, a Chinese numeral, 5, m and z", "every text of length 0..4 over characters 0..0x66F (quick), 0..5 (thorough); this covers digits of other scripts, letters, signs and newlines",
          "every two characters over 0 1 5 7 m p s z and space inside four long hands (14 to 46 characters)", "every text of length 5..6 over the alphabet 0 1 5 7 8 9 m z x (quick), 7 (thorough)"]
OUTSIDE = ["longer texts; characters above U+066F"]
ASSUMES = []
warm = prewarm


def spec(h, text):
    """[(number, suit)] the text denotes; number 0 = red five"""
    out = []
    n = len(text)
    i = 0
    while i < n:
        # maximal digit run starting at i
        j = i
        while j < n and 48 <= ord(text[j]) and ord(text[j]) <= 57:
            j += 1
        if j == i:
            i += 1
            continue
        if j < n:
            c = text[j]
            if c == "m" or c == "p" or c == "s":
                out += [(d, c) for d in text[i:j]]
            elif c == "z":
                k = j
                while k > i and 49 <= ord(text[k - 1]) and ord(text[k - 1]) <= 55:
                    k -= 1
                out += [(d, c) for d in text[k:j]]
        i = j
    return out


def parse(h, n, chars=None, frame=None):
    text = h.text("s", n, chars) if chars else h.text("s", n, lo=0, hi=0x66F)
    if frame:
        text = frame[0] + text + frame[1]
    u = h.mod("mahjong.container.utils")
    tiles = list(u.tiles_from_string(text))
    want = spec(h, text)
    h.check(len(tiles) == len(want), "number of tiles")
    got, exp = {}, {}
    for t, (d, c) in zip(tiles, want):
        v = ord(d) - 48
        h.check(h.and_(t.number == v, t.color == c), "tiles denoted, in order")
    hand = u.tile_set_from_string(text)
    h.check(len(hand) == len(want), "hand size")
    for d, c in want:
        v = h.value(ord(d) - 48)
        c = h.value(c)
        k = (5 if v == 0 else v, c)
        exp[k] = exp.get(k, 0) + 1
    for t, m in hand.items():
        k = face_of(t)
        got[k] = got.get(k, 0) + m
    h.check(got == exp, "parsed hand holds exactly the tiles denoted")
    keys = list(hand.keys())
    h.check(h.all_([a < b for a, b in zip(keys, keys[1:])]), "parsed hand is sorted")
    h.obs([[str(t) for t in tiles], str(hand)])


def cases(tier):
    top = 5 if tier == "thorough" else 4
    r = [Case("len%d" % n, parse, n) for n in range(top + 1)]
    r += [Case("small%d" % n, parse, n, "01578mzx") for n in ((5, 6, 7) if tier == "thorough" else (5,))]
    r += [Case("script%d" % n, parse, n, "\u0663\uff15\u4e945mz") for n in (2, 3)]
    r += [Case("long%d" % k, parse, 2, "0157mpsz ", f) for k, f in enumerate((("1112223334445556", "m"), ("123406789m1112345678999p05", "123456789s1234567z"), ("11223344556677", "z"),
                                                                              ("", "123456789123456789s")))]
    return r
