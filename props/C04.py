"""Printing a hand and parsing it back."""
from symx.harness import Case
from .common import FACES, INDEX, SUITS, mk_tile, face_of, prewarm, sym_tile

FUNCTIONS = ["TileSet.__str__", "TileSet._gen_str_iter", "TileSet.re_sort", "TileSet.__repr__", "tiles_from_string", "tile_set_from_string",
             "TileSet.__eq__ (Counter)"]
BOUNDS = ["any two tiles of all 37 in any insertion order, symbolic counts 1..4", "windows of 4 faces over several suits including red fives, every subset, "
          "symbolic counts 0..4, three insertion orders", "one full 14-tile hand shape with symbolic replacement tile"]
ASSUMES = ["valid tiles, counts 0..4"]
warm = prewarm


def spec_parse(text):
    """own reading of the notation: list of (suit, face) in order, or None if malformed"""
    out, run = [], []
    for ch in text:
        if ch in "0123456789":
            run.append(int(ch))
        elif ch in SUITS:
            out.append((ch, run))
            run = []
        else:
            return None
    return None if run else out


def roundtrip(h, hand, want):
    """want: {(number,suit): count} with red fives as fives"""
    text = h.value(str(hand))
    got = {}
    for t, n in hand.items():
        k = face_of(t)
        got[k] = got.get(k, 0) + n
    h.check(h.and_(h.all_([got.get(k, 0) == n for k, n in want.items()]), len(got) == len(want)), "printing does not change the hand")
    p = spec_parse(text)
    h.check(p is not None, "printed form is well formed")
    suits = [s for s, _ in p]
    h.check(suits == sorted(set(suits)), "grouped by suit, in suit order")
    flat = {}
    for s, run in p:
        r5 = [5 if x == 0 else x for x in run]
        h.check(len(run) > 0 and r5 == sorted(r5), "faces in order inside a suit")
        for x in r5:
            flat[(x, s)] = flat.get((x, s), 0) + 1
    h.check(h.and_(h.all_([flat.get(k, 0) == n for k, n in want.items()]), len(flat) == len(want)), "printed form lists the hand")
    back = h.mod("mahjong.container.utils").tile_set_from_string(text)
    h.check(back == hand, "parsing gives an equal hand")
    h.check(h.all_([back[t] == n for t, n in list(hand.items())]), "parsing gives the same counts")
    h.check(str(back) == text, "printing the parsed hand gives the same text")
    h.check(repr(hand) == text, "repr is the printed form")
    h.obs(text)


def two(h):
    T = h.mod("mahjong.container.set").TileSet
    t, i = sym_tile(h, "t")
    u, j = sym_tile(h, "u")
    if h.branch(h.bool("aslist")):
        hand = T([t, u])
        want = {FACES[i]: 2} if i == j else {FACES[i]: 1, FACES[j]: 1}
    else:
        hand = T()
        hand[t] = h.int("n", 1, 2)
        n = hand[t]
        m = h.int("m", 1, 2)
        hand[u] += m
        want = {FACES[i]: n + m} if i == j else {FACES[i]: n, FACES[j]: m}
    roundtrip(h, hand, want)


def window(h, faces, hi, order):
    T = h.mod("mahjong.container.set").TileSet
    hand = T()
    want = {}
    for k in order:
        f = faces[k]
        n = h.int("n.%d%s" % f, 0, hi)
        if h.branch(n >= 1):
            hand[mk_tile(h, f)] += n
            k = (5 if f[0] == 0 else f[0], f[1])
            want[k] = want.get(k, 0) + n
    roundtrip(h, hand, want)


def full(h):
    """a 14-tile hand with one free tile"""
    u = h.mod("mahjong.container.utils")
    hand = u.tile_set_from_string("9m1z340p123406s77z")
    want = {}
    for t, n in hand.items():
        want[face_of(t)] = want.get(face_of(t), 0) + n
    t, i = sym_tile(h, "t")
    hand[t] += 1
    want[FACES[i]] = want.get(FACES[i], 0) + 1
    roundtrip(h, hand, want)


def cases(tier):
    r = [Case("two", two), Case("full", full)]
    wins = [[(1, "m"), (0, "m"), (9, "m"), (1, "z")], [(7, "z"), (3, "s"), (4, "p"), (0, "p")], [(5, "s"), (0, "s"), (6, "s"), (2, "z")]]
    hi = 2
    if tier == "thorough":
        hi = 4
        wins += [[(1, "m"), (2, "p"), (3, "s"), (4, "z")], [(4, "m"), (5, "m"), (0, "m"), (6, "m")], [(6, "z"), (5, "z"), (1, "s"), (0, "s")]]
    for n, w in enumerate(wins):
        for o in ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)):
            r.append(Case("win%d.%s" % (n, "".join(map(str, o))), window, w, hi, o))
    return r
