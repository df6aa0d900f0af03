"""Meld codes."""
from symx.harness import Case
from .common import prewarm, FACES, face_of

FUNCTIONS = ["meld_from", "meld_type", "Flush.__init__", "Triplet.__init__", "TenhouKan.__init__", "TenhouAddedKan.__init__", "Kita.__init__",
             "KanFromTriplet.__init__", "is_triplet_of_added_kan", "TenhouMeld.from_who", "Meld.is_opened", "Meld.__str__", "init_from_basic",
             "unpack_with", "to_bit_bytes", "bit_struct_from_desc (bitstruct modelled at its unpack/pack boundary)", "MixedCategory.index/category", "SubCategory.category"]
BOUNDS = ["every 16-bit code of every kind tenhou emits (chi 63 patterns x 64 tile copies, pon and added kan 102 patterns x 4 x 3 sources, kans 136 x 4, north 4) and every caller 0..3: full domain; two melds of a kind decoded one after the other (the same code for another caller, or another code)"]
ASSUMES = ["codes follow the tenhou layout: chi from the left neighbour, pon and open kan from one of the three others, fixed bits zero"]
warm = prewarm


class Ev:
    def __init__(self, who, m):
        self.attrib = {"who": str(who), "m": str(m), "tag": "N"}
        self.tag = "N"


def code(h, kind, name=""):
    """(code, kui, pattern, extra): symbolic code of the kind"""
    i = lambda n, a, b: h.int(name + n, a, b)
    if kind == "chi":
        k, t = 3, i("t", 0, 62)
        x, y, z = i("h0", 0, 3), i("h1", 0, 3), i("h2", 0, 3)
        return k + 4 + 8 * x + 32 * y + 128 * z + 1024 * t, k, t, (x, y, z)
    if kind == "pon":
        k, t, u = i("kui", 1, 3), i("t", 0, 101), i("u", 0, 3)
        return k + 8 + 32 * u + 512 * t, k, t, u
    if kind == "added":
        k, t, u = i("kui", 1, 3), i("t", 0, 101), i("u", 0, 3)
        return k + 16 + 32 * u + 512 * t, k, t, u
    if kind == "closed":
        t = i("t", 0, 135)
        return 256 * t, 0, t, None
    if kind == "open":
        k, t = i("kui", 1, 3), i("t", 0, 135)
        return k + 256 * t, k, t, None
    t = i("t", 120, 123)
    return 32 + 256 * t, 0, t, None


def spec(h, kind, t, x):
    """(own tiles, taken tiles) as lists of numbers"""
    if kind == "chi":
        w, b = t % 3, t // 3
        base = 36 * (b // 7) + 4 * (b % 7)
        tiles = [base + 4 * i + x[i] for i in range(3)]
        w = h.value(w)
        return [tiles[i] for i in range(3) if i != w], [tiles[w]]
    if kind == "pon":
        w = h.value(t % 3)
        f = t // 3
        u = h.value(x)
        tiles = [4 * f + i for i in range(4) if i != u]
        return [tiles[i] for i in range(3) if i != w], [tiles[w]]
    if kind == "added":
        return [4 * (t // 3) + x], []
    f = t // 4
    if kind == "closed":
        return [4 * f + i for i in range(4)], []
    if kind == "open":
        w = h.value(t % 4)
        return [4 * f + i for i in range(4) if i != w], [4 * f + w]
    return [t], []


KINDS = {"chi": ("flush", "Flush"), "pon": ("triplet", "Triplet"), "added": ("add_kan", "TenhouAddedKan"), "closed": ("kan", "TenhouKan"),
         "open": ("kan", "TenhouKan"), "north": ("kita", "Kita")}


def eqset(h, got, want):
    got = list(got)
    if len(got) != len(want):
        return False
    return h.and_(h.all_([h.any_([g == w for g in got]) for w in want]), h.all_([h.any_([g == w for w in want]) for g in got]))


def one(h, kind):
    m = h.mod("mahjong.record.utils.value.meld")
    who = h.int("who", 0, 3)
    c, kui, t, x = code(h, kind)
    meld = m.meld_from(Ev(who, c))
    own, taken = spec(h, kind, t, x)
    h.check(m.meld_type(str(c)) is m.MeldType[KINDS[kind][0]], "kind of the code")
    h.check(type(meld).__name__ == KINDS[kind][1], "kind of meld")
    s, b = list(meld.self_tiles), list(meld.borrowed_tiles)
    h.check(eqset(h, s, own), "tiles contributed from the own hand")
    h.check(eqset(h, b, taken), "tile taken")
    h.check(meld.from_who == (who + kui) % 4, "player it was taken from")
    h.check(meld.is_opened() == (len(taken) > 0), "opened iff a tile was taken")
    if kind in ("closed", "open"):
        h.check(meld.is_opened_kan == (kind == "open"), "open kan")
    h.check(h.all_([p != q for p in s for q in b]), "taken and contributed tiles are disjoint")
    h.obs([sorted([h.value(v) for v in s]) if kind == "added" else len(s), meld.from_who])


def text(h, kind):
    """the description of a meld names its tiles and its source"""
    m = h.mod("mahjong.record.utils.value.meld")
    v = h.mod("mahjong.record.utils.value.tile")
    who = h.int("who", 0, 3)
    c, kui, t, x = code(h, kind)
    own, taken = spec(h, kind, h.value(t), x)
    meld = m.meld_from(Ev(who, c))
    F = m.tile_set_from_tenhou
    h.check(str(meld) == "'%s' using '%s' to get '%s' from player %s" % (KINDS[kind][1], F(own), F(taken), (who + kui) % 4), "description")
    h.check(repr(meld) == "<" + str(meld) + ">", "repr")


def twice(h, kind, same):
    """one meld decoded after another one of the kind, also the same code for another caller"""
    m = h.mod("mahjong.record.utils.value.meld")
    got = []
    c, kui, t, x = code(h, kind)
    for n in "ab":
        who = h.int(n + ".who", 0, 3)
        if not same and n == "b":
            c, kui, t, x = code(h, kind, "b.")
        got.append((m.meld_from(Ev(who, c)), who, kui, spec(h, kind, t, x)))
    for meld, who, kui, (own, taken) in got:
        h.check(h.and_(meld.from_who == (who + kui) % 4, eqset(h, meld.self_tiles, own), eqset(h, meld.borrowed_tiles, taken)), "each meld is its own event's")


def grown(h):
    """triplet grown to a kan"""
    m = h.mod("mahjong.record.utils.value.meld")
    who = h.int("who", 0, 3)
    c, kui, t, x = code(h, "pon", "p.")
    c2, kui2, t2, x2 = code(h, "added", "a.")
    pon, add = m.meld_from(Ev(who, c)), m.meld_from(Ev(who, c2))
    h.check(m.is_triplet_of_added_kan(pon, add) == (t // 3 == t2 // 3), "the added tile belongs to the triplet iff same face")
    h.assume(h.and_(t // 3 == t2 // 3, t % 3 == t2 % 3, x == x2, kui == kui2))
    k = m.KanFromTriplet(pon, add)
    own, taken = spec(h, "pon", t, x)
    h.check(eqset(h, k.self_tiles, own + [4 * (t // 3) + h.value(x)]), "own tiles of the grown kan")
    h.check(eqset(h, k.borrowed_tiles, taken), "taken tile of the grown kan")
    h.check(h.and_(eqset(h, pon.self_tiles, own), eqset(h, pon.borrowed_tiles, taken)), "the triplet itself is unchanged")
    h.check(k.from_who == (who + kui) % 4, "source of the grown kan")
    h.check(h.and_(k.is_opened_kan, k.is_opened()), "grown kan is open")


def cases(tier):
    r = [Case(k, one, k) for k in ("chi", "pon", "added", "closed", "open", "north")]
    r.append(Case("grown", grown))
    r += [Case("twice." + k, twice, k, True) for k in ("chi", "pon", "added", "closed", "open", "north")]
    r += [Case("pair." + k, twice, k, False, optional=k in ("chi", "pon", "open")) for k in ("chi", "pon", "added", "closed", "open", "north")]
    r += [Case("text." + k, text, k, optional=(tier == "quick" and k in ("chi", "pon"))) for k in (("north", "closed", "added", "open") + (("pon",) if tier != "quick" else ()))]
    return r
