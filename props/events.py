"""Symbolic game events shared by the harnesses of the state trackers."""
from . import C18

DRAW, DISCARD = "TUVW", "DEFG"


class Ev:
    """stands for an XML element: a tag and its attributes"""

    def __init__(self, tag, attrib=None):
        self.tag = tag
        self.attrib = attrib or {}


class Fact:
    """what an event means, for the specification"""

    def __init__(self, kind, who=None, tile=None, own=None, taken=None, **k):
        self.kind = kind
        self.who = who
        self.tile = tile
        self.own = own or []
        self.taken = taken or []
        self.__dict__.update(k)


OTHER = [("TAIKYOKU", {"oya": "0"}), ("UN", {"n0": "a", "n1": "b", "n2": "c", "n3": "d"}), ("GO", {"type": "169", "lobby": "0"}), ("BYE", {"who": "1"}),
         ("SHUFFLE", {"seed": "x"}), ("mjloggm", {"ver": "2.3"})]
KINDS = ["draw", "discard", "chi", "pon", "added", "closed", "open", "north", "dora", "reach", "win", "drawn", "other"]


def event(h, kind, name, players=4, who=None):
    """-> (element, Fact); symbolic who, tiles and codes"""
    if who is None:
        who = h.int(name + ".who", 0, players - 1)
    if kind in ("draw", "discard"):
        t = h.int(name + ".tile", 0, 135)
        w = h.value(who)
        return Ev("%s%s" % ((DRAW if kind == "draw" else DISCARD)[w], t)), Fact(kind, w, t)
    if kind in C18.KINDS:
        c, kui, t, x = C18.code(h, kind, name + ".")
        own, taken = C18.spec(h, kind, t, x)
        return Ev("N", {"who": str(who), "m": str(c)}), Fact("meld", who, None, own, taken, meld=kind, source=(who + kui) % 4, code=c)
    if kind == "dora":
        t = h.int(name + ".tile", 0, 135)
        return Ev("DORA", {"hai": str(t)}), Fact("dora", None, t)
    if kind == "reach":
        return Ev("REACH", {"who": str(who), "step": str(h.int(name + ".step", 1, 2))}), Fact("reach", who)
    if kind == "win":
        return Ev("AGARI", {"who": str(who), "fromWho": str(h.int(name + ".from", 0, players - 1)), "ten": "30,1000,0", "machi": "12", "hai": "1,2,3"}), Fact("win", who)
    if kind == "drawn":
        return Ev("RYUUKYOKU", {"ba": "0,0", "sc": "250,0,250,0,250,0,250,0", "hai0": "1,2"}), Fact("drawn")
    if kind == "init":
        return init(h, name, players)
    i = h.value(h.int(name + ".n", 0, len(OTHER) - 1))
    return Ev(OTHER[i][0], dict(OTHER[i][1])), Fact("other")


def init(h, name, players=4, n=2, known=None):
    """start of a game with n symbolic tiles per player (or the known hands) and a symbolic indicator"""
    hands = known or [[h.int("%s.h%d.%d" % (name, p, i), 0, 135) for i in range(n)] for p in range(players)]
    dora = h.int(name + ".dora", 0, 135)
    k = h.int(name + ".round", 0, 11)
    a = {"seed": "%s,%s,1,2,3,%s" % (k, h.int(name + ".sub", 0, 12), dora), "ten": "250,250,250,250", "oya": str(h.int(name + ".oya", 0, players - 1))}
    for p in range(4):
        a["hai%d" % p] = ",".join([str(x) for x in hands[p]]) if p < players else ""
    return Ev("INIT", a), Fact("init", hands=hands, dora=dora, round=k)


def player(h, i):
    return h.mod("mahjong.record.player").TenhouPlayer(i, "x", 10, 1500.0, "M")


def is_in(h, t, tiles):
    return h.any_([t == x for x in tiles])


def has(h, s, t):
    """condition that number t is in the set"""
    if hasattr(s, "has"):
        return s.has(t)
    return h.any_([t == x for x in s])


def copy_of(s):
    """the contents of a set now"""
    return s.copy()


def same_set(h, got, want):
    """got holds exactly the numbers t with want(t): decided for one symbolic number"""
    elements = got.candidates() if hasattr(got, "candidates") else got
    if not all(isinstance(x, int) for x in elements):
        return False
    t = h.int("probe", 0, 135)
    a, b = has(h, got, t), want(t)
    inside = True if hasattr(got, "has") and got.base is not None else h.all_([h.and_(x >= 0, x <= 135) for x in elements])
    return h.and_(inside, h.or_(h.and_(a, b), h.and_(h.not_(a), h.not_(b))))
