"""Descriptions of events."""
from symx.harness import Case
from . import C18
from .common import FACES, prewarm
from .events import Ev
from .world import DRAWN

FUNCTIONS = ["TenhouEvent.__init__", "TenhouEvent.base_str", "TenhouEvent.__str__", "TenhouEvent.__repr__", "draw_tile_change", "discard_tile_change", "tile_change", "tile_from_tenhou", "is_open_hand", "is_richii", "is_dora_indicator_event",
             "is_somebody_win_game", "is_nobody_win_game", "number_list", "draw_value", "discard_value"]
BOUNDS = ["draws, discards and dora indicators of every tile number 0..135 and seat", "calls of every seat (north, closed kan, added kan with any code; pon of ten patterns)", "riichi of every seat, wins of every pair of seats with points 0..200000, every draw reason, other events",
          "the long and the short form on the XML elements themselves for a symbolic tile of four and symbolic seats"]
ASSUMES = ["calls are described by the description of the meld (C18)"]
OUTSIDE = ["the XML text appended to the long form is xml.etree's"]
warm = prewarm


def event(h, e):
    return h.mod("mahjong.record.utils.event").TenhouEvent(e, context=None, timestamp=3)


def name(h, t):
    if h.branch(h.any_([t == r for r in (16, 52, 88)])):
        return "0" + FACES[h.value(t // 4)][1]
    n, s = FACES[h.value(t // 4)]
    return str(n) + s


def made(h, kind, lo=0, hi=135):
    """-> tag, attributes, description"""
    who = h.int("who", 0, 3)
    if kind in ("draw", "discard"):
        t = h.int("t", lo, hi)
        w = h.value(who)
        return ("TUVW" if kind == "draw" else "DEFG")[w] + str(t), {}, "player %d %s " % (w, kind) + name(h, t)
    if kind in C18.KINDS:
        if kind == "pon":
            f, w, u, k = h.choice("f", [0, 4, 17, 22, 33]), h.int("w", 0, 2), h.int("u", 0, 3), 1
            c = k + 8 + 32 * u + 512 * (3 * f + w)
        else:
            c = C18.code(h, kind)[0]
        e = {"who": str(who), "m": str(c)}
        meld = h.mod("mahjong.record.utils.value.meld").meld_from(Ev("N", e))
        return "N", e, "player " + str(who) + " claimed " + str(meld)
    if kind == "riichi":
        return "REACH", {"who": str(who), "step": str(h.int("step", 1, 2))}, "player " + str(who) + " richii"
    if kind == "dora":
        t = h.int("t", lo, hi)
        return "DORA", {"hai": str(t)}, "new dora indicator " + name(h, t)
    if kind == "win":
        src, pts = h.int("from", 0, 3), h.int("pts", 0, 200000)
        a = {"who": str(who), "fromWho": str(src), "ten": "%s,%s,%s" % (h.int("fu", 20, 110), pts, h.int("limit", 0, 5))}
        more = h.choice("more", [0, 1, 2])
        if more:
            a.update({"ba": "0,1", "hai": "1,2,3,4,5", "m": "1031", "machi": "4", "yaku": "1,1,52,2", "doraHai": "36", "doraHaiUra": "40", "sc": "250,10,250,-10,250,0,250,0"})
        if more == 2:
            a["owari"] = "260,36.0,240,-6.0,250,-10.0,250,-20.0"
        return "AGARI", a, "player " + str(who) + " win " + str(pts) + " from player " + str(src)
    if kind == "drawn":
        typ = h.choice("type", [None] + sorted(DRAWN))
        more = h.choice("more", [0, 1, 2])
        a = {"type": typ} if typ else {}
        if more or not typ:
            a.update({"ba": "0,0", "sc": "250,10,250,-10,250,0,250,0", "hai0": "1,2,3"})
        if more == 2:
            a["owari"] = "260,36.0,240,-6.0,250,-10.0,250,-20.0"
        return "RYUUKYOKU", a, "no body win " + (DRAWN[typ] if typ else "")
    t = h.choice("tag", ["GO", "UN", "BYE", "TAIKYOKU", "SHUFFLE", "INIT", "T5x"])
    return t, {"who": "1"}, None


def short(h, kind):
    tag, a, want = made(h, kind)
    got = event(h, Ev(tag, a)).base_str()
    if want is None:
        h.check(isinstance(got, str) and "player" not in got, "an event without description is not described as another one")
    else:
        h.check(got == want, "description of the event")
    h.obs([got])


def full(h, kind):
    """both printed forms, on a real element"""
    ET = h.mod("xml.etree.ElementTree")
    tag, a, want = made(h, kind, 87, 90)
    e = ET.Element(h.value(tag), {k: h.value(v) for k, v in a.items()})
    ev = event(h, e)
    head = want if want is not None else ev.base_str()
    h.check(str(ev) == head + ":" + ET.tostring(e).decode("utf-8"), "the long form is the description and the element")
    h.check(head in repr(ev), "the short form of an event in a listing contains its description")
    h.check(head in "%s" % [ev], "a list of events can be printed")
    h.obs([str(ev)])


def values(h):
    """tile number of a draw or discard event, nothing for others"""
    U = h.mod("mahjong.record.utils.event")
    tag = h.choice("tag", list("TUVWDEFGNABCXYZ") + ["DORA", "INIT", "UN", "TT", ""])
    t = h.int("t", 0, 135)
    e = Ev(tag + str(t), {})
    if tag in ("T", "U", "V", "W"):
        h.check(U.draw_value(e) == t and U.discard_value(e) is None, "number of a draw")
        h.check(U.draw_tile_change(e)["player"] == "TUVW".index(tag) and U.discard_tile_change(e) is None, "seat of a draw")
    elif tag in ("D", "E", "F", "G"):
        h.check(U.discard_value(e) == t and U.draw_value(e) is None, "number of a discard")
        h.check(U.discard_tile_change(e)["player"] == "DEFG".index(tag) and U.draw_tile_change(e) is None, "seat of a discard")
    else:
        h.check(U.draw_value(e) is None and U.discard_value(e) is None and U.draw_tile_change(e) is None and U.discard_tile_change(e) is None, "other tags are neither")


KINDS = ["draw", "discard", "north", "closed", "added", "pon", "riichi", "dora", "win", "drawn", "other"]


def cases(tier):
    r = [Case("short." + k, short, k, weight=3 if k in ("closed", "added") else 1) for k in KINDS]
    r += [Case("full." + k, full, k) for k in ("draw", "discard", "north", "riichi", "dora", "drawn", "other")]
    r.append(Case("values", values))
    if tier == "thorough":
        r += [Case("short." + k, short, k, optional=True, weight=9) for k in ("open", "chi")]
    return r
