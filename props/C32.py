"""Exported play rows."""
import xml.etree.ElementTree as ET

from symx.harness import Case
from . import C18, longgame
from .common import prewarm
from .events import DISCARD, DRAW, Ev
from .world import DRAWN, face

FUNCTIONS = ["TenhouEvent.__init__", "TenhouEvent.to_paifu", "draw_tile_change", "discard_tile_change", "is_open_hand ... is_nobody_win_game", "meld_from", "unpack_with", "TenhouGame.__init__", "TenhouGame.to_paifu",
             "TenhouGame.game_index", "TenhouRecord.__init__", "TenhouRecord.to_paifu", "number_list", "list_of_xml_configs"]
BOUNDS = ["every draw, discard and indicator tile 0..135 and player", "every meld code of tenhou and every caller", "riichi steps, wins and drawn games of every player and reason",
          "start events with any one tile of a hand or two near each other symbolic, any indicator, symbolic scores and sticks, 3 and 4 players",
          "games of round 0..11, sub-round 0..20 with up to 3 further events, records of 1 and 2 games with symbolic final scores"]
ASSUMES = ["meld codes follow the tenhou layout (C18)", "events other than play (connection, shuffle, rules) give no rows"]
warm = prewarm



def tenhou(h, e):
    return h.mod("mahjong.record.utils.event").TenhouEvent(e, context=None, timestamp=0)


def rows(h, e):
    return tenhou(h, e).to_paifu()


def ident(s):
    """event kinds are names"""
    return s.strip() if isinstance(s, str) else s


def agree(h, got, want, label):
    """want: list of dicts of texts; number-valued fields are written as numbers"""
    h.check(len(got) == len(want), label + ": number of rows")
    conds = []
    for g, w in zip(got, want):
        h.check(sorted(g) == sorted(w), label + ": columns")
        h.check(ident(g["event_type"]) == w["event_type"], label + ": kind of row")
        for k, v in w.items():
            if k == "event_type":
                continue
            x = g[k]
            if not isinstance(x, str) and not type(x).__name__ == "SStr":
                h.check(False, label + ": %s is text" % k)
            conds.append(int(x) == v if isinstance(v, int) and not isinstance(v, bool) else x == v)
    h.check(h.all_(conds), label + ": the rows say what happened")
    h.obs([[sorted(g.items()) for g in got]])


def play(h, kind):
    who = h.int("who", 0, 3)
    t = h.int("t", 0, 135)
    if kind == "dora":
        f = face(h, t)
        agree(h, rows(h, Ev("DORA", {"hai": str(t)})), [dict(event_type="DORA", player="0", player_see=f, player_show=f)], "indicator")
        return
    w = h.value(who)
    e = Ev("%s%s" % ((DRAW if kind == "draw" else DISCARD)[w], t))
    if kind == "draw":
        agree(h, rows(h, e), [dict(event_type="DRAW", player=who, player_see=face(h, t))], "draw")
    else:
        agree(h, rows(h, e), [dict(event_type="DISCARD", player=who, player_show=face(h, t))], "discard")


NAMES = {"chi": "CHI", "pon": "PENG", "added": "GANG", "closed": "ANGANG", "open": "MINGGANG"}


def meld(h, kind):
    who = h.int("who", 0, 3)
    c, kui, t, x = C18.code(h, kind)
    got = rows(h, Ev("N", {"who": str(who), "m": str(c)}))
    own, taken = C18.spec(h, kind, t, x)
    a, b = "".join(face(h, v) for v in own), "".join(face(h, v) for v in taken)
    if kind == "north":
        want = dict(event_type="KITA", player=who, player_show=a, player_open=a)
    else:
        want = dict(event_type=NAMES[kind], player=who, player_show=a, player_open=b + a, origin=(who + kui) % 4)
    agree(h, got, [want], "call")


def reach(h):
    who, step = h.int("who", 0, 3), h.int("step", 1, 2)
    got = rows(h, Ev("REACH", {"who": str(who), "step": str(step)}))
    if h.branch(step == 1):
        agree(h, got, [dict(event_type="CALLRICHI", player=who)], "riichi call")
    else:
        agree(h, got, [dict(event_type="RICHI", player=who), dict(event_type="SCORE", player=who, score=-1000)], "riichi")


def win(h):
    who, src = h.int("who", 0, 3), h.int("from", 0, 3)
    a = {"who": str(who), "fromWho": str(src), "ten": "30,%s,0" % h.int("points", 0, 96000), "machi": "12", "hai": "1,2,3"}
    agree(h, rows(h, Ev("AGARI", a)), [dict(event_type="WIN", player=who, origin=src)], "win")


def nobody(h):
    typ = h.choice("type", [None] + sorted(DRAWN))
    a = {"ba": "0,0", "sc": "250,0,250,0,250,0,250,0"}
    if typ:
        a["type"] = typ
    agree(h, rows(h, Ev("RYUUKYOKU", a)), [dict(event_type="EVEN", origin=DRAWN[typ] if typ else "")], "drawn game")


def start_event(h, n, ten, k, sub, sticks, dora, hands, oya="0"):
    a = {"seed": "%s,%s,%s,1,2,%s" % (k, sub, sticks, dora), "ten": ",".join([str(x) for x in ten]), "oya": oya}
    for p in range(4):
        a["hai%d" % p] = ",".join([str(x) for x in hands[p]]) if p < n else ""
    return Ev("INIT", a)


def sort(h, xs):
    r = []
    for x in xs:
        i = len(r)
        while i and h.branch(r[i - 1] > x):
            i -= 1
        r.insert(i, x)
    return r


def init(h, n, seat, what):
    """one hand with one symbolic tile or two near each other, or a symbolic indicator"""
    hands = [[4 * p + 40, 3, 90 - p] for p in range(4)]
    if what == "one":
        hands[seat] = [60, h.int("t", 0, 135), 21]
    elif what == "near":
        hands[seat] = [h.int("t0", 14, 19), 110, h.int("t1", 15, 18), 17]
    ten = [h.int("ten%d" % p, 0, 1000) for p in range(n)] + [0] * (4 - n)
    sticks, dora = h.int("sticks", 0, 12), h.int("dora", 0, 135) if what == "dora" else 52
    e = start_event(h, n, ten, h.int("k", 0, 11), h.int("sub", 0, 20), sticks, dora, hands)
    if what == "absent":
        del e.attrib["hai3"]
    want = [dict(event_type="INIT%d" % (p + 1), player=p, player_see="".join(face(h, t) for t in sort(h, hands[p])), score=100 * ten[p]) for p in range(n)]
    f = face(h, dora)
    want += [dict(event_type="DORA", player="0", player_see=f, player_show=f), dict(event_type="ROUND", score=1000 * sticks)]
    agree(h, rows(h, e), want, "start")


def other(h):
    tag, a = h.choice("event", [("TAIKYOKU", {"oya": "0"}), ("UN", {"n0": "a"}), ("GO", {"type": "169"}), ("BYE", {"who": "1"}), ("SHUFFLE", {"seed": "x"})])
    h.check(rows(h, ET.Element(tag, a)) == [], "no rows for an event that is no play")


def some(h, name):
    kind = h.choice(name, ["draw", "discard", "reach", "dora"])
    t = h.int(name + ".t", 16, 17)
    if kind == "draw":
        return Ev("T%s" % t)
    if kind == "discard":
        return Ev("F%s" % t)
    if kind == "dora":
        return Ev("DORA", {"hai": str(t)})
    return Ev("REACH", {"who": "2", "step": str(h.int(name + ".step", 1, 2))})


def chunk(h, name, n, k, sub):
    ev = [start_event(h, 4, [250] * 4, k, sub, 0, 5, [[1, 2]] * 4)]
    ev += [some(h, "%s.%d" % (name, i)) for i in range(n)]
    if h.branch(h.bool(name + ".win")):
        ev.append(Ev("AGARI", {"who": "1", "fromWho": "2", "ten": "30,1000,0", "sc": "1,2,3,4"}))
        if h.branch(h.bool(name + ".double")):
            ev.append(Ev("AGARI", {"who": "0", "fromWho": "2", "ten": "30,1000,0", "sc": "1,2,3,4"}))
    else:
        ev.append(Ev("RYUUKYOKU", {"type": "nm", "sc": "1,2,3,4"}))
    return ev


def label(h, k, sub):
    k = h.value(k)
    return "ESWN"[k // 4] + "-%d-" % (k % 4 + 1) + str(sub)


def game(h, typ, n):
    """rows of one game: those of its events, in order, each with the game's name"""
    R = h.mod("mahjong.record.reader")
    G = h.mod("mahjong.record.utils.value.gametype").GameType
    top = 11 if typ == "9" else 7
    k, sub = h.int("k", 0, top), h.int("sub", 0, 20)
    ev = chunk(h, "g", n, k, sub)
    g = R.TenhouGame([tenhou(h, e) for e in ev], G(typ), [], context=None)
    got = g.to_paifu()
    want = [dict(r, game_str=label(h, k, sub)) for e in ev for r in rows(h, e)]
    h.check(len(got) == len(want), "game: number of rows")
    h.check(h.all_([sorted(a) == sorted(b) and h.all_([a[c] == b[c] for c in b]) for a, b in zip(got, want)]), "game: the rows of its events in order with the game's name")
    h.obs([len(got)])


def record(h, games, n):
    """rows of a record: those of its games in order, then the final scores"""
    R = h.mod("mahjong.record.reader")
    typ = "9" if n == 4 else "25"
    ev = [Ev("GO", {"type": typ}), Ev("UN", dict(n0="a", n1="b", n2="c", n3="d" if n == 4 else "", dan="1,2,3,4", rate="1,2,3,4", sx="M,M,F,M"))]
    want = []
    for i in range(games):
        k, sub = h.int("k%d" % i, 0, 3), h.int("sub%d" % i, 0, 5)
        c = chunk(h, "g%d" % i, 1 if games == 1 else 0, k, sub)
        want += [dict(r, game_str=label(h, k, sub)) for e in c for r in rows(h, e)]
        ev += c
    sc = [h.int("sc%d" % p, -500, 1500) for p in range(n)]
    pt = ["12.0", "-3.5", "0", "7"][:n]
    ev[-1].attrib["owari"] = ",".join(["%s,%s" % (a, b) for a, b in zip(sc, pt)] + ["0,0"] * (4 - n))
    got = R.TenhouRecord(ev).to_paifu()
    h.check(len(got) == len(want) + n, "record: number of rows")
    h.check(h.all_([sorted(a) == sorted(b) and h.all_([a[c] == b[c] for c in b]) for a, b in zip(got, want)]), "record: the rows of the games in order")
    fin = got[len(want):]
    h.check(h.all_([h.and_(sorted(r) == ["event_type", "player", "score"], r["event_type"] == "FIN%d" % (p + 1), int(r["player"]) == p, int(r["score"]) == 100 * sc[p]) for p, r in enumerate(fin)]),
            "record: final score of every player")
    h.obs([len(got)])


def long(h, n, many):
    """scripted games of full length, one tile of each symbolic"""
    R = h.mod("mahjong.record.reader")
    ev = [Ev("GO", {"type": "9" if n == 4 else "25"}), Ev("UN", dict(n0="a", n1="b", n2="c", n3="d" if n == 4 else "", dan="1,2,3,4", rate="1,2,3,4", sx="M,M,F,M"))]
    want = []
    for i, ((e, f), ops, hands, dora) in enumerate(longgame.games(h, n, many)):
        mine = [dict(event_type="INIT%d" % (p + 1), player=p, player_see="".join(face(h, t) for t in sorted(hands[p])), score=25000) for p in range(n)]
        mine += [dict(event_type="DORA", player="0", player_see=face(h, dora), player_show=face(h, dora)), dict(event_type="ROUND", score=0)]
        ev.append(e)
        for o in ops:
            ev.append(longgame.element(o)[0])
            if o.kind == "draw":
                mine.append(dict(event_type="DRAW", player=o.who, player_see=face(h, o.tile)))
            elif o.kind == "discard":
                mine.append(dict(event_type="DISCARD", player=o.who, player_show=face(h, o.tile)))
            elif o.kind == "dora":
                mine.append(dict(event_type="DORA", player="0", player_see=face(h, o.tile), player_show=face(h, o.tile)))
            elif o.kind == "reach":
                mine.append(dict(event_type="CALLRICHI", player=o.who))
                if o.step == 2:
                    mine[-1] = dict(event_type="RICHI", player=o.who)
                    mine.append(dict(event_type="SCORE", player=o.who, score=-1000))
            elif o.kind == "call":
                own, taken = (C18.tail(o.own, o.taken, o.meld) if hasattr(C18, "tail") else (o.own, o.taken))
                a, b = "".join(face(h, v) for v in own), "".join(face(h, v) for v in taken)
                if o.meld == "north":
                    mine.append(dict(event_type="KITA", player=o.who, player_show=a, player_open=a))
                else:
                    mine.append(dict(event_type=NAMES[o.meld], player=o.who, player_show=a, player_open=b + a, origin=o.source))
        ev.append(Ev("RYUUKYOKU", {"ba": "0,0", "sc": "250,0,250,0,250,0,250,0"}))
        mine.append(dict(event_type="EVEN", origin=""))
        want += [dict(r, game_str=label(h, i, 0)) for r in mine]
    ev[-1].attrib["owari"] = ",".join(["250,0"] * n + ["0,0"] * (4 - n))
    want += [dict(event_type="FIN%d" % (p + 1), player=p, score=25000) for p in range(n)]
    agree(h, R.TenhouRecord(ev).to_paifu(), want, "whole games")


def cases(tier):
    r = [Case(k, play, k) for k in ("draw", "discard", "dora")]
    r += [Case("call." + k, meld, k) for k in C18.KINDS]
    r += [Case("reach", reach), Case("win", win), Case("nobody", nobody), Case("other", other)]
    r += [Case("init.%d.%d.%s" % (n, s, k), init, n, s, k) for n in (3, 4) for s in range(n) for k in ("one", "near")]
    r += [Case("init.%d.%s" % (n, k), init, n, 1, k) for n, k in ((3, "dora"), (4, "dora"), (3, "absent"))]
    r += [Case("game.%s.%d" % (t, n), game, t, n) for t in ("9", "1") for n in (0, 2)]
    r += [Case("record.%d.%d" % (g, n), record, g, n) for g in (1, 2) for n in (3, 4)]
    r += [Case("long.%d" % n, long, n, 2 if tier == "quick" else 3) for n in (4, 3)]
    if tier == "thorough":
        r.append(Case("game.9.3", game, "9", 3, optional=True))
    return r
