"""One-line summaries of a game and of a record."""
from symx.harness import Case
from .common import prewarm
from .events import Ev
from .world import DRAWN

FUNCTIONS = ["TenhouGame.__init__", "TenhouGame.__str__", "TenhouGame.end_stringify", "game_index", "sub_game_index", "TenhouRecord.__init__", "TenhouRecord.__str__", "TenhouPlayer.__init__", "GameType.__str__", "number_list",
             "SubCategory.category", "list_of_xml_configs"]
BOUNDS = ["round 0..11 (0..7 for one-wind games), sub-round 0..20", "every winner and discarder, symbolic points 0..96000, one or two winners, every draw reason, three winners on one discard", "every combination of five further rules with four orders of the players", "records of 3 and 4 players with symbolic final scores -500..1500 "
          "and final points -99.9..99.9 each from a table of five", "names of two letters each, one letter symbolic, or two players without a name"]
ASSUMES = ["players with equal final scores may be listed in either order"]
warm = prewarm
POINTS = ["12.0", "-3.5", "0", "-40", "61.3"]
SHOWN = ["12.0", "-3.5", "0.0", "-40.0", "61.3"]


def players(h, n, same=False):
    P = h.mod("mahjong.record.player").TenhouPlayer
    names = ["AB", "cd", "%E6%9D%B1x", "zz"][:n]
    names[1] = "c" + h.char("name", chars="ABxyz")
    if same:
        names[0] = names[n - 1] = "NoName"
    shown = list(names)
    if n > 2 and not (same and n == 3):
        shown[2] = "東x"
    return [P(i, s, 10, 1500.0, "M") for i, s in enumerate(names)], shown, names


def tenhou(h, e):
    return h.mod("mahjong.record.utils.event").TenhouEvent(e, context=None, timestamp=0)


def init(k, sub):
    return Ev("INIT", {"seed": "%s,%s,2,1,2,55" % (k, sub), "ten": "250,250,250,250", "oya": "0", "hai0": "1", "hai1": "2", "hai2": "3", "hai3": "4"})


def ending(h, name, n, shown, what):
    """-> event, text"""
    if what == "drawn":
        typ = h.choice(name + ".type", [None] + sorted(DRAWN))
        return Ev("RYUUKYOKU", {"type": typ} if typ else {}), ["流局", DRAWN[typ] if typ else ""]
    who, src = h.value(h.int(name + ".who", 0, n - 1)), h.value(h.int(name + ".from", 0, n - 1))
    pts = h.int(name + ".points", 0, 96000)
    e = Ev("AGARI", {"who": str(who), "fromWho": str(src), "ten": "30,%s,%s" % (pts, h.int(name + ".limit", 0, 5)), "machi": "12", "hai": "1,2,3"})
    return e, (shown[who] + ":ツモ(" if who == src else shown[who] + "<-" + shown[src] + ":ロン(") + str(pts) + ")"


def game(h, typ, n, what):
    R = h.mod("mahjong.record.reader")
    G = h.mod("mahjong.record.utils.value.gametype").GameType
    k, sub = h.int("k", 0, 11 if typ in ("9", "25") else 7), h.int("sub", 0, 20)
    ps, shown, _ = players(h, n, what == "names")
    ends = [ending(h, "e%d" % i, n, shown, "drawn" if what == "drawn" else "win") for i in range(2 if what == "double" else 1)]
    ev = [init(k, sub), Ev("T12"), Ev("REACH", {"who": "2", "step": "1"})] + [e for e, _ in ends]
    g = R.TenhouGame([tenhou(h, e) for e in ev], G(typ), ps, context=None)
    q = h.value(k)
    head = "東南西北"[q // 4] + "%d局" % (q % 4 + 1) + str(sub) + "本"
    got = str(g)
    if what == "drawn":
        parts = ends[0][1]
        h.check(got.split() == [head] + [x for x in parts if x], "round and reason of a drawn game")
    else:
        h.check(got == head + " " + ",".join([t for _, t in ends]), "round, winner, discarder and points")
    h.check(repr(g) == "<" + got + ">", "short form")
    h.obs([got])


def several(h, what):
    """two or three winners on one discard, perhaps with other events between, and any rules"""
    R = h.mod("mahjong.record.reader")
    G = h.mod("mahjong.record.utils.value.gametype").GameType
    n = 4
    ps, shown, _ = players(h, n)
    src = h.value(h.int("from", 0, 3))
    ev, texts = [init(h.int("k", 0, 7), 1), Ev("T12")], []
    winners = [p for p in range(4) if p != src]
    for i, p in enumerate(winners if what == "triple" else winners[1:]):
        if h.branch(h.bool("other%d" % i)):
            ev.append(Ev("BYE", {"who": "1"}))
        pts = h.int("points%d" % i, 0, 96000)
        ev.append(Ev("AGARI", {"who": str(p), "fromWho": str(src), "ten": "30,%s,0" % pts, "machi": "12", "hai": "1,2,3"}))
        texts.append(shown[p] + "<-" + shown[src] + ":ロン(" + str(pts) + ")")
    g = R.TenhouGame([tenhou(h, e) for e in ev], G("9"), ps, context=None)
    got = str(g)
    h.check(got[got.index(" ") + 1:] == ",".join(texts), "every winner, the discarder and the points")


def kinds(h, n):
    """any rules"""
    R = h.mod("mahjong.record.reader")
    GT = h.mod("mahjong.record.utils.value.gametype").GameType
    typ = 9 + (16 if n == 3 else 0)
    for b in (2, 4, 64, 256, 512):
        if h.branch(h.bool("bit%d" % b)):
            typ += b
    ps, shown, names = players(h, n)
    names += [""] * (4 - n)
    order = h.choice("order", [(0, 1, 2, 3), (1, 0, 3, 2), (3, 2, 1, 0), (2, 3, 0, 1)])
    order = [p for p in order if p < n]
    sc = {p: 400 - 100 * i for i, p in enumerate(order)}
    pt = {p: (i * 7 + 3 * p) % 5 for i, p in enumerate(order)}
    k = h.int("k", 0, 11)
    ev = [Ev("GO", {"type": str(typ)}), Ev("UN", dict(n0=names[0], n1=names[1], n2=names[2], n3=names[3], dan="1,2,3,4", rate="1,2,3,4", sx="M,M,F,M")), init(k, 0),
          Ev("RYUUKYOKU", {"sc": "1,2,3,4", "owari": ",".join(["%s,%s" % (sc[p], POINTS[pt[p]]) for p in range(n)] + ["0,0"] * (4 - n))})]
    r = R.TenhouRecord(ev)
    h.check(str(r) == str(GT(str(typ))) + " " + ",".join(["%d位:%s(%s)" % (i + 1, shown[p], SHOWN[pt[p]]) for i, p in enumerate(order)]), "the standings")
    q = h.value(k)
    h.check(str(r.game_list[0]).split() == ["東南西北"[q // 4] + "%d局0本" % (q % 4 + 1), "流局"], "the round")


def record(h, n):
    R = h.mod("mahjong.record.reader")
    typ = "9" if n == 4 else "25"
    ps, shown, names = players(h, n)
    names += [""] * (4 - n)
    sc = [h.int("sc%d" % p, -500, 1500) for p in range(n)]
    pt = [h.value(h.int("pt%d" % p, 0, len(POINTS) - 1)) if p < 2 else p for p in range(n)]
    ev = [Ev("GO", {"type": typ}), Ev("UN", dict(n0=names[0], n1=names[1], n2=names[2], n3=names[3], dan="1,2,3,4", rate="1,2,3,4", sx="M,M,F,M")), init(h.int("k", 0, 3), 0),
          Ev("RYUUKYOKU", {"sc": "1,2,3,4", "owari": ",".join(["%s,%s" % (a, POINTS[b]) for a, b in zip(sc, pt)] + ["0,0"] * (4 - n))})]
    r = R.TenhouRecord(ev)
    got = str(r)
    kind = str(h.mod("mahjong.record.utils.value.gametype").GameType(typ))
    h.check(got.startswith(kind + " "), "the summary starts with the rules")
    body = got[len(kind) + 1:].split(",")
    h.check(len(body) == n, "one entry per player")
    entries = ["%d位:" % (i + 1) for i in range(n)]
    ok, used, last = [], [], None
    for i, b in enumerate(body):
        h.check(b.startswith(entries[i]), "entries are numbered from one")
        rest = b[len(entries[i]):]
        who = None
        for p in range(n):
            if p not in used and h.branch(rest == shown[p] + "(" + SHOWN[pt[p]] + ")"):
                who = p
                break
        h.check(who is not None, "an entry names a player with the player's final points")
        used.append(who)
        if last is not None:
            ok.append(sc[last] >= sc[who])
        last = who
    h.check(h.all_(ok), "players in order of the final score")
    h.obs([got])


def cases(tier):
    r = [Case("game.%s.%d.%s" % (t, n, w), game, t, n, w) for t, n in (("9", 4), ("1", 4), ("25", 3)) for w in ("win", "drawn")]
    r += [Case("game.9.4.double", game, "9", 4, "double"), Case("game.25.3.double", game, "25", 3, "double"), Case("several.two", several, "double"), Case("several.three", several, "triple"), Case("names.4", game, "9", 4, "names"), Case("names.3", game, "25", 3, "names"), Case("kinds.3", kinds, 3), Case("kinds.4", kinds, 4), Case("record.3", record, 3), Case("record.4", record, 4)]
    return r
