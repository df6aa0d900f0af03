"""Riichi, dora, connection and player events."""
from symx.harness import Case
from .common import prewarm
from .world import World, start

FUNCTIONS = ["richii_command", "dora_command", "disconnected_command", "set_player_command", "get_list_attr", "game_type_command", "set_oya_command", "set_oya_command_yield",
             "shuffle_command", "GameType (all accessors used)", "initial_tiles", "TenhouPlayer.__init__/level_str", "GameInterpreter.interpret", "execute_new_value", "number_list"]
BOUNDS = ["every seat, riichi step 1 and 2 with symbolic scores, any indicator 0..135 after 0..2 revealed ones, during a game of 3 and 4 players with earlier events",
          "player events listing any subset of the seats (missing or empty names), any rank 0..20, integral and decimal ratings, percent-encoded names, names that look like numbers, blanks or empty values, seats with equal names; reconnection without ranks",
          "every 11-bit game type; dealer events for every seat; wall seeds"]
ASSUMES = ["riichi steps are 1 and 2", "event attributes as tenhou writes them"]
warm = prewarm

NAMES = [("a", "a"), ("%E3%81%82%20b", "あ b"), ("%51%6F%6F", "Qoo"), ("x+y", "x+y")]
ODD = [("20", "20"), ("0", "0"), ("%20", " "), ("%2B", "+"), ("100%", "100%"), ("None", "None"), ("nan", "nan"), ("-127", "-127"), ("a,b", "a,b"), ("[]", "[]")]


def turn(h, n):
    w = World(h, n)
    w.init(h.int("k", 0, 3), 0, 1, 72, 0, [h.int("ten%d" % p, -1000, 9999) for p in range(n)] + [0] * (4 - n), [[0, 5, 40 + p, 60 + p, 108 + p] for p in range(n)])
    return w


def reach(h, n, earlier):
    w = turn(h, n)
    if earlier:
        w.draw(0, 100)
        w.reach(1, 1)
        w.reach(1, 2)
        w.bye(0)
    who = h.int("who", 0, n - 1)
    w.reach(who, h.int("step", 1, 2))
    w.check("riichi")
    w.reach(h.int("who2", 0, n - 1), h.int("step2", 1, 2))
    w.check("second riichi")


def dora(h, n, revealed):
    w = start(h, n)
    for i in range(revealed):
        w.dora([16, 72, 135][i])
    w.dora(h.int("t", 0, 135))
    w.check("indicator")
    w.draw(1, 50)
    w.dora(20)
    w.check("next indicator")


def connection(h, n, early):
    """disconnections and reconnections"""
    w = World(h, n) if early else start(h, n)
    if h.branch(h.bool("listed")):
        w.un({p: "p%d" % p for p in range(n)}, [16] * 4, [1500] * 4)
        w.check("players")
    for i in range(3):
        who = h.int("who%d" % i, 0, n - 1)
        if h.branch(h.bool("leave%d" % i)):
            w.bye(who)
        else:
            w.un({h.value(who): "p%d" % h.value(who)})
        w.check("connection change")


def players(h, n, what):
    """any subset of the seats is listed"""
    w = start(h, n) if what == "later" else World(h, n)
    listed = [1 if what == "odd" else h.value(h.int("has%d" % p, 0, 2)) for p in range(n)]
    enc = [NAMES[p] for p in range(n)]
    if what == "odd":
        enc = [h.choice("name%d" % (p // 2), ODD) for p in range(n)]
    dan = [h.int("dan%d" % p, 0, 20) if p == 1 else 16 + p for p in range(4)]
    if what == "decimal":
        rate, texts = [2122.87, 1500, 2106.5, 1499.01], ["2122.87", "1500.00", "2106.50", "1499.01"]
    else:
        rate = [h.int("rate%d" % p, 0, 3000) for p in range(4)]
        texts = [str(x) for x in rate]
    a = {}
    for p in range(n):
        if listed[p]:
            a["n%d" % p] = enc[p][0] if listed[p] == 1 else " "
    full = what != "names"
    if full:
        a.update(dan=",".join([str(x) for x in dan]), rate=",".join(texts), sx="M,F,M,C")
    w.feed("UN", **a)
    for p in range(n):
        if listed[p] == 1:
            w.put(p, "player", "disconnected", False)
            w.put(p, "player", "name", enc[p][1])
            if full:
                from .world import RANKS
                w.put(p, "player", "level", RANKS[h.value(dan[p])])
                w.put(p, "player", "extra_level", rate[p])
    w.check("players")


def rules(h, part):
    """every game type"""
    w = World(h, 4, h.int("kind", 256 * part, 256 * part + 255))
    w.check("game type")


def change(h):
    """a second game type replaces the first"""
    w = World(h, 4, 9 + 2)
    w.go(h.choice("kind", [9, 25, 1 + 2 + 16, 225, 4, 64 + 512]))
    w.check("second game type")
    n = w.players
    w.taikyoku(h.int("oya", 0, n - 1))
    w.check("dealer")
    w.taikyoku(h.int("oya2", 0, n - 1))
    w.check("dealer")
    w.shuffle(h.choice("seed", ["mt19937ar-sha512-n288-base64,Dey4JV", "x", "12", "1.5,2"]))
    w.check("wall seed")


def cases(tier):
    r = []
    for n in (4, 3):
        r += [Case("reach.%d.%s" % (n, "later" if e else "first"), reach, n, e) for e in (False, True)]
        r += [Case("dora.%d.%d" % (n, k), dora, n, k) for k in (0, 1, 2)]
        r += [Case("connection.%d.%s" % (n, "early" if e else "in game"), connection, n, e) for e in (False, True)]
        r += [Case("players.%d.%s" % (n, k), players, n, k) for k in ("first", "later", "names", "decimal", "odd")]
    r += [Case("rules.%d" % i, rules, i, weight=4) for i in range(8)]
    r.append(Case("change", change))
    return r
