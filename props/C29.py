"""Both interpreters fold the updates of a property."""
from collections import Counter

from symx.harness import Case

FUNCTIONS = ["GameInterpreter.interpret", "execute_new_value", "GameExecutor.execute", "execute_update_state", "state_value", "TransferDict.set", "GameCommand.__init__",
             "prop_manager.call", "lookup_func_table", "add_general", "remove_general", "remove_all", "tiles_equal", "general_equal", "View.type", "View.scope"]
BOUNDS = ["every property with every update kind its type supports, after one earlier value; sequences of 3 commands (4 in the thorough tier) over two properties of the same name or type and two of the four players",
          "numbers -1000..1000, flags, one-letter texts, lists of up to two tiles out of {0m,5m}, lists of such lists (in the sequences one tile from the second command on)", "strict and tolerant executor"]
ASSUMES = ["add and remove apply to a property that has a value, and remove names tiles that are there", "default values exist for index and list types"]
OUTSIDE = ["the wording of warnings and assertion messages", "tables written by pandas"]

TYPES = {   # as the documentation of the state (format.py) groups the properties
    "index": ["record.player_count", "record.play_wind_count", "game.wind", "game.round", "game.sub_round", "game.dealer", "player.round"],
    "score": ["game.richii_remain_scores", "player.score", "player.final_score"],
    "int": ["player.rank"],
    "float": ["player.final_point"],
    "str": ["record.play_level", "record.seed", "game.extra_reason", "player.name", "player.level", "player.extra_level"],
    "bool": ["record.has_aka_dora", "record.speed_up", "record.allow_tanyao_open", "record.show_discard_shadow", "game.nobody_win", "player.is_dealer", "player.is_win",
             "player.is_self_win", "player.is_discard_lose_game", "player.in_richii", "player.disconnected"],
    "tiles": ["game.dora_indicators", "player.hand", "player.discard_tiles", "player.meld_public_tiles", "player.bonus_tiles"],
    "melds": ["player.fixed_meld"],
    "list": ["record.using_tiles", "player.discard_from_hand", "player.faans"],
}
KIND = {p: t for t, ps in TYPES.items() for p in ps}
LISTS = ("tiles", "melds", "list")
NUMBERS = ("index", "score", "int", "float")


def updates(kind):
    r = ["REPLACE", "ASSERT_EQUAL_OR_SET"]
    if kind in NUMBERS or kind in LISTS:
        r += ["ADD", "REMOVE"]
    if kind in LISTS or kind == "index":
        r.append("RESET_DEFAULT")
    return r


def value(h, name, kind, most=2):
    if kind in NUMBERS:
        return h.int(name, -1000, 1000)
    if kind == "bool":
        return h.branch(h.bool(name))
    if kind == "str":
        return h.text(name, 1, chars="xy")
    n = h.value(h.int(name + ".len", 0, most))
    one = lambda i: h.char("%s.%d" % (name, i), chars="05") + "m"
    if kind == "melds":
        return [[one(i)] * 2 for i in range(n)]
    return [one(i) for i in range(n)]


def copy(v):
    return [copy(x) for x in v] if isinstance(v, list) else v


def same(h, a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and h.all_([same(h, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    return a == b


def fold(h, old, update, kind, v):
    if update in ("REPLACE", "ASSERT_EQUAL_OR_SET"):
        return v
    if update == "RESET_DEFAULT":
        return [] if kind in LISTS else 0
    if update == "ADD":
        return old + v
    if kind in LISTS:
        r = list(old)
        for x in v:
            for i, y in enumerate(r):
                if h.branch(same(h, y, x)):
                    del r[i]
                    break
            else:
                h.assume(False)
        return r
    return old - v


def member(h, prop):
    scope, name = prop.split(".")
    F = h.mod("mahjong.record.universe.format")
    return getattr({"record": F.RecordView, "game": F.GameView, "player": F.PlayerView}[scope], name)


def command(h, prop, who, update, v, ts):
    F = h.mod("mahjong.record.universe.format")
    C = h.mod("mahjong.record.universe.command").GameCommand
    k = {} if prop.split(".")[0] != "player" else {"sub_scope": who}
    return C(prop=member(h, prop), update=F.Update[update], value=v, timestamp=ts, **k)


def snapshot(h, state):
    """{(prop, who): value} of an executor state"""
    F = h.mod("mahjong.record.universe.format")
    r = {}
    for scope in F.ViewScope:
        for sub, d in state[scope].items():
            for p, v in d.items():
                r["%s.%s" % (scope.name, p.name), None if sub == "single" else sub.value] = v
    return r


def like(h, got, want):
    return sorted(got, key=str) == sorted(want, key=str) and h.all_([same(h, got[k], want[k]) for k in want])


def fold_all(h, cmds):
    """cmds: list of (prop, who, update, value) -> states, snapshots, and whether each expectation is met"""
    cur, states, snaps, met = {}, [], [], []
    for prop, who, update, v in cmds:
        kind = KIND[prop]
        k = prop, who if prop.startswith("player.") else None
        ok = True
        if update == "ASSERT_EQUAL_OR_SET" and k in cur:
            if kind == "tiles":
                a, b = copy(cur[k]), copy(v)
                ok = len(a) == len(b)
                while ok and a:
                    x = a.pop()
                    for i, y in enumerate(b):
                        if h.branch(x == y):
                            del b[i]
                            break
                    else:
                        ok = False
            else:
                ok = same(h, cur[k], v)
        met.append(ok)
        cur = dict(cur)
        cur[k] = copy(fold(h, cur.get(k), update, kind, v))
        states.append(cur[k])
        snaps.append(cur)
    return states, snaps, met


def run(h, cmds, strict=True):
    G = h.mod("mahjong.record.universe.interpreter").GameInterpreter
    X = h.mod("mahjong.record.universe.executor").GameExecutor
    given = [copy(c[3]) for c in cmds]
    states, snaps, met = fold_all(h, cmds)
    made = [command(h, p, w, u, v, ts) for ts, (p, w, u, v) in enumerate(cmds)]
    g = G()
    got = [g.interpret(c) for c in made]
    h.check(h.all_([same(h, a, b) for a, b in zip(got, states)]), "the state of a command folds the earlier updates of its property and player")
    h.check(all(not isinstance(x, bool) for x, c in zip(got, cmds) if c[2] == "RESET_DEFAULT"), "the default of a number is a number")
    run2 = list(X().execute(made))
    h.check(len(run2) == len(cmds), "the executor gives one state per command")
    for i, s in enumerate(run2):
        h.check(s["global"]["time"]["timestamp"] == i, "a state carries the time of its command")
        h.check(like(h, snapshot(h, s), snaps[i]), "the executor's states fold the same updates, later commands change no earlier state")
    h.check(h.all_([same(h, c.value, v) for c, v in zip(made, given)]), "the commands stay as they were")
    if strict:
        n = 0
        try:
            for s in X(strict_mode=True).execute(made):
                n += 1
            failed = False
        except AssertionError:
            failed = True
        first = next((i for i, ok in enumerate(met) if not h.branch(ok)), None)
        h.check(failed == (first is not None) and n == (len(cmds) if first is None else first), "strict mode stops at the first expectation that does not hold, and only there")
    h.obs([got])


def one(h, kind):
    """every property of a type: two updates"""
    prop = h.choice("prop", TYPES[kind])
    who = h.value(h.int("who", 0, 3)) if prop.startswith("player.") else None
    a = value(h, "v0", kind)
    u = h.choice("u0", [x for x in updates(kind) if x not in ("ADD", "REMOVE")])
    b = value(h, "v1", kind)
    w = h.choice("u1", updates(kind))
    run(h, [(prop, who, u, a), (prop, who, w, b)])


PAIRS = {"round": ("player.round", "game.round"), "score": ("player.score", "player.final_score"), "tiles": ("player.hand", "player.discard_tiles"), "dora": ("game.dora_indicators", "player.bonus_tiles"),
         "flag": ("player.is_win", "game.nobody_win"), "text": ("player.name", "record.seed"), "melds": ("player.fixed_meld", "player.meld_public_tiles"), "list": ("player.faans", "record.using_tiles"),
         "number": ("player.rank", "player.final_point")}


def seq(h, pair, n, strict):
    cmds, has = [], set()
    a = h.value(h.int("seat", 0, 3))
    for i in range(n):
        prop = PAIRS[pair][h.value(h.int("p%d" % i, 0, 1))] if i else PAIRS[pair][0]
        who = None
        if prop.startswith("player."):
            who = (a + (h.value(h.int("w%d" % i, 0, 1)) if i else 0)) % 4
        kind = KIND[prop]
        u = h.choice("u%d" % i, [x for x in updates(kind) if (prop, who) in has or x not in ("ADD", "REMOVE")])
        has.add((prop, who))
        cmds.append((prop, who, u, value(h, "v%d" % i, kind, 1 if i else 2)))
    run(h, cmds, strict)


def long(h, seed, n):
    """a long stream over every property and player; the numbers, one letter and the length of one list are symbolic"""
    state = [seed]

    def rnd(k):
        state[0] = (state[0] * 1103515245 + 12345) % 2147483648
        return state[0] // 65536 % k
    props = [p for ps in TYPES.values() for p in ps]
    few = [props[rnd(len(props))] for _ in range(12)]
    cmds, lists, count = [], {}, {}
    letter = h.char("letter", chars="xy")
    hole = h.char("tile", chars="789") + "s"
    for i in range(n):
        prop = few[rnd(len(few))] if rnd(4) else props[rnd(len(props))]
        who = rnd(4) if prop.startswith("player.") else None
        kind, k = KIND[prop], (prop, who)
        u = updates(kind)
        u = u[rnd(len(u))] if k in count or (k in lists) else ("REPLACE", "RESET_DEFAULT", "ASSERT_EQUAL_OR_SET")[rnd(3) if "RESET_DEFAULT" in u else 2 * rnd(2)]
        count[k] = 1
        if kind in NUMBERS:
            v = h.int("v%d" % i, -1000, 1000)
        elif kind == "bool":
            v = bool(rnd(2))
        elif kind == "str":
            v = "abc"[rnd(3)] + (letter if rnd(3) == 0 else "z")
        else:
            one = lambda: hole if rnd(9) == 0 else "%d%s" % (1 + rnd(6), "mps"[rnd(3)])
            have = lists.get(k, [])
            if u == "REMOVE":
                a = rnd(len(have) + 1)
                v = [x for j, x in enumerate(have) if j % 2 == a % 2][:2]
                lists[k] = drop(have, v)
            else:
                v = [[one() for _ in range(3)] for _ in range(rnd(2) + 1)] if kind == "melds" else [one() for _ in range(rnd(5))]
                lists[k] = [] if u == "RESET_DEFAULT" else have + v if u == "ADD" else v
        cmds.append((prop, who, u, copy(v)))
    run(h, cmds, False)


def drop(have, v):
    """the list without the elements given, which are the very objects of the list"""
    r = list(have)
    for x in v:
        for i, y in enumerate(r):
            if y is x:
                del r[i]
                break
    return r


def cases(tier):
    r = [Case("one." + k, one, k) for k in TYPES]
    r += [Case("seq3." + k, seq, k, 3, True) for k in PAIRS]
    r += [Case("long.%d" % s, long, s, 60 if tier == "quick" else 150) for s in ((7, 8) if tier == "quick" else (7, 8, 9, 10))]
    if tier == "thorough":
        r += [Case("seq4." + k, seq, k, 4, True, optional=True) for k in PAIRS]
    return r
