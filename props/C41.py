"""Translation of whole records."""
from symx.harness import Case
from . import longgame
from .common import prewarm
from .events import Ev

FUNCTIONS = ["to_command_iter", "to_commands", "to_command_records", "CommandTranslator.__call__/translate/fallback_call/postprocess/clear", "default_event_type",
             "TenhouCommandTranslator.translate/postprocess", "TenhouRecord.__init__", "TenhouGame.__init__", "every registered event handler", "GameCommand.to_raw_record"]
BOUNDS = ["records of a header, a start event, 2 (quick) / 3 (thorough) events of arbitrary kinds (13, known and unknown) with symbolic seats and tiles, and a final result; 3 and 4 players",
          "translated twice, with another record in between, lazily and as records; unknown events at every position, strict and not"]
ASSUMES = ["records as tenhou writes them"]
warm = prewarm

KINDS = ["draw", "discard", "chi", "north", "dora", "reach", "bye", "back", "win", "drawn", "shuffle", "unknown", "unknown tag like draw"]
RESET = ["discard_tiles", "fixed_meld", "meld_public_tiles", "bonus_tiles", "round", "in_richii", "discard_from_hand", "hand", "score"]


def keys(scope, kind, who, *props):
    return {(w, scope, p): kind for w in who for p in props}


def header(n):
    every = range(n)
    go = Ev("GO", {"type": "9" if n == 4 else "25"})
    names = {"n%d" % p: "p%d" % p if p < n else "" for p in range(4)}
    out = [(go, keys("record", "record_init", ["all"], "play_level", "show_discard_shadow", "play_wind_count", "allow_tanyao_open", "speed_up", "player_count", "using_tiles")),
           (Ev("UN", dict(names, dan="16,16,16,16", rate="1500,1500,1500,1500", sx="M,M,F,M")),
            dict(keys("player", "record_init", every, "name", "level", "extra_level"), **{}) | keys("player", "connect_change", every, "disconnected")),
           (Ev("TAIKYOKU", {"oya": "0"}), keys("player", "game_init", every, "is_dealer"))]
    return out


def begin(h, n, own=()):
    a = {"seed": "1,2,0,1,2,%d" % 72, "ten": "250,250,250,250", "oya": "1"}
    for p in range(4):
        tiles = [0, 5, 40 + 4 * p, 60 + p, 108 + p] + ([44, 48, 120] if p == 1 else [])
        a["hai%d" % p] = ",".join(str(t) for t in tiles) if p < n else ""
    want = keys("game", "game_init", ["all"], "wind", "round", "sub_round", "richii_remain_scores")
    want.update(keys("game", "new_dora", ["all"], "dora_indicators"))
    want.update(keys("player", "game_init", range(n), "is_dealer", *RESET))
    return Ev("INIT", a), want


def result(n, tag, last, who=1):
    a = {"ba": "0,0", "sc": "250,0,250,0,250,0,250,0"}
    every = range(n)
    want = keys("player", "game_finish", every, "score", "is_win", "is_self_win", "is_discard_lose_game", "faans")
    want.update(keys("game", "game_finish", ["all"], "nobody_win"))
    if tag == "AGARI":
        a.update(who=str(who), fromWho="0", hai="1,2,3,4,5", machi="3", ten="30,1000,0", yaku="1,1")
        want.update(keys("player", "game_finish", [who], "hand"))
    else:
        want.update(keys("game", "game_finish", ["all"], "extra_reason"))
    if last:
        a["owari"] = "250,10.0,250,-10.0,250,0,250,0"
        want.update(keys("player", "record_finish", every, "final_score", "final_point", "rank"))
    return Ev(tag, a), want


def event(h, name, kind, n, hands):
    """-> (element, expected keys with their kind of event); nothing expected for unknown events"""
    who = h.value(h.int(name + ".who", 0, n - 1)) if kind in ("draw", "discard", "reach", "bye", "back") else 1
    if kind == "draw":
        t = h.int(name + ".t", 16, 17)
        hands[who].append(t)
        return Ev("%s%s" % ("TUVW"[who], t)), keys("player", "draw", [who], "hand")
    if kind == "discard":
        if not hands[who]:
            return None
        return Ev("%s%s" % ("DEFG"[who], hands[who].pop())), keys("player", "discard", [who], "hand", "round", "discard_from_hand", "discard_tiles")
    if kind in ("chi", "north"):
        if kind in hands["called"]:
            return None
        hands["called"].add(kind)
        c = 3 + 4 + 1024 * 24 if kind == "chi" else 32 + 256 * 120
        return Ev("N", {"who": "1", "m": str(c)}), keys("player", "open_hand", [1], "hand", "meld_public_tiles", "fixed_meld" if kind == "chi" else "bonus_tiles")
    if kind == "dora":
        return Ev("DORA", {"hai": str(h.int(name + ".t", 51, 53))}), keys("game", "new_dora", ["all"], "dora_indicators")
    if kind == "reach":
        step = h.int(name + ".step", 1, 2)
        return Ev("REACH", {"who": str(who), "step": str(step)}), keys("player", "richii", [who], "in_richii" if h.branch(step == 1) else "score")
    if kind == "bye":
        return Ev("BYE", {"who": str(who)}), keys("player", "connect_change", [who], "disconnected")
    if kind == "back":
        return Ev("UN", {"n%d" % who: "p%d" % who}), dict(keys("player", "connect_change", [who], "disconnected"), **{}) | keys("player", "record_init", [who], "name")
    if kind == "win":
        return result(n, "AGARI", False, 1)
    if kind == "drawn":
        return result(n, "RYUUKYOKU", False)
    if kind == "shuffle":
        return Ev("SHUFFLE", {"seed": "abc"}), keys("record", "record_init", ["all"], "seed")
    if kind == "unknown":
        return h.mod("xml.etree.ElementTree").Element("mjloggm", {"ver": "2.3"}), None
    return h.mod("xml.etree.ElementTree").Element("T5x", {}), None


def make(h, n, kinds, first_extra=()):
    """(record, [(keys or None)])"""
    reader = h.mod("mahjong.record.reader")
    hands = {p: [0, 5] for p in range(n)}
    hands["called"] = set()
    evs = header(n) + [begin(h, n)]
    for i, k in enumerate(kinds):
        e = event(h, "e%d" % i, k, n, hands)
        if e is None:
            return None
        evs.append(e)
    evs.append(result(n, "AGARI", True, 2))
    return reader.TenhouRecord([e for e, _ in evs]), [w for _, w in evs]


def plain(c):
    r = c.to_raw_record()
    return (r.timestamp, r.event.name if r.event is not None else None, r.scope.name, r.sub_scope_id, r.property.name, r.update_method.name)


def content(c):
    r = c.to_raw_record()
    return [r.value, r.state]


def same(h, a, b):
    """equal values, also nested"""
    if isinstance(a, list) and isinstance(b, list):
        return h.all_([same(h, x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if a is None or b is None:
        return a is b
    return a == b


def ordered(h, cmds, wants):
    """the commands of every event, in order, with its position and kind"""
    h.check(all(a.timestamp <= b.timestamp for a, b in zip(cmds, cmds[1:])), "the commands follow the order of the events")
    for i, w in enumerate(wants):
        mine = [c for c in cmds if c.timestamp == i]
        got = {}
        for c in mine:
            ts, ev, scope, who, prop, upd = plain(c)
            k = (who, scope, prop)
            h.check(k not in got or got[k] == ev, "one kind of event for a change")
            got[k] = ev
        h.check(got == (w or {}), "precisely the commands of the event, of its kind")
    h.check(all(0 <= c.timestamp < len(wants) for c in cmds), "no other commands")


def whole(h, n, count, kinds):
    T = h.mod("mahjong.record.universe.tenhou")
    made = make(h, n, [h.choice("k%d" % i, kinds) for i in range(count)])
    if made is None:
        return
    record, wants = made
    cmds = T.to_commands(record)
    ordered(h, cmds, wants)
    first = [(plain(c), content(c)) for c in cmds]
    # another record in between leaves no trace
    other, _ = make(h, 7 - n, [])
    T.to_commands(other)
    again = T.to_commands(record)
    h.check([plain(c) for c in again] == [p for p, _ in first], "translated again: the same commands")
    h.check(h.all_([same(h, content(c), v) for c, (_, v) in zip(again, first)]), "translated again: the same values and states")
    h.check([plain(c) for c in cmds] == [p for p, _ in first] and h.all_([same(h, content(c), v) for c, (_, v) in zip(cmds, first)]), "the first translation stays as it was")
    unknown = [i for i, w in enumerate(wants) if w is None]
    got = []
    try:
        for c in T.to_command_iter(record, True):
            got.append(c)
        h.check(not unknown, "strict: an event without commands is reported")
        h.check(len(got) == len(first), "strict: the same commands")
    except ValueError:
        h.check(len(unknown) > 0, "strict: only an event without commands is reported")
        h.check(all(c.timestamp < unknown[0] for c in got) and len(got) == len([1 for p, _ in first if p[0] < unknown[0]]), "strict: the events before it are translated")
    h.obs([len(cmds)])


def records(h, n):
    """the record forms hold the same"""
    T = h.mod("mahjong.record.universe.tenhou")
    made = make(h, n, ["draw", "discard"])
    if made is None:
        return
    record, wants = made
    cmds = T.to_commands(record)
    raws = list(T.to_command_records(record, raw=True))
    texts = list(T.to_command_records(record))
    h.check(len(raws) == len(texts) == len(cmds), "one record per command")
    for c, r, t in zip(cmds, raws, texts):
        h.check((r.timestamp, r.event.name, r.scope.name, r.sub_scope_id, r.property.name, r.update_method.name) == plain(c), "raw record")
        h.check(h.and_(same(h, r.value, c.value), same(h, r.state, c.state)), "raw record: value and state")
        h.check((t.timestamp, t.event, t.scope, t.sub_scope_id, t.property, t.update_method) == plain(c), "text record")


def long(h, n, many):
    """scripted games of full length: in order, twice the same, and every game as if it were alone in its record"""
    T = h.mod("mahjong.record.universe.tenhou")
    reader = h.mod("mahjong.record.reader")
    games = []
    for (e, f), ops, _, _ in longgame.games(h, n, many, 16, 17):
        games.append([e] + [longgame.element(o)[0] for o in ops] + [result(n, "RYUUKYOKU", False)[0]])

    def record(chunks):
        last = result(n, "AGARI", True, 2)[0]
        return reader.TenhouRecord([e for e, _ in header(n)] + [e for c in chunks for e in c] + [last])
    r = record(games)
    cmds = T.to_commands(r)
    size = [len(header(n))]
    for c in games:
        size.append(size[-1] + len(c))
    h.check(all(a.timestamp <= b.timestamp for a, b in zip(cmds, cmds[1:])), "whole games: the commands follow the order of the events")
    first = [(plain(c), content(c)) for c in cmds]
    for i, c in enumerate(games):
        alone = T.to_commands(record([c]))
        a = [(plain(x), content(x)) for x in alone if size[0] <= x.timestamp < size[0] + len(c)]
        b = [(p, v) for p, v in first if size[i] <= p[0] < size[i + 1]]
        h.check([(p[0] - size[0],) + p[1:] for p, _ in a] == [(p[0] - size[i],) + p[1:] for p, _ in b], "whole games: the commands of a game do not depend on the games before it")
        h.check(h.all_([same(h, x, y) for (_, x), (_, y) in zip(a, b)]), "whole games: nor do their values and states")
    again = [(plain(c), content(c)) for c in T.to_command_iter(r, False)]
    h.check([p for p, _ in again] == [p for p, _ in first] and h.all_([same(h, a, b) for (_, a), (_, b) in zip(again, first)]), "whole games: translated again the same")
    h.obs([len(cmds)])


def cases(tier):
    r = []
    for n in (4, 3):
        r.append(Case("one.%d" % n, whole, n, 1, KINDS))
        r.append(Case("two.%d" % n, whole, n, 2, KINDS if tier != "quick" else ["draw", "discard", "north", "reach", "bye", "drawn", "unknown"], weight=5))
        r.append(Case("records.%d" % n, records, n))
        r.append(Case("long.%d" % n, long, n, 2 if tier == "quick" else 3))
        if tier != "quick":
            r.append(Case("three.%d" % n, whole, n, 3, ["draw", "discard", "chi", "dora", "back", "unknown"], weight=9, optional=True))
    return r
