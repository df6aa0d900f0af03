"""Stage grouping and record cutting."""
from symx.harness import Case
from . import longgame
from .events import Ev as Event

FUNCTIONS = ["StageGroupby.__init__/__iter__/__next__", "StageGroupby._stage_accepted", "StageGroupby._grouper", "TenhouRecord.__init__", "TenhouGame.__init__",
             "is_game_init", "list_of_xml_configs"]
BOUNDS = ["streams of 0..5 (quick) / 0..7 (thorough) elements with symbolic keys 0..4, five stage lists (2, 3 stages, a repeated stage, none), consumer takes "
          "all, none or a symbolic number of each group, or goes back to a group left behind", "records of 1..3 games with 1..3 further events of symbolic kind each"]
ASSUMES = ["a record starts with header events, and each game has at least one event after its start event (a game always ends with a win or a draw)"]


def spec(h, keys, stages):
    """groups as (start, end): the longest stretch running through the stage list in order"""
    out = []
    i, n = 0, len(keys)
    while i < n:
        k = None
        for s, v in enumerate(stages):
            if h.branch(keys[i] == v):
                k = s
                break
        j = i + 1
        if k is None:
            while j < n and h.branch(keys[j] == keys[i]):
                j += 1
        else:
            while j < n:
                s = k
                while s < len(stages) and not h.branch(keys[j] == stages[s]):
                    s += 1
                if s == len(stages):
                    break
                k = s
                j += 1
        out.append((i, j))
        i = j
    return out


def label(h, first, key, stages):
    """the stages from the first element's key on, or just that key"""
    for s, v in enumerate(stages):
        if h.branch(first == v):
            return isinstance(key, list) and len(key) == len(stages) - s and h.all_([a == b for a, b in zip(key, stages[s:])])
    return False if isinstance(key, list) else key == first


class Item:
    def __init__(self, pos, key):
        self.pos = pos
        self.key = key


def group(h, n, stages, mode, plain):
    S = h.mod("mahjong.record.stage").StageGroupby
    keys = [h.int("k%d" % i, 0, 4) for i in range(n)]
    if plain:
        src = keys
        g = S(iter(src), *stages)
    else:
        src = [Item(i, k) for i, k in enumerate(keys)]
        g = S(src, *stages, key=lambda x: x.key)
    want = spec(h, keys, stages)
    got = 0
    labels = []
    old = []
    for num, (key, items) in enumerate(g):
        h.check(num < len(want), "no extra group")
        a, b = want[num]
        labels.append((a, key))
        h.check(label(h, keys[a], key, stages), "label of the group")
        if mode == "late":
            for o in old:
                h.check(next(o, None) is None, "a group left behind gives nothing more")
            old.append(items)
        if mode == "all":
            take = b - a + 5
        elif mode == "none":
            take = 0
        else:
            take = h.value(h.int("take%d" % num, 0, 1 if mode == "late" else 2))
        seen = []
        if take:
            for x in items:
                seen.append(x)
                if len(seen) == take:
                    break
        h.check(len(seen) == min(take, b - a), "a group holds all its elements")
        for d, x in enumerate(seen):
            if plain:
                h.check(x == keys[a + d], "elements in order")
            else:
                h.check(x is src[a + d], "elements in order, none lost or repeated")
        got += 1
    for o in old[:-1]:
        h.check(next(o, None) is None, "a group left behind gives nothing more")
    h.check(got == len(want), "the groups cover the whole stream")
    for a, key in labels:
        h.check(label(h, keys[a], key, stages), "the label of a group stays when the group is read")
    h.obs([want])


class Ev:
    def __init__(self, tag, **attrib):
        self.tag = tag
        self.attrib = attrib


KINDS = ["T12", "D12", "DORA", "REACH"]


def cut(h, games):
    reader = h.mod("mahjong.record.reader")
    ev = [Ev("GO", type="169"), Ev("UN", n0="a", n1="b", n2="c", n3="d", dan="1,2,3,4", rate="1,2,3,4", sx="M,M,F,M"), Ev("TAIKYOKU", oya="0")]
    head = h.value(h.int("head", 2, 3))
    ev = ev[:head]
    want = []
    for g in range(games):
        chunk = [Ev("INIT", seed="0,0,0,1,2,%d" % (g + 4), oya="0", ten="250,250,250,250", hai0="1", hai1="2", hai2="3", hai3="4")]
        for k in range(h.value(h.int("len%d" % g, 0, 2))):
            kind = KINDS[h.value(h.int("ev%d.%d" % (g, k), 0, 2))]
            chunk.append(Ev(kind, hai="7", who="1", step="1"))
        if h.branch(h.bool("win%d" % g)):
            chunk.append(Ev("AGARI", who="1", fromWho="2", ten="30,1000,0", sc="1,2,3,4"))
            if h.branch(h.bool("double%d" % g)):
                chunk.append(Ev("AGARI", who="0", fromWho="2", ten="30,1000,0", sc="1,2,3,4"))
        else:
            chunk.append(Ev("RYUUKYOKU", type="nm", sc="1,2,3,4"))
        want.append(chunk)
        ev.extend(chunk)
    ev[-1].attrib["owari"] = "250,0.0,250,0.0,250,0.0,250,0.0"
    r = reader.TenhouRecord(ev)
    h.check(len(r.game_list) == games, "one game per start event")
    for g, chunk in zip(r.game_list, want):
        h.check(same_events(g.events, chunk), "a game holds precisely its own events, in order")
        h.check(g.events[0].tag == "INIT", "a game starts at its start event")
        h.check(same_events(g.end_events, [e for e in chunk if e.tag in ("AGARI", "RYUUKYOKU")]), "end events of the game")
    h.check(same_events(r.events, ev), "no event lost")
    h.check([e.timestamp for e in r.events] == list(range(len(ev))), "events are numbered in order")
    h.obs([len(g.events) for g in r.game_list])


def long(h, n, many):
    """scripted games of full length"""
    reader = h.mod("mahjong.record.reader")
    ev = [Event("GO", {"type": "9" if n == 4 else "25"}), Event("UN", dict(n0="a", n1="b", n2="c", n3="d", dan="1,2,3,4", rate="1,2,3,4", sx="M,M,F,M"))]
    head = len(ev)
    want = []
    for i, ((e, f), ops, _, _) in enumerate(longgame.games(h, n, many, 16, 17)):
        chunk = [e] + [longgame.element(o)[0] for o in ops]
        if h.branch(h.bool("win%d" % i)):
            chunk.append(Event("AGARI", {"who": "1", "fromWho": "2", "ten": "30,1000,0", "sc": "1,2,3,4"}))
        else:
            chunk.append(Event("RYUUKYOKU", {"sc": "1,2,3,4"}))
        want.append(chunk)
        ev += chunk
    ev[-1].attrib["owari"] = "250,0.0,250,0.0,250,0.0,250,0.0"
    r = reader.TenhouRecord(ev)
    h.check(len(r.game_list) == many and all(same_events(g.events, c) and same_events(g.end_events, c[-1:]) for g, c in zip(r.game_list, want)), "whole games: each holds precisely its own events")
    h.check(same_events(r.events, ev) and [e.timestamp for e in r.events] == list(range(len(ev))), "whole games: no event lost, numbered in order")
    h.obs([len(g.events) for g in r.game_list])


def same_events(got, want):
    """the very elements of the log: their attribute dictionaries are the same objects"""
    return len(got) == len(want) and all(a.tag == b.tag and a.attrib is b.attrib for a, b in zip(got, want))


STAGES = [(1, 2), (1, 2, 3), (3, 1), (1, 2, 1), ()]


def cases(tier):
    top = 7 if tier == "thorough" else 5
    r = []
    for n in range(top + 1):
        for i, st in enumerate(STAGES):
            for mode in ("all", "none", "some"):
                if n < top or mode == "all" or tier == "thorough":
                    r.append(Case("g%d.%d.%s" % (n, i, mode), group, n, st, mode, False, optional=(n >= 6 and mode == "some")))
    for i, st in enumerate(STAGES):
        for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
            r.append(Case("late%d.%d" % (n, i), group, n, st, "late", False))
    r.append(Case("plain", group, 4, (1, 2), "all", True))
    r += [Case("long.%d" % n, long, n, 3) for n in (4, 3)]
    r += [Case("cut%d" % g, cut, g) for g in ((1, 2, 3) if tier == "thorough" else (1, 2))]
    return r
