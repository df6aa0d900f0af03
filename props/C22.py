"""The tracked unseen tiles."""
from symx.harness import Case
from . import longgame
from .common import prewarm
from .events import KINDS, Ev, copy_of, event, has, init, is_in, same_set

FUNCTIONS = ["InvisibleTiles.__init__", "InvisibleTiles.scan", "InvisibleTiles.value", "GameState.with_events", "GameState.passed_events", "GameState.with_key_events",
             "GameState.is_key_event", "discard_value", "is_open_hand", "is_dora_indicator_event", "is_game_init", "DoraIndicators.scan", "meld_from", "number_list"]
BOUNDS = ["one event of every kind on an arbitrary set of unseen tiles (symbolic subset of the 136 numbers), 3 and 4 players: by induction histories of any length",
          "event lists of 2 (quick) / 3 (thorough) events of arbitrary kinds after a start event, fed as a list, one by one and filtered",
          "two (quick) / three (thorough) scripted games of full length with all kinds of calls, one tile of each symbolic, 3 and 4 players"]
ASSUMES = ["tile numbers 0..135 and meld codes as tenhou emits them"]
warm = prewarm


def whole(h, n):
    if n == 4:
        return lambda t: True
    return lambda t: h.or_(t < 4, t >= 32)


def after(h, unseen, f, n):
    if f.kind == "init":
        w = whole(h, n)
        return lambda t: h.and_(w(t), t != f.dora)
    if f.kind in ("discard", "dora"):
        return lambda t: h.and_(unseen(t), t != f.tile)
    if f.kind == "meld":
        return lambda t: h.and_(unseen(t), h.not_(is_in(h, t, f.own)))
    return unseen


def step(h, kind, n):
    st = h.mod("mahjong.record.state")
    tiles = h.subset("unseen", range(136))
    first = copy_of(tiles)

    def before(t):
        return has(h, first, t)
    s = st.InvisibleTiles(n, tiles)
    e, f = event(h, kind, "e", n)
    k = s.scan(e)
    want = after(h, before, f, n)
    h.check(same_set(h, k.value, want), "unseen tiles after the event")
    h.check(same_set(h, s.value, before), "the earlier state is unchanged")
    h.check(h.or_(s.is_key_event(e), same_set(h, k.value, before)), "an event that shows a tile is relevant")
    h.check(same_set(h, s.passed_events([e]).value, want), "fed as a list")
    k.scan(Ev("D7"))
    k.scan(Ev("DORA", {"hai": "9"}))
    h.check(same_set(h, k.value, want), "a later event leaves the state as it was")


def fresh(h, n):
    st = h.mod("mahjong.record.state")
    h.check(same_set(h, st.InvisibleTiles(n).value, whole(h, n)), "before the first game every tile is unseen")
    h.check(len(st.InvisibleTiles(n).value) == (136 if n == 4 else 108), "number of tiles")


def history(h, m, kinds, n):
    st = h.mod("mahjong.record.state")
    dealt = [[p, 40 + p] for p in range(n)]
    evs = [init(h, "i", n, known=dealt)]
    for j in range(m):
        evs.append(event(h, h.choice("k%d" % j, kinds), "e%d" % j, n, who=h.value(h.int("e%d.who" % j, 0, 1))))
    wants = [whole(h, n)]
    for e, f in evs:
        wants.append(after(h, wants[-1], f, n))
    es = [e for e, f in evs]
    s0 = st.InvisibleTiles(n)
    steps = list(s0.with_events(es))
    h.check(len(steps) == len(es), "one state per event")
    for s, w in zip(steps, wants[1:]):
        h.check(same_set(h, s.value, w), "the state after each event, read after the whole history")
    h.check(same_set(h, s0.passed_events(es).value, wants[-1]), "final state of the list")
    keys = list(s0.with_key_events(iter(es)))
    h.check(len(keys) > 0 and same_set(h, keys[-1].value, wants[-1]), "filtered to relevant events")
    h.check(same_set(h, s0.value, wants[0]), "the initial state is unchanged")
    h.check(same_set(h, st.InvisibleTiles(n).value, wants[0]), "a new tracker starts afresh")


def long(h, n, many):
    """whole games of full length"""
    st = h.mod("mahjong.record.state")
    evs = longgame.stream(h, n, many)
    s = s0 = st.InvisibleTiles(n)
    want = whole(h, n)
    marks = []
    for i, (e, f) in enumerate(evs):
        s = s.scan(e)
        want = after(h, want, f, n)
        if i % 37 == 36 or i == len(evs) - 1:
            marks.append((s, want))
    for s, w in marks:
        h.check(same_set(h, s.value, w), "the state along whole games")
    h.check(same_set(h, s0.passed_events([e for e, f in evs]).value, want), "final state of whole games")


def cases(tier):
    r = [Case("step.%s.%d" % (k, n), step, k, n) for k in KINDS + ["init"] for n in (4, 3)]
    r += [Case("fresh.%d" % n, fresh, n) for n in (4, 3)]
    r += [Case("games.%d" % n, long, n, 2 if tier == "quick" else 3) for n in (4, 3)]
    few = ["draw", "discard", "chi", "dora", "init"]
    for n in (4, 3):
        r.append(Case("history.%d" % n, history, 2 if tier == "quick" else 3, few if tier == "quick" else ["discard", "closed", "added", "dora", "other", "init"], n, weight=9))
        if tier != "quick":
            r.append(Case("history 2.%d" % n, history, 2, KINDS + ["init"], n, weight=9))
    return r
