"""The tracked own hand."""
from symx.harness import Case
from . import longgame
from .common import prewarm
from .events import KINDS, Ev, copy_of, event, has, init, is_in, player, same_set

FUNCTIONS = ["PlayerHand.__init__", "PlayerHand.scan", "PlayerHand.value", "GameState.with_events", "GameState.passed_events", "GameState.with_key_events",
             "GameState.is_key_event", "GameStateCollection.scan/value/is_key_event", "TenhouPlayer.is_draw/draw_tile_index/is_discard/discard_tile_index/is_open_hand",
             "is_event_triggered_by_player", "number_list", "meld_from"]
BOUNDS = ["one event of every kind on an arbitrary tracked hand (symbolic subset of the 136 tiles), every seat: by induction histories of any length",
          "event lists of 2 (quick) / 3 (thorough) events of arbitrary kinds after a start event, fed as a list, one by one and filtered",
          "two (quick) / three (thorough) scripted games of full length with all kinds of calls, one tile of each symbolic, every seat, 3 and 4 players"]
ASSUMES = ["tile numbers 0..135 and meld codes as tenhou emits them"]
warm = prewarm


def after(h, have, f, seat):
    """membership after the event, as a function of the number"""
    if f.kind == "init":
        return lambda t: is_in(h, t, f.hands[seat])
    if f.kind == "draw" and f.who == seat:
        return lambda t: h.or_(have(t), f.tile == t)
    if f.kind == "discard" and f.who == seat:
        return lambda t: h.and_(have(t), f.tile != t)
    if f.kind == "meld" and h.branch(f.who == seat):
        return lambda t: h.and_(have(t), h.not_(is_in(h, t, f.own)))
    return have


def nothing(t):
    return False


def step(h, kind):
    st = h.mod("mahjong.record.state")
    seat = h.value(h.int("seat", 0, 3))
    hand = h.subset("hand", range(136))
    first = copy_of(hand)

    def before(t):
        return has(h, first, t)
    s = st.PlayerHand(player(h, seat), hand)
    if kind == "deal":
        e, f = init(h, "e", 4, 13)
    else:
        e, f = event(h, kind, "e")
    n = s.scan(e)
    want = after(h, before, f, seat)
    h.check(same_set(h, n.value, want), "hand after the event")
    h.check(same_set(h, s.value, before), "the earlier state is unchanged")
    k = s.is_key_event(e)
    h.check(h.or_(k, same_set(h, n.value, before)), "an event that changes the hand is relevant")
    h.check(same_set(h, s.passed_events([e]).value, want), "fed as a list")
    m = n.scan(Ev("T7"))
    h.check(same_set(h, n.value, want), "a later event leaves the state as it was")


def three(h):
    """no fourth hand in a three-player game"""
    st = h.mod("mahjong.record.state")
    seat = h.value(h.int("seat", 0, 2))
    e, f = init(h, "e", 3, 13)
    n = st.PlayerHand(player(h, seat)).scan(e)
    h.check(same_set(h, n.value, after(h, nothing, f, seat)), "hand after the event")


def history(h, n, kinds):
    st = h.mod("mahjong.record.state")
    seat = 0
    p = player(h, seat)
    evs = [init(h, "i")]
    for j in range(n):
        k = h.choice("k%d" % j, kinds)
        evs.append(event(h, k, "e%d" % j, who=h.value(h.int("e%d.who" % j, 0, 1)) if k not in ("init", "dora", "drawn", "other") else None))
    wants = [nothing]
    for e, f in evs:
        wants.append(after(h, wants[-1], f, seat))
    es = [e for e, f in evs]
    s0 = st.PlayerHand(p)
    steps = list(s0.with_events(es))
    h.check(len(steps) == len(es), "one state per event")
    for s, w in zip(steps, wants[1:]):
        h.check(same_set(h, s.value, w), "the state after each event, read after the whole history")
    h.check(same_set(h, s0.passed_events(es).value, wants[-1]), "final state of the list")
    h.check(same_set(h, s0.passed_events(iter(es)).value, wants[-1]), "final state of an iterator")
    keys = list(s0.with_key_events(es))
    h.check(len(keys) > 0 and same_set(h, keys[-1].value, wants[-1]), "filtered to relevant events")
    h.check(same_set(h, s0.value, wants[0]), "the initial state is unchanged")
    c0 = st.GameStateCollection(mine=s0, other=st.PlayerHand(player(h, (seat + 1) % 4)))
    c = c0.passed_events(es)
    h.check(same_set(h, c.value.mine.value, wants[-1]), "inside a collection")
    h.check(same_set(h, c0.value.mine.value, wants[0]), "the collection before is unchanged")
    h.check(len(list(c0.with_events(es))) == len(es), "the collection has one state per event")


def long(h, n, many):
    """whole games of full length"""
    st = h.mod("mahjong.record.state")
    evs = longgame.stream(h, n, many)
    es = [e for e, f in evs]
    for seat in range(n):
        want = nothing
        s = s0 = st.PlayerHand(player(h, seat))
        marks = []
        for i, (e, f) in enumerate(evs):
            s = s.scan(e)
            want = after(h, want, f, seat)
            if i % 29 == 28 or i == len(evs) - 1:
                marks.append((s, want))
        for s, w in marks:
            h.check(same_set(h, s.value, w), "the state along whole games")
        h.check(same_set(h, s0.passed_events(es).value, want), "final state of whole games")


def cases(tier):
    r = [Case("step." + k, step, k) for k in KINDS + ["init", "deal"]]
    r.append(Case("three players", three))
    r += [Case("games.%d" % n, long, n, 2 if tier == "quick" else 3) for n in (4, 3)]
    few = ["draw", "discard", "pon", "dora", "init"]
    r.append(Case("history", history, 2 if tier == "quick" else 3, few if tier == "quick" else ["draw", "discard", "closed", "added", "other", "init"], weight=9))
    if tier != "quick":
        r.append(Case("history 2", history, 2, KINDS + ["init"], weight=9))
    return r
