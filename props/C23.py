"""Tracked melds, discards and dora indicators."""
from symx.harness import Case
from . import longgame
from .common import prewarm
from .events import KINDS, Ev, Fact, event, init, player
from .C18 import code, eqset, spec

FUNCTIONS = ["PlayerMeld.__init__/scan/value/is_key_event", "DiscardTiles.__init__/scan/value/is_key_event", "DoraIndicators.__init__/scan/value/is_key_event",
             "GameState.with_events/passed_events/with_key_events", "GameStateCollection.scan/value/is_key_event", "TenhouPlayer.is_discard/discard_tile_index/is_open_hand",
             "meld_from", "KanFromTriplet.__init__", "is_triplet_of_added_kan", "number_list"]
BOUNDS = ["one event of every kind on trackers holding 0, 1, 2 or 33 earlier discards / indicators with symbolic numbers 0..135, every seat",
          "one meld of every kind (full code domain) after 0..2 earlier melds; an added kan after a triplet of any of the 34 faces and every copy, with a second triplet or a run "
          "before or after it, also as one of four to six melds", "event lists of 2 (quick) / 3 (thorough) events of arbitrary kinds after a start event, fed as a list, one by one and filtered",
          "two (quick) / three (thorough) scripted games of full length with all kinds of calls, one tile of each symbolic, every seat, 3 and 4 players"]
ASSUMES = ["tile numbers 0..135 and meld codes as tenhou emits them", "an added kan follows a triplet of that face called by the same player"]
warm = prewarm


class Sp:
    """a meld as the specification sees it"""

    def __init__(self, kind, own, taken, source):
        self.kind, self.own, self.taken, self.source = kind, own, taken, source


def grow(sp, f):
    return Sp("grown", sp.own + f.own, sp.taken, sp.source)


TYPES = {"chi": "Flush", "pon": "Triplet", "closed": "TenhouKan", "open": "TenhouKan", "north": "Kita", "grown": "KanFromTriplet", "added": "TenhouAddedKan"}


def same_melds(h, got, want):
    """got: Meld objects, want: Sp"""
    if len(got) != len(want):
        return False
    r = []
    for g, w in zip(got, want):
        if type(g).__name__ != TYPES[w.kind]:
            return False
        r += [eqset(h, g.self_tiles, w.own), eqset(h, g.borrowed_tiles, w.taken)]
        if w.kind != "north":
            r.append(g.from_who == w.source)
    return h.all_(r)


def same_list(h, got, want):
    return isinstance(got, list) and len(got) == len(want) and h.all_([a == b for a, b in zip(got, want)])


def discards_after(h, have, f, seat):
    if f.kind == "init":
        return []
    if f.kind == "discard" and h.branch(f.who == seat):
        return have + [f.tile]
    return have


def doras_after(h, have, f):
    if f.kind == "init":
        return [f.dora]
    return have + [f.tile] if f.kind == "dora" else have


def melds_after(h, have, f, seat):
    if f.kind == "init":
        return []
    if f.kind != "meld" or not h.branch(f.who == seat):
        return have
    if f.meld == "added":
        out = []
        for m in have:
            out.append(grow(m, f) if m.kind == "pon" and h.branch(m.own[0] // 4 == f.own[0] // 4) else m)
        return out
    return have + [Sp(f.meld, f.own, f.taken, f.source)]


def tracker_check(h, s, e, f, before, after, same, label):
    """one event on a tracker: value, frame, relevance, filtering"""
    n = s.scan(e)
    h.check(same(h, n.value, after), label)
    h.check(same(h, s.value, before), label + ": the earlier state is unchanged")
    h.check(h.or_(bool(s.is_key_event(e)), same(h, n.value, before)), label + ": an event that changes the value is relevant")
    h.check(same(h, s.passed_events([e]).value, after), label + ": filtered")
    return n


def step(h, kind, what):
    st = h.mod("mahjong.record.state")
    seat = h.value(h.int("seat", 0, 3))
    n = h.value(h.choice("n", (0, 1, 2, 33)))
    have = [h.int("old%d" % i, 0, 135) for i in range(n)]
    e, f = event(h, kind, "e")
    if what == "discards":
        s, after = st.DiscardTiles(player(h, seat), list(have)), discards_after(h, have, f, seat)
    else:
        s, after = st.DoraIndicators(list(have)), doras_after(h, have, f)
    m = tracker_check(h, s, e, f, have, after, same_list, what)
    m.scan(Ev("D7"))
    m.scan(Ev("DORA", {"hai": "9"}))
    h.check(same_list(h, m.value, after), what + ": a later event leaves the state as it was")


def call(h, kind, name, who, face=None):
    """a meld of a kind -> (element, Fact)"""
    c, kui, t, x = code(h, kind, name + ".")
    if face is not None:
        h.assume(t // 3 == face if kind in ("pon", "added") else t // 4 == face)
    own, taken = spec(h, kind, t, x)
    return Ev("N", {"who": str(who), "m": str(c)}), Fact("meld", who, None, own, taken, meld=kind, source=(who + kui) % 4, code=c)


def first(h, kind):
    """the first meld of a player"""
    st = h.mod("mahjong.record.state")
    seat = h.value(h.int("seat", 0, 3))
    e, f = event(h, kind, "e")
    tracker_check(h, st.PlayerMeld(player(h, seat)), e, f, [], melds_after(h, [], f, seat), same_melds, "melds")


def second(h, kind, old):
    """a further meld after another"""
    st = h.mod("mahjong.record.state")
    seat = 1
    who = h.value(h.int("who", 1, 2))
    e1, f1 = call(h, old, "a", seat)
    e2, f2 = call(h, kind, "b", who) if kind in TYPES else event(h, kind, "b")
    s = st.PlayerMeld(player(h, seat)).scan(e1)
    m1 = melds_after(h, [], f1, seat)
    tracker_check(h, s, e2, f2, m1, melds_after(h, m1, f2, seat), same_melds, "melds")


def added(h, layout, who):
    """a triplet grown to a kan, with another meld around"""
    st = h.mod("mahjong.record.state")
    seat = 2
    face = h.value(h.int("face", 0, 33))
    evs = []
    for i, k in enumerate(layout):
        if k == "pon":
            evs.append(call(h, "pon", "pon", seat, face))
        elif k == "pon2":
            f2 = (face + 9) % 34 if face % 2 else (face + 1) % 34
            own, taken = [4 * f2 + 1, 4 * f2 + 2], [4 * f2]
            evs.append((Ev("N", {"who": str(seat), "m": str(1 + 8 + 32 * 3 + 512 * 3 * f2)}), Fact("meld", seat, None, own, taken, meld="pon", source=(seat + 1) % 4)))
        elif k == "chi":
            f2 = min(face, 26) // 9 * 9 + min(face % 9, 6)
            c = h.value(3 + 4 + 1024 * (3 * (f2 // 9 * 7 + f2 % 9)))
            own, taken = [4 * f2 + 4, 4 * f2 + 8], [4 * f2]
            evs.append((Ev("N", {"who": str(seat), "m": str(c)}), Fact("meld", seat, None, own, taken, meld="chi", source=(seat + 3) % 4)))
        else:
            f2 = (face + 1) % 34 if k == "closed" else 30
            own = [4 * f2 + i for i in range(4)] if k == "closed" else [4 * f2]
            evs.append((Ev("N", {"who": str(seat), "m": str(256 * 4 * f2 + (32 if k == "north" else 0))}), Fact("meld", seat, None, own, [], meld=k, source=seat)))
    s = st.PlayerMeld(player(h, seat))
    m = []
    for e, f in evs:
        s = s.scan(e)
        m = melds_after(h, m, f, seat)
    # the added tile is the copy the triplet does not have
    p = next(f for (e, f), k in zip(evs, layout) if k == "pon")
    x = h.int("x", 0, 3)
    h.assume(h.all_([4 * face + x != t for t in p.own + p.taken]))
    kui, w = h.int("kui", 1, 3), h.int("w", 0, 2)
    c = kui + 16 + 32 * x + 512 * (3 * face + w)
    e, f = Ev("N", {"who": str(who), "m": str(c)}), Fact("meld", who, None, [4 * face + x], [], meld="added", source=(who + kui) % 4)
    n = tracker_check(h, s, e, f, m, melds_after(h, m, f, seat), same_melds, "melds with an added kan")
    h.check(len(n.value) == len(layout), "an added kan is not a further meld")


def history(h, n, kinds):
    st = h.mod("mahjong.record.state")
    seat = 0
    p = player(h, seat)
    evs = [init(h, "i", known=[[1, 2], [5, 6], [9, 10], [13, 14]])]
    for j in range(n):
        k = h.choice("k%d" % j, kinds)
        evs.append(event(h, k, "e%d" % j, who=h.value(h.int("e%d.who" % j, 0, 1))))
    es = [e for e, f in evs]
    made = {"discards": (st.DiscardTiles(p), lambda v, f: discards_after(h, v, f, seat), same_list),
            "doras": (st.DoraIndicators(), lambda v, f: doras_after(h, v, f), same_list),
            "melds": (st.PlayerMeld(p), lambda v, f: melds_after(h, v, f, seat), same_melds)}
    finals = {}
    for name, (s0, after, same) in made.items():
        wants = [[]]
        for e, f in evs:
            wants.append(after(wants[-1], f))
        finals[name] = wants[-1]
        steps = list(s0.with_events(es))
        h.check(len(steps) == len(es), "one state per event")
        for s, w in zip(steps, wants[1:]):
            h.check(same(h, s.value, w), name + ": the state after each event, read after the whole history")
        h.check(same(h, s0.passed_events(es).value, wants[-1]), name + ": final state of the list")
        h.check(same(h, s0.passed_events(iter(es)).value, wants[-1]), name + ": final state of an iterator")
        keys = list(s0.with_key_events(es))
        h.check(len(keys) > 0 and same(h, keys[-1].value, wants[-1]), name + ": filtered to relevant events")
        h.check(same(h, s0.value, []), name + ": the initial state is unchanged")
    c = st.GameStateCollection(discards=st.DiscardTiles(p), doras=st.DoraIndicators(), melds=st.PlayerMeld(p)).passed_events(es)
    others = {"d%d" % i: st.DiscardTiles(player(h, i)) for i in range(1, 4)}
    others.update({"m%d" % i: st.PlayerMeld(player(h, i)) for i in range(1, 4)})
    many = st.GameStateCollection(**dict(others, discards=st.DiscardTiles(p), doras=st.DoraIndicators(), melds=st.PlayerMeld(p)))
    some = many.passed_events(es)
    for name, w in finals.items():
        h.check(made[name][2](h, getattr(some.value, name).value, w), name + ": inside a large collection")
        h.check(made[name][2](h, getattr(c.value, name).value, w), name + ": inside a collection")
    # a fresh tracker starts empty whatever happened before
    h.check(st.DiscardTiles(p).value == [] and st.DoraIndicators().value == [] and st.PlayerMeld(p).value == [], "a new tracker starts afresh")


def long(h, n, many):
    """whole games of full length"""
    st = h.mod("mahjong.record.state")
    evs = longgame.stream(h, n, many)
    es = [e for e, f in evs]
    for seat in range(n):
        p = player(h, seat)
        for name, s0, after, same in (("discards", st.DiscardTiles(p), lambda v, f: discards_after(h, v, f, seat), same_list),
                                      ("doras", st.DoraIndicators(), lambda v, f: doras_after(h, v, f), same_list),
                                      ("melds", st.PlayerMeld(p), lambda v, f: melds_after(h, v, f, seat), same_melds)):
            s, want, marks = s0, [], []
            for i, (e, f) in enumerate(evs):
                s = s.scan(e)
                want = after(want, f)
                if i % 29 == 28 or f.kind in ("drawn", "init"):
                    marks.append((s, want))
            for m, w in marks:
                h.check(same(h, m.value, w), name + ": the state along whole games")
            h.check(same(h, s0.passed_events(es).value, want), name + ": final state of whole games")


def cases(tier):
    r = []
    for k in KINDS + ["init"]:
        r += [Case("discards." + k, step, k, "discards"), Case("doras." + k, step, k, "doras")]
    r += [Case("first." + k, first, k) for k in KINDS + ["init"] if k != "added"]
    for old in ("chi", "pon", "closed", "open", "north"):
        for k in ("chi", "closed", "discard", "reach") + (("pon", "open", "north", "init", "win") if tier != "quick" else ()):
            r.append(Case("second.%s.%s" % (old, k), second, k, old))
    for lay in (("pon",), ("pon2", "pon"), ("pon", "pon2"), ("chi", "pon"), ("pon", "closed"), ("north", "pon"), ("pon", "chi", "closed", "pon2"), ("chi", "closed", "pon2", "pon"), ("north", "north", "pon", "pon2", "closed", "chi")):
        r.append(Case("added." + "+".join(lay), added, lay, 2))
    r.append(Case("added by another", added, ("pon",), 1))
    r += [Case("games.%d" % n, long, n, 2 if tier == "quick" else 3) for n in (4, 3)]
    few = ["draw", "discard", "chi", "dora", "init"]
    r.append(Case("history", history, 2 if tier == "quick" else 3, few if tier == "quick" else ["discard", "closed", "dora", "other", "init"], weight=9))
    if tier != "quick":
        r.append(Case("history 2", history, 2, [k for k in KINDS if k != "added"] + ["init"], weight=9))
    return r
