"""Selection of the handler that translates an event."""
from symx.harness import Case

FUNCTIONS = ["TenhouCommandTranslator.match_name/match_names/match_attr/match_both", "CommandTranslator.default_event", "TenhouCommandTranslator.translate", "CommandTranslator.__call__", "fallback_call", "postprocess", "preprocess", "clear", "default_event_type", "GameInterpreter.interpret"]
BOUNDS = ["translators with up to three (quick) / four (thorough) handlers, each registered for the event's name, a list of names, one of two attributes, a name with an attribute, or as default, matching or not, and giving no, one or two commands with symbolic values",
          "events with none, one or both of the attributes in either order, strict and tolerant, one or two events in a row"]
ASSUMES = ["handlers have no effect besides their commands"]

WAYS = ["both x", "both y", "both other", "name", "names", "name other", "attr x", "attr y", "attr z", "default"]
LEVEL = {"both": 0, "name": 1, "names": 1, "attr": 2, "default": 3}


def register(h, t, way, func):
    kind, _, what = way.partition(" ")
    if kind == "both":
        t.match_both(name="OTHER" if what == "other" else "EV", attr="x" if what == "other" else what)(func)
    elif kind == "name":
        t.match_name("OTHER" if what else "EV")(func)
    elif kind == "names":
        t.match_names(["OTHER", "EV"])(func)
    elif kind == "attr":
        t.match_attr(what)(func)
    else:
        t.default_event(func)


def matches(way, attrs):
    """None or the order in which the handler is asked"""
    kind, _, what = way.partition(" ")
    if what == "other" or (kind in ("both", "attr") and what not in attrs):
        return None
    return LEVEL[kind], attrs.index(what) if what else 0


def select(h, count, ways, two):
    X = h.mod("mahjong.record.universe.tenhou.xml_macher")
    C = h.mod("mahjong.record.universe.command").GameCommand
    F = h.mod("mahjong.record.universe.format")
    tr = h.mod("mahjong.record.universe.translator")
    U = h.mod("mahjong.record.utils.event")
    ET = h.mod("xml.etree.ElementTree")
    t = X.TenhouCommandTranslator()
    hs = []
    seen = []
    for i in range(count):
        way = h.choice("way%d" % i, ways)
        n = h.value(h.int("n%d" % i, 0, 2 if i == 0 else 1))
        vals = [h.int("v%d.%d" % (i, j), -100, 100) for j in range(n)]

        def func(event, state, i=i, vals=vals):
            seen.append((i, dict(state)))
            for v in vals:
                yield C(prop=F.GameView.round, update=F.Update.REPLACE, value=v)
        if i == 1:
            func = tr.default_event_type(F.EventType.draw)(func)
        register(h, t, way, func)
        hs.append((way, vals))
    attrs = h.choice("attrs", [[], ["x"], ["y"], ["x", "y"], ["y", "x"]])
    strict = h.branch(h.bool("strict"))
    before = {}
    key = ("all", F.GameView.round)
    for turn in range(2 if two else 1):
        e = U.TenhouEvent(ET.Element("EV", {a: "1" for a in attrs}), context=None, timestamp=7 + turn)
        asked = sorted((matches(w, attrs) + (i,)) for i, (w, v) in enumerate(hs) if matches(w, attrs) is not None)
        want = None
        order = []
        for _, _, i in asked:
            order.append(i)
            if hs[i][1]:
                want = i
                break
        del seen[:]
        try:
            got = t(e, strict)
        except ValueError:
            h.check(want is None and strict, "only an event without commands is an error, and only when strict")
            return
        h.check(not (want is None and strict), "strict: an event without commands is an error")
        h.check([i for i, _ in seen] == order, "handlers are asked from the most specific to the default ones, until one gives commands")
        h.check(h.all_([set(s) == set(before) and (key not in s or s[key] == before[key]) for _, s in seen]), "a handler sees the state before the event")
        vals = hs[want][1] if want is not None else []
        h.check(len(got) == len(vals) and h.all_([h.and_(c.value == v, c.state == v) for c, v in zip(got, vals)]), "precisely the commands of that handler, with the state after each")
        h.check(all(c.timestamp == 7 + turn for c in got), "with the position of the event")
        h.check(all(c.event is (F.EventType.draw if want == 1 else None) for c in got), "with the kind of event its handler declares")
        if vals:
            before = {key: vals[-1]}
    t.clear()
    h.check(len(t.interpreter.state) == 0, "cleared: no state is left")
    h.obs([len(got)])


def cases(tier):
    r = [Case("two", select, 2, WAYS, False), Case("three", select, 3, ["both x", "name", "attr x", "attr y", "default"], False, weight=3), Case("again", select, 2, ["both x", "both y", "name", "attr x", "default"], True)]
    if tier == "thorough":
        r += [Case("all three", select, 3, WAYS, False, weight=5, optional=True), Case("four", select, 4, ["both x", "name", "names", "attr y", "default"], True, weight=9, optional=True)]
    return r
