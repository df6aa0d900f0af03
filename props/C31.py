"""Commands as text records and back."""
from symx.harness import Case
from .C29 import KIND, LISTS, NUMBERS, TYPES, copy, member, same

UPDATES = ["REPLACE", "CLEAR", "ADD", "REMOVE", "RESET_DEFAULT", "ASSERT_EQUAL_OR_SET"]
EVENTS = ["record_init", "game_init", "draw", "discard", "open_hand", "new_dora", "richii", "connect_change", "game_finish", "record_finish"]
FUNCTIONS = ["GameCommand.to_record", "GameCommand.from_record", "to_raw_record", "from_raw_record", "prop_manager.to_str/from_str", "json_dump", "json_load_any", "plain_str", "try_int", "norm_empty",
             "View.by_name", "View.type", "lookup_func_table"]
BOUNDS = ["all 38 properties, 6 update kinds, 10 event kinds or none, all players", "whole numbers -10^6..10^6, numbers with one decimal -9.9..9.9 and eight unusual decimals, flags, texts of up to 3 characters (printable ASCII, tab, line ends, accented, Chinese, full-width, beyond the basic plane), "
          "lists of up to 3 tiles, numbers, flags or texts, lists of up to two such lists", "missing values as None and as the not-a-number that reading a table gives", "player numbers given as number or text"]
ASSUMES = ["json of the standard library renders and reads numbers, flags, texts and lists as documented (its model keeps numbers symbolic)"]
OUTSIDE = ["the table files themselves (pandas)", "texts with other characters than those listed"]


ASCII = "".join(map(chr, range(32, 127)))
CHARS = ASCII + "\t\n\r\u00e9\u3000\u7acb\u6771\uff11\U0001f000"
ODD_FLOATS = [1500.25, -0.5, 0.0, 2147.49, 1e22, 1e-7, 1 / 3, -1999.99]
ODD_TEXTS = ["", " ", "a\"b\\", "null", "1", "\u7acb\u76f4 1\u98dc", "\u00e9\U0001f000", "x\ny", "[]", "nan"]


def number(h, name, kind):
    if kind == "float" and h.branch(h.bool(name + ".frac")):
        if h.branch(h.bool(name + ".odd")):
            return h.choice(name + ".of", ODD_FLOATS)
        return h.value(h.int(name, -99, 99)) / 10
    return h.int(name, -10 ** 6, 10 ** 6)


def value(h, name, kind):
    if kind in NUMBERS:
        return number(h, name, kind)
    if kind == "bool":
        return h.branch(h.bool(name))
    if kind == "str":
        n = h.value(h.int(name + ".len", 0, 3))
        return h.text(name, n, chars=CHARS)
    n = h.value(h.int(name + ".len", 0, 3))
    tile = lambda i: h.char("%s.%d" % (name, i), lo=48, hi=57) + "m"
    if kind == "melds":
        return [[tile(i)] * (1 + i) for i in range(min(n, 2))]
    if kind == "list":
        how = h.choice(name + ".of", ["tiles", "flags", "numbers", "texts"])
        if how == "flags":
            return [h.branch(h.bool("%s.%d" % (name, i))) for i in range(n)]
        if how == "numbers":
            return [h.int("%s.%d" % (name, i), -99, 99) for i in range(n)]
        if how == "texts":
            return [h.choice("%s.%d" % (name, i), ODD_TEXTS if i < 2 else ["x"]) for i in range(n)]
    return [tile(i) for i in range(n)]


def make(h, prop, value, state=None, update="REPLACE", who="all", event=None, ts=5):
    F = h.mod("mahjong.record.universe.format")
    C = h.mod("mahjong.record.universe.command").GameCommand
    return C(prop=member(h, prop), update=F.Update[update], sub_scope=who, value=value, state=state, timestamp=ts, event=None if event is None else F.EventType[event])


def equal(h, a, b):
    """the commands are equal in every part"""
    x, y = a.to_raw_record(), b.to_raw_record()
    return h.all_([x.property is y.property, x.update_method is y.update_method, x.event is y.event, x.scope is y.scope, same(h, x.timestamp, y.timestamp), same(h, x.sub_scope_id, y.sub_scope_id),
                   same(h, x.value, y.value), same(h, x.state, y.state)])


def texts(h, r):
    return h.all_([v is None or isinstance(v, str) for v in (r.event, r.scope, r.property, r.update_method, r.value, r.state)])


def trip(h, c):
    C = h.mod("mahjong.record.universe.command").GameCommand
    r = c.to_record()
    h.check(texts(h, r), "the record is text")
    b = C.from_record(r)
    h.check(equal(h, b, c), "reading the record back gives an equal command")
    q = b.to_record()
    h.check(h.all_([same(h, x, y) for x, y in zip(q, r)]), "the record of the command read back is the same record")
    h.obs([[r.property, r.value, b.value]])
    # the same through the unrendered record
    d = C.from_raw_record(c.to_raw_record())
    h.check(equal(h, d, c), "the raw record gives an equal command")
    return r


def values(h, kind):
    prop = h.choice("prop", TYPES[kind])
    v = value(h, "v", kind)
    keep = copy(v)
    which = h.branch(h.bool("state"))
    r = trip(h, make(h, prop, v, state=v) if which else make(h, prop, v))
    h.check(same(h, v, keep), "the value stays as it was")
    h.check((r.scope + "." + r.property) == prop, "the record names the property")


def two(h, kind):
    """value and state differ"""
    prop = TYPES[kind][0]
    if kind in ("str",):
        a, b = h.text("a", 1, chars=CHARS), h.text("b", 1, chars="xy")
    elif kind in LISTS:
        a, b = value(h, "a", "tiles"), [["1m"], ["2m", "3m"]][:h.value(h.int("b", 0, 2))]
    else:
        a, b = value(h, "a", kind), value(h, "b", "score" if kind == "float" else kind)
    trip(h, make(h, prop, a, state=b))


def missing(h):
    """no value, no state, no event, no timestamp"""
    C = h.mod("mahjong.record.universe.command").GameCommand
    prop = h.choice("prop", sorted(KIND))
    c = make(h, prop, None, ts=None, update=h.choice("update", ["RESET_DEFAULT", "REPLACE"]))
    trip(h, c)
    gap = float("nan")
    r = c.to_record()
    how = h.branch(h.bool("state"))
    b = C.from_record(r._replace(value=gap, state=gap, event=gap, timestamp=gap))
    h.check(equal(h, b, c), "what a table shows as missing stays missing")
    d = C.from_raw_record(c.to_raw_record()._replace(value=gap, state=gap, timestamp=gap))
    h.check(equal(h, d, c), "what a raw table shows as missing stays missing")


def parts(h):
    """every update kind, event kind and player"""
    C = h.mod("mahjong.record.universe.command").GameCommand
    prop = h.choice("prop", ["player.hand", "player.round", "game.round", "record.seed"])
    who = h.value(h.int("who", 0, 3)) if prop.startswith("player.") else "all"
    v = {"player.hand": ["1m"], "record.seed": "s"}.get(prop)
    if v is None:
        v = h.int("v", 0, 99)
    c = make(h, prop, v, update=h.choice("update", UPDATES), who=who, event=h.choice("event", [None] + EVENTS), ts=h.int("ts", 0, 10 ** 6))
    r = trip(h, c)
    h.check(equal(h, C.from_record(r._replace(sub_scope_id=str(r.sub_scope_id))), c), "player numbers may be text")


def typed(h, kind):
    """a table reader may hand over numbers and flags instead of their text"""
    C = h.mod("mahjong.record.universe.command").GameCommand
    prop = h.choice("prop", TYPES[kind])
    if kind == "str":
        v = h.choice("v", [0, 1, 7, 10, 123, -5])
        want = str(v)
    elif kind == "bool":
        v = want = h.branch(h.bool("v"))
    else:
        v = want = number(h, "v", kind)
    r = make(h, prop, None).to_record()
    b = C.from_record(r._replace(value=v, state=v)).to_raw_record()
    h.check(h.and_(same(h, b.value, want), same(h, b.state, want)), "a number or flag of a table is that value")
    h.check(isinstance(want, bool) == isinstance(b.value, bool), "a flag stays a flag")
    if kind == "str":
        h.check(isinstance(b.value, str), "a text property reads as text")


def cases(tier):
    r = [Case("values." + k, values, k) for k in TYPES] + [Case("two." + k, two, k) for k in TYPES]
    r += [Case("typed." + k, typed, k) for k in TYPES if k not in LISTS]
    return r + [Case("missing", missing), Case("parts", parts)]
