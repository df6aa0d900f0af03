"""Tables read back from files."""
import os
import shutil
import tempfile

from symx.harness import Case
from .C29 import KIND, LISTS, TYPES, copy, same
from .C31 import EVENTS, UPDATES, make, value
from .common import prewarm

FUNCTIONS = ["GameCommand.clean", "pandas_columns_clean", "read_clean_csv", "from_record", "to_raw_record", "to_record", "GameExecutor.read_clean_csv", "replace_enum_values", "get_enums_from", "state_series_apply",
             "prop_manager.from_str", "execute_as_dataframe", "flatten", "plain_str", "json_load_any"]
BOUNDS = ["lines of a command table: all 38 properties, 6 update kinds, 10 event kinds or none, every player as number or text, symbolic values and states as in C31 or missing (None or the not-a-number of tables), one further column",
          "command files of up to 3 commands and state files of up to 4 (quick) / 5 (thorough) commands of every kind of property and player, values out of a list for each kind: numbers with sign and decimals, flags, tiles, "
          "melds, texts that look like a number, a flag, a missing mark or json"]
ASSUMES = ["pandas itself (the real one is used, its files in a scratch folder)"]
OUTSIDE = ["empty texts in files (a table file does not tell them from missing values)", "texts with carriage returns in files"]
warm = prewarm

TEXTS = ["x", "123", "007", "1.50", "NA", "null", "nan", "None", "true", "[]", "a,b", 'a"b', " a", "a ", "\u7acb\u76f4", "x\ny", "PlayerView.hand", "inf", "1e5"]


def gone(v):
    return v is None or (isinstance(v, float) and v != v)


def missing_or(h, got, want):
    if want is None:
        return gone(got)
    return same(h, got, want)


def raw_line(h, row, r):
    """the cells of a cleaned line are the fields of the command"""
    return h.all_([row["property"] is r.property, row["update_method"] is r.update_method, row["scope"] is r.scope, (gone(row["event"]) if r.event is None else row["event"] is r.event),
                   missing_or(h, row["timestamp"], r.timestamp), same(h, row["sub_scope_id"], r.sub_scope_id), missing_or(h, row["value"], r.value), missing_or(h, row["state"], r.state)])


def line(h, kind):
    """one line of a table"""
    C = h.mod("mahjong.record.universe.command").GameCommand
    pd = h.mod("pandas")
    vary = h.choice("vary", ["property", "value"])
    prop = h.choice("prop", TYPES[kind]) if vary == "property" else TYPES[kind][-1]
    who = h.choice("who", [0, 3]) if prop.startswith("player.") else "all"
    v = value(h, "v", kind) if vary == "value" else copy(h.choice("v", PICK[kind][:3]))
    other = h.choice("state", ["same", "none"])
    event = h.choice("event", [None, "draw"]) if vary == "property" else None
    c = make(h, prop, v, state=v if other == "same" else None, who=who, event=event, ts=h.int("ts", 0, 10 ** 5), update=h.choice("update", ["REPLACE", "ADD"]) if vary == "property" else "REPLACE")
    r = c.to_record()
    cells = dict(r._asdict())
    as_text = who == 3 or vary == "value"
    if as_text:
        cells["sub_scope_id"] = str(who)
    gap = float("nan")
    for k, x in list(cells.items()):
        if x is None:
            cells[k] = gap
    if kind not in ("str",) and other == "none":
        cells["state"] = gap
    cells = dict([("Unnamed: 0", 7)] + list(cells.items()) + [("log_id", "L")])
    row = pd.Series(cells, dtype=object)
    got = C.pandas_columns_clean(row)
    h.check(list(got.index) == list(cells), "the columns of the line")
    h.check(got["Unnamed: 0"] == 7 and got["log_id"] == "L", "other columns stay")
    h.check(raw_line(h, got, c.to_raw_record()), "the raw line of the command")
    h.check(h.all_([(row[k] is cells[k] or same(h, row[k], cells[k])) for k in cells]), "the line read stays as it was")
    back = C.from_raw_record(next(iter(pd.DataFrame([list(got)[1:9]], columns=list(cells)[1:9], dtype=object).itertuples(index=False))))
    a, b = back.to_raw_record(), c.to_raw_record()
    h.check(h.all_([a.property is b.property, a.update_method is b.update_method, a.event is b.event, same(h, a.sub_scope_id, b.sub_scope_id), missing_or(h, a.value, b.value), missing_or(h, a.state, b.state),
                    same(h, a.timestamp, b.timestamp)]), "the command of the raw line")
    h.obs([[prop, v]])


def every(h):
    """every property, update kind and event kind"""
    C = h.mod("mahjong.record.universe.command").GameCommand
    pd = h.mod("pandas")
    prop = h.choice("prop", sorted(KIND))
    v = {"tiles": ["1m"], "melds": [["1m"]], "list": [True], "str": "s", "bool": True, "float": 1.5}.get(KIND[prop], 3)
    who = h.value(h.int("who", 0, 3)) if prop.startswith("player.") else "all"
    axis = h.choice("vary", ["update", "event"])
    c = make(h, prop, v, state=v, who=who, ts=4, update=h.choice("u", UPDATES) if axis == "update" else "REPLACE", event=h.choice("e", [None] + EVENTS) if axis == "event" else None)
    t = C.to_dataframe([c, c])
    got = C.clean(t)
    h.check(len(got) == 2 and list(got.columns) == list(t.columns), "the lines and columns of the table")
    for i in range(2):
        h.check(raw_line(h, got.iloc[i], c.to_raw_record()), "the raw line of the command")


PICK = {
    "index": [0, 3, 10 ** 6], "score": [-2500, 0, 25000], "int": [1, 4], "float": [0.0, -53.5, 1500.25], "str": TEXTS, "bool": [True, False], "tiles": [[], ["0m", "7z"], ["1m", "1m", "9s"]],
    "melds": [[], [["1m", "2m", "3m"]], [["1z"] * 4, ["7z"] * 3]], "list": [[], [True, False], ["a,b"]],
}


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="verif.c49.")
        return os.path.join(self.dir, "table.csv")

    def __exit__(self, *a):
        shutil.rmtree(self.dir)


def commands(h, kinds):
    """the first command varies in its property or in its value"""
    r = []
    vary = h.choice("vary", ["property", "value"])
    for i, k in enumerate(kinds):
        prop = TYPES[k][-1]
        few = PICK[k][:3] if i < 2 else PICK[k][1:2]
        if i == 0 and vary == "property":
            prop = h.choice("prop", TYPES[k])
        if i == 0 and vary == "value":
            few = PICK[k]
        who = h.choice("who%d" % i, [0, 1, 2, 3] if vary == "property" else [1]) if prop.startswith("player.") and i == 0 else 1 if prop.startswith("player.") else "all"
        v = copy(h.choice("v%d" % i, few) if len(few) > 1 else few[0])
        r.append(make(h, prop, v, who=who, ts=i, event="draw" if i == 1 else None))
    return r


def command_file(h, kinds):
    C = h.mod("mahjong.record.universe.command").GameCommand
    cs = commands(h, kinds)
    with_state = h.branch(h.bool("state"))
    for c in cs:
        c.state = copy(c.value) if with_state else None
    with Scratch() as path:
        C.to_dataframe(cs).to_csv(path)
        got = C.read_clean_csv(path)
    h.check(len(got) == len(cs), "one line per command")
    for i, c in enumerate(cs):
        row = got.iloc[i]
        h.check(raw_line(h, row, c.to_raw_record()), "the raw line of the command")
    for t, c in zip(got.itertuples(), cs):
        a, b = C.from_raw_record(t).to_raw_record(), c.to_raw_record()
        h.check(a.property is b.property and a.update_method is b.update_method and a.event is b.event and a.sub_scope_id == b.sub_scope_id and a.value == b.value and a.state == b.state and a.timestamp == b.timestamp, "the command read back")
        h.check(type(a.value) is type(b.value) or not isinstance(b.value, (str, bool)), "a text is a text, a flag a flag")


def state_file(h, kinds):
    E = h.mod("mahjong.record.universe.executor").GameExecutor
    F = h.mod("mahjong.record.universe.format")
    cs = commands(h, kinds)
    table = E().execute_as_dataframe(cs)
    with Scratch() as path:
        table.to_csv(path)
        got = E.read_clean_csv(path)
    cols = [c for c in got.columns if not str(c[0]).startswith("Unnamed")]
    now, rows = {}, []
    for c in cs:
        r = c.to_raw_record()
        where = list(F.PlayerId)[r.sub_scope_id] if r.scope is F.ViewScope.player else "single"
        now[("global", "time", "timestamp")] = r.timestamp
        now[(r.scope, where, r.property)] = r.value
        rows.append(dict(now))
    h.check(len(cols) == len(now) and set(cols) == set(now), "the columns by kind, player and property")
    h.check(len(got) == len(cs), "one line per command")
    for i, want in enumerate(rows):
        for col in cols:
            cell = got[col].iloc[i]
            if hasattr(cell, "item"):
                cell = cell.item()
            w = want.get(col)
            h.check(gone(cell) if w is None else (cell == w and isinstance(cell, str) == isinstance(w, str)), "the value of the state")


def names(h):
    """only the names of kinds, players and properties are replaced"""
    X = h.mod("mahjong.record.universe.executor")
    F = h.mod("mahjong.record.universe.format")
    typ = h.choice("type", ["ViewScope", "PlayerId", "RecordView", "GameView", "PlayerView", "Update", "EventType"])
    members = getattr(F, typ).__members__
    m = h.choice("member", [k for k in members if not k.startswith("type__")])
    h.check(X.replace_enum_values(typ + "." + m) is members[m], "the member")
    h.check(X.replace_enum_values(str(members[m])) is members[m], "the member as it is printed")
    for s in (m, typ, "a.b.c", "single", "", typ + "." + m + ".x"):
        h.check(X.replace_enum_values(s) == s, "other text stays")
    for s in (3, 1.5, None, members[m]):
        h.check(X.replace_enum_values(s) is s, "other values stay")


def cases(tier):
    kinds = list(TYPES)
    r = [Case("line." + k, line, k) for k in kinds] + [Case("every", every), Case("names", names)]
    r += [Case("commands." + k, command_file, [k]) for k in kinds] + [Case("commands.%s.%s" % (k, m), command_file, [k, m]) for k, m in zip(kinds, kinds[1:] + kinds[:1])]
    r += [Case("commands.str.str.bool", command_file, ["str", "bool", "tiles"])]
    r += [Case("states." + k, state_file, [k, m]) for k, m in zip(kinds, kinds[4:] + kinds[:4])]
    r += [Case("states.%s.first" % k, state_file, [m, "tiles", "bool", k]) for k, m in (("str", "int"), ("score", "int"), ("bool", "int"))]
    if tier == "thorough":
        r += [Case("states.%s.long" % k, state_file, [k, "score", "bool", "tiles", "str"]) for k in kinds] + [Case("commands.%s.long" % k, command_file, [k, "str", "bool"]) for k in kinds]
    return r
