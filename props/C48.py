"""Tables of commands, states and event attributes."""
import io
import json
import os
import sys
import tempfile
import shutil
import contextlib
import xml.etree.ElementTree as ET

from symx import core
from symx.harness import Case
from .C29 import KIND
from .C41 import KINDS, make
from .common import prewarm
from .events import Ev

FUNCTIONS = ["parse_dataframe_from_tenhou_record", "GameCommand.to_dataframe", "to_record", "to_raw_record", "GameExecutor.execute_as_dataframe", "GameExecutor.execute/execute_update_state/state_value", "TransferDict.set/flatten/flatten_iter",
             "light_dataframe_from_file", "_event_df_iter", "command_to_raw_dataframe", "universe_paifu_convert.main", "to_commands", "to_command_records"]
BOUNDS = ["records of 3 and 4 players with one event of every one of 12 kinds (symbolic seats and tiles), also after another table was made; the text and the raw form, with and without states",
          "attribute tables of 0..3 (quick) / 4 (thorough) elements, each with a tag of letters, of letters and a number, or mixed, 0..2 attributes with symbolic values, plain and abstract; file names with folders and several dots"]
ASSUMES = ["pandas keeps the rows it is given (a stand-in takes them); xml.etree reads the file"]
OUTSIDE = ["the CSV files pandas writes and reads"]
warm = prewarm


class Frame:
    """stands for pandas.DataFrame: keeps the rows"""

    def __init__(self, rows=(), columns=None, **k):
        rows = list(rows)
        self.__dict__.update(rows=rows, extra={}, saved=[])
        if columns is not None:
            self.__dict__["columns"] = columns

    @classmethod
    def from_records(cls, rows, columns=None, **k):
        return cls(rows, columns)

    def __getattr__(self, name):
        if name != "columns":
            raise AttributeError(name)
        r = []
        for x in self.rows:
            for k in (x._fields if hasattr(x, "_fields") else x):
                if k not in r:
                    r.append(k)
        return r

    def __setitem__(self, k, v):
        self.extra[k] = v

    def assign(self, **k):
        self.extra.update(k)
        return self

    def to_csv(self, path, *a, **k):
        self.saved.append(path)


@contextlib.contextmanager
def frames(h):
    """every DataFrame is a Frame"""
    h.mod("mahjong.record.util_functions")
    h.mod("mahjong.universe_paifu_convert")
    pd = h.mod("pandas")
    real = pd.DataFrame
    made = []

    class F(Frame):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            made.append(self)

    changed = []
    for m in [pd] + [m for n, m in list(sys.modules.items()) if n.startswith("mahjong") and m is not None]:
        for k, v in list(vars(m).items()):
            if v is real:
                changed.append((m, k))
                setattr(m, k, F)
    try:
        yield made
    finally:
        for m, k in changed:
            setattr(m, k, real)


def fields(row):
    return dict(row._asdict()) if hasattr(row, "_asdict") else dict(row)


def text(h, kind, v):
    v = h.value(v)
    if kind == "str":
        return None if v is None else str(v)
    return json.dumps(v)


def record(h, n, kinds):
    r = make(h, n, kinds)
    return None if r is None else r[0]


def tables(h, n, kind, raw, before):
    made = record(h, n, [kind])
    if made is None:
        return
    uf = h.mod("mahjong.record.util_functions")
    with frames(h):
        if before:
            uf.parse_dataframe_from_tenhou_record(record(h, n, []))
        got = uf.parse_dataframe_from_tenhou_record(made, for_serialize=not raw)
        alone = uf.parse_dataframe_from_tenhou_record(made, return_state=False, for_serialize=not raw)
    cmds = h.mod("mahjong.record.universe.tenhou").to_commands(made)
    h.check(isinstance(got, tuple) and len(got) == 2 and isinstance(alone, Frame), "one or two tables")
    for t in (got[0], alone):
        h.check(len(t.rows) == len(cmds), "one line per command")
        for row, c in zip(t.rows, cmds):
            f, r = fields(row), c.to_raw_record()
            kind = KIND[r.scope.name + "." + r.property.name]
            if raw:
                want = dict(timestamp=r.timestamp, event=r.event, scope=r.scope, sub_scope_id=r.sub_scope_id, property=r.property, update_method=r.update_method, value=h.value(r.value), state=h.value(r.state))
            else:
                want = dict(timestamp=r.timestamp, event=r.event.name if r.event is not None else None, scope=r.scope.name, sub_scope_id=r.sub_scope_id, property=r.property.name, update_method=r.update_method.name,
                            value=text(h, kind, r.value), state=text(h, kind, r.state))
            h.check(h.value(f) == want, "the line of the command")
    states(h, got[1], cmds, made)


def states(h, table, cmds, rec):
    h.check(len(table.rows) == len(cmds), "one state per command")
    cols = [tuple(c) for c in table.columns]
    h.check(sorted(map(str, cols)) == sorted(set(map(str, cols))), "every column once")
    now = {}
    names = lambda key: tuple(getattr(k, "name", k) for k in key)
    for row, c in zip(table.rows, cmds):
        r = c.to_raw_record()
        where = ("first", "second", "third", "forth")[r.sub_scope_id] if r.scope.name == "player" else "single"
        now[(r.scope.name, where, r.property.name)] = text(h, KIND[r.scope.name + "." + r.property.name], r.state)
        now[("global", "time", "timestamp")] = json.dumps(r.timestamp)
        got = {names(k): v for k, v in h.value(dict(row)).items()}
        h.check(set(got) == set(now), "the state holds everything set so far")
        for k, v in now.items():
            h.check(got[k] == v, "the state after the command")





class Tree:
    def __init__(self, elements):
        self.root = elements

    def iter(self, tag=None):
        yield self.root
        yield from self.root

    def getroot(self):
        return self.root


class Root(list):
    tag = "mjloggm"
    attrib = {"ver": "2.3"}


def light(h, count, abstract, path):
    els = Root()
    want = []
    for i in range(count):
        if i == 0:
            letters, digits = h.choice("tag", ["GO", "INIT", "T", "mjloggm", "N1a", "1T"]), ""
            if letters in ("T", "INIT") and h.branch(h.bool("numbered")):
                digits = str(h.int("number", 0, 135))
        else:
            letters, digits = (("U", str(h.int("n%d" % i, 0, 135))), ("REACH", ""))[h.value(h.int("k%d" % i, 0, 1))]
        attrs = {}
        for k in h.choice("attrs%d" % i, ["", "a", "b", "ab", "ba"] if i == 0 else ["", "ab"]):
            attrs[k] = h.text("v%d.%s" % (i, k), 1, chars="x1")
        els.append(Ev(letters + digits, attrs))
        lines = []
        if digits != "":
            lines.append(("<tag_extra>", digits))
        lines.append(("<tag>", letters))
        lines += list(attrs.items())
        if digits == "" or abstract is False:
            want += [(i, letters, k, v) for k, v in lines]
    uf = h.mod("mahjong.record.util_functions")
    real = ET.parse
    asked = []

    def parse(p, *a, **k):
        asked.append(p)
        return Tree(els)

    ET.parse = parse
    try:
        with frames(h):
            t = uf.light_dataframe_from_file(path) if abstract is None else uf.light_dataframe_from_file(path, abstract=abstract)
    finally:
        ET.parse = real
    h.check(asked == [path], "the file asked for")
    h.check(list(t.extra) == ["log_id"] and t.extra["log_id"] == os.path.splitext(path.split("/")[-1])[0], "the log id is the name of the file")
    got = [fields(r) for r in t.rows]
    h.check(len(got) == len(want), "one line per attribute")
    conds = []
    for g, w in zip(got, want):
        h.check(sorted(g) == ["attr", "index", "tag", "value"] and g["index"] == w[0], "the columns and the position of the element")
        conds += [g["tag"] == w[1], g["attr"] == w[2], g["value"] == w[3]]
    h.check(h.all_(conds), "tag, attribute and value")


def abstract_default(h, count):
    """the abstract form is the one made when nothing is asked for"""
    light(h, count, None, "a.xml")


def convert(h, n, kind):
    """the command line tool"""
    made = record(h, n, [kind])
    if made is None:
        return
    cv = h.mod("mahjong.universe_paifu_convert")
    rd = h.mod("mahjong.record.reader")
    log = "2019010100gm-0009-0000-" + h.value(h.text("id", 2, chars="a0-"))
    asked, ran = [], []
    url = "http://tenhou.net/0/?log=" + log + "&tw=2"

    def from_url(u, timeout=3):
        asked.append(u)
        return made

    blank = lambda name: h.value(h.text(name, 1, chars=" x")).replace("x", "")
    saved = (cv.from_url, os.system)
    import builtins
    ask = builtins.input
    builtins.input = lambda prompt="": blank("before") + url + blank("after")
    cv.from_url, os.system = from_url, ran.append
    try:
        with frames(h) as made_frames, contextlib.redirect_stdout(io.StringIO()):
            cv.main()
    finally:
        builtins.input = ask
        cv.from_url, os.system = saved
    h.check(asked == [url], "the record asked for")
    written = [f for f in made_frames if f.saved]
    h.check(len(written) == 1 and written[0].saved == [log + "_command.csv"], "one file, named after the log")
    cmds = h.mod("mahjong.record.universe.tenhou").to_commands(made)
    h.check([h.value(fields(r)) for r in written[0].rows] == [h.value(dict(c.to_record()._asdict())) for c in cmds], "one line per command")


def cases(tier):
    r = []
    for n in (4, 3):
        for k in KINDS:
            if k == "unknown tag like draw" or (k == "north" and n == 4) or (k == "chi" and n == 3):
                continue
            r.append(Case("tables.%d.%s" % (n, k), tables, n, k, False, False))
            if n == 4 or k == "north":
                r.append(Case("raw.%d.%s" % (n, k), tables, n, k, True, k in ("draw", "reach")))
        r.append(Case("convert.%d" % n, convert, n, "dora"))
    for c in range(4 if tier == "quick" else 5):
        for a, p in ((True, "logs/2019.mjlog"), (False, "/a/b.c/2019-x.y.xml")):
            r.append(Case("light.%d.%s" % (c, "abstract" if a else "full"), light, c, a, p))
    r.append(Case("light.default", abstract_default, 2))
    return r
