"""The report page shows precisely the analyses."""
import base64
import os
from html.parser import HTMLParser
from types import SimpleNamespace

from symx.harness import Case
from .C42 import KANS, Stub, begin, head
from .common import prewarm
from .events import Ev

FUNCTIONS = ["record_checker_template.html (the Python code jinja2 makes of it, with its two macros)", "template_env", "load_raw", "the b64encode filter", "render_template", "TenhouPlayer.__str__", "TenhouRecord.__str__", "TenhouGame.__str__"]
BOUNDS = ["pages of 0..2 games with 0..2 analyses each; in one analysis 0..2 melds of 1..4 tiles, 1..2 expected discards, merged, standard and seven-pair listings of 0..2 entries (or no seven-pair listing), 0..2 useful tiles",
          "every shown tile, step, number and rate is a symbolic value (an arbitrary tile out of 37, steps and numbers 0..999, rates in thousandths), also equal ones", "names and addresses of up to three characters out of a set with all characters HTML treats specially"]
ASSUMES = ["a value is shown through its text; the page is read with html.parser of the standard library"]
OUTSIDE = ["colours, sizes and layout of the page", "the pixels of the pictures"]
warm = prewarm

SPECIAL = "<>&\"'a{% "
TILES = [str(n) + s for s in "mps" for n in range(10)] + ["%dz" % n for n in range(1, 8)]


class Leaf:
    """a symbolic value whose text is a token, so that the page tells which value stands where"""
    made = {}

    def __init__(self, h, v):
        self.h, self.v = h, v
        self.token = "Q%dQ" % len(Leaf.made)
        Leaf.made[self.token] = v

    def __str__(self):
        return self.token

    __repr__ = __str__
    __hash__ = object.__hash__

    def plain(self):
        return self.h.value(self.v)

    def __format__(self, spec):
        return format(self.plain(), spec) if spec else self.token

    def __int__(self):
        return int(self.plain())

    __index__ = __int__

    def __float__(self):
        return float(self.plain())

    def __bool__(self):
        return bool(self.h.branch(self.v if isinstance(self.v, bool) or not hasattr(self.v, "__add__") else self.v != 0))


def op(name):
    def f(self, other):
        o = other.v if isinstance(other, Leaf) else other
        if not isinstance(o, (int, float)) and not hasattr(o, "__add__"):
            return NotImplemented
        r = getattr(self.v, name)(o)
        return r if r is NotImplemented else Leaf(self.h, r)
    return f


def cmp(name):
    def f(self, other):
        o = other.v if isinstance(other, Leaf) else other
        if isinstance(o, str) or o is None:
            return NotImplemented
        r = getattr(self.v, name)(o)
        return r if r is NotImplemented else bool(self.h.branch(r))
    return f


for n in ("add", "sub", "mul", "radd", "rsub", "rmul", "floordiv", "mod"):
    setattr(Leaf, "__%s__" % n, op("__%s__" % n))
for n in ("eq", "ne", "lt", "le", "gt", "ge"):
    setattr(Leaf, "__%s__" % n, cmp("__%s__" % n))
Leaf.__hash__ = object.__hash__


class Node:
    def __init__(self, tag, attrs):
        self.tag, self.attrs, self.kids = tag, dict(attrs), []

    def all(self, want):
        for k in self.kids:
            if isinstance(k, Node):
                if want(k):
                    yield k
                yield from k.all(want)

    def has(self, cls):
        return cls in (self.attrs.get("class") or "").split()

    def text(self):
        return "".join([k if isinstance(k, str) else k.text() for k in self.kids])

    def child(self, tag):
        return [k for k in self.kids if isinstance(k, Node) and k.tag == tag]


class Page(HTMLParser):
    VOID = ("meta", "br", "hr", "img", "link", "input")

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.root = Node("page", [])
        self.open = [self.root]
        self.tags = []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        n = Node(tag, attrs)
        self.tags.append((tag, sorted(dict(attrs))))
        self.open[-1].kids.append(n)
        if tag not in self.VOID:
            self.open.append(n)

    def handle_endtag(self, tag):
        for i in range(len(self.open) - 1, 0, -1):
            if self.open[i].tag == tag:
                del self.open[i:]
                return

    def handle_data(self, data):
        self.open[-1].kids.append(data)


def pics(node):
    """the tiles shown within"""
    r = []
    for x in node.all(lambda x: x.tag == "div"):
        for c in (x.attrs.get("class") or "").split():
            if c.startswith("pic"):
                r.append(c[3:])
    return r


def shown(h, label, got, want):
    """got: texts of the page, want: Leafs or texts"""
    h.check(len(got) == len(want), label + ": as many as there are")
    conds = []
    for g, w in zip(got, want):
        if isinstance(w, Leaf):
            if g == w.token:
                continue
            h.check(g in Leaf.made, label + ": only values of the analysis")
            conds.append(Leaf.made[g] == w.v)
        else:
            h.check(g == w, label)
    h.check(h.all_(conds), label)


def numbers(text, *words):
    """the values that follow the words"""
    parts = text.split()
    r = []
    for i, w in enumerate(parts):
        if w in words and i + 1 < len(parts):
            r.append(parts[i + 1])
    return r


def item(h, name, useful):
    t = lambda k: Leaf(h, h.int("%s.%s" % (name, k), 0, 36))
    return SimpleNamespace(discard_tile=[t("out")], waiting_step=Leaf(h, h.int(name + ".step", 0, 999)), useful_tiles=[t("u%d" % i) for i in range(useful)],
                           useful_tiles_count=Leaf(h, h.int(name + ".count", 0, 999)))


def a_round(h, name, melds, expected, merged, normal, pairs):
    t = lambda k: Leaf(h, h.int("%s.%s" % (name, k), 0, 36))
    r = SimpleNamespace(hand=[t("h%d" % i) for i in range(3)], melds=[[t("m%d.%d" % (i, j)) for j in range(m)] for i, m in enumerate(melds)],
                        your_choice_reasoning=item(h, name + ".own", 1), expected_reasonings=[item(h, "%s.e%d" % (name, i), 1) for i in range(expected)],
                        merged_reasoning=[item(h, "%s.g%d" % (name, i), 2 - i) for i in range(merged)], wrong_rate=Leaf(h, h.int(name + ".rate", 0, 1000)),
                        somebody_richii=h.branch(h.bool(name + ".riichi")), normal_reasonings=[item(h, "%s.n%d" % (name, i), i) for i in range(normal)])
    if pairs is not None:
        r.seven_pair_reasonings = [item(h, "%s.p%d" % (name, i), 1 + i) for i in range(pairs)]
    return r


def a_record(h, names=("p0", "p1", "p2", "p3"), games=1):
    ev = head(4)
    for p, nm in enumerate(names):
        ev[1].attrib["n%d" % p] = nm
    for g in range(games):
        ev += [begin(4, 0, [0, 4], g), Ev("RYUUKYOKU", {"ba": "0,0", "sc": "250,0,250,0,250,0,250,0"})]
    ev[-1].attrib["owari"] = "250,10.0,250,-10.0,250,0,250,0"
    return h.mod("mahjong.record.reader").TenhouRecord(ev)


URL = "http://tenhou.net/0/?log=2019010100gm-0009-0000-12345678&tw=1"


def page(h, record, games, url=URL, name=None):
    """the page of the real template, given what render_template gives it"""
    tr = h.mod("mahjong.tenhou_record_check")
    stub = Stub()
    tr.render_template(record.players[0], record, stub, log_url=url, generate_filename=False) if "log=" in url else \
        tr.render_template(record.players[0], record, stub, log_id=url, generate_filename=False)
    given = dict(stub.given)
    if games is not None:
        given["games"] = games
    return tr.template_env("mahjong").get_template("record_checker_template.html").render(**given), given


def listing(h, label, blocks, items):
    h.check(len(blocks) == len(items), label + ": one entry per analysed discard")
    for b, it in zip(blocks, items):
        lines = b.child("div")
        h.check(len(lines) == 2, label + ": the discard and the useful tiles")
        shown(h, label + " discard", pics(lines[0]), it.discard_tile)
        shown(h, label + " step", numbers(b.text(), "Steps"), [it.waiting_step])
        shown(h, label + " number", numbers(b.text(), "Tiles"), [it.useful_tiles_count])
        shown(h, label + " useful tiles", pics(lines[1]), it.useful_tiles)


def rows(h, page_, games):
    boxes = [x for x in page_.root.all(lambda x: x.tag == "details") if any(True for _ in x.all(lambda y: y.has("game-caption")))]
    h.check(len(boxes) == len(games), "one part per game")
    for box, g in zip(boxes, games):
        caption = [x.text() for x in box.all(lambda y: y.has("game-caption"))]
        h.check(caption == [g.name], "the name of the game")
        lines = [x for t in box.child("table") for x in t.child("tr") if x.child("td")]
        h.check(len(lines) == len(g.rounds), "one line per analysis")
        for i, (line, r) in enumerate(zip(lines, g.rounds)):
            one_line(h, line, r, i)


def one_line(h, line, r, i):
    style = (line.attrs.get("style") or "").replace(" ", "")
    h.check(style.startswith("background-color:rgba("), "the colour of the line")
    colour = style[len("background-color:rgba("):].rstrip(";").rstrip(")").split(",")
    h.check(colour[:3] == (["0", "0", "255"] if r.somebody_richii else ["255", "0", "0"]), "red before and blue after a riichi")
    shown(h, "the strength of the colour", colour[3:], [r.wrong_rate])
    cells = line.child("td")
    h.check(len(cells) == 5, "five columns")
    h.check(cells[0].text().strip() == str(i + 1), "the number of the turn")
    shown(h, "melds and hand", pics(cells[1]), [t for m in r.melds for t in m] + r.hand)
    shown(h, "the actual discard", pics(cells[2]), r.your_choice_reasoning.discard_tile)
    shown(h, "the expected discards", pics(cells[3]), [t for e in r.expected_reasonings for t in e.discard_tile])
    body = cells[4].child("details")[0]
    summary = body.child("summary")[0]
    short = {}
    for x in summary.all(lambda x: x.tag == "tr"):
        a, b = x.child("td")
        short[a.text().strip()] = b.text()
    for k, it in (("Expected", r.expected_reasonings[0]), ("Actual", r.your_choice_reasoning)):
        h.check(k in short, "%s step and number" % k)
        shown(h, k + " step", numbers(short[k], "Steps"), [it.waiting_step])
        shown(h, k + " number", numbers(short[k], "Tiles"), [it.useful_tiles_count])
    parts = body.child("details")
    block = lambda x: x.tag == "div" and x.has("reasoning-tile")
    inner = {id(y) for p in parts for y in p.all(block)}
    listing(h, "all discards", [x for x in body.all(block) if id(x) not in inner], r.merged_reasoning)
    of = {}
    for p in parts:
        of[p.child("summary")[0].text().strip()[:5].lower()] = list(p.all(block))
    listing(h, "standard form", of.get("norma", []), r.normal_reasonings)
    listing(h, "seven pairs", of.get("seven", []), getattr(r, "seven_pair_reasonings", []))


def lines(h, shape, melds):
    Leaf.made = {}
    games = [SimpleNamespace(name="game %d" % g, rounds=[a_round(h, "g%d.r%d" % (g, i), melds if i == 0 else (), *x) for i, x in enumerate(rounds)]) for g, rounds in enumerate(shape)]
    text, _ = page(h, a_record(h), games)
    rows(h, Page(text), games)


def words(h, where):
    """texts are shown as they are and never become part of the page's structure"""
    Leaf.made = {}
    plain, _ = page(h, a_record(h), [SimpleNamespace(name="game", rounds=[])])
    w = h.value(h.text("text", 2 if where == "name" else 3, chars=SPECIAL))
    r = a_record(h, names=("x" + w if where == "name" else "p0", "p1", "p2", "p3"))
    url = "http://tenhou.net/0/?log=2019010100gm-0009-0000-12345678" + "&tw=" + w if where == "address" else URL
    name = "g" + w if where == "game" else "game"
    text, given = page(h, r, [SimpleNamespace(name=name, rounds=[])], url=url)
    p = Page(text)
    h.check(p.tags == Page(plain).tags, "texts are texts")
    body = [" ".join(x.text().split()) for x in p.root.all(lambda x: x.tag == "p")]
    h.check("Player: " + " ".join(str(r.players[0]).split()) in body, "the player")
    h.check(any(t == " ".join(str(r).split()) + " Link" for t in body), "the record")
    h.check([x.attrs.get("href") for x in p.root.all(lambda x: x.tag == "a")] == [url], "the address")
    h.check([x.text() for x in p.root.all(lambda x: x.has("game-caption"))] == [name], "the name of the game")


def pictures(h):
    """every tile has a style with its own picture"""
    folder = os.path.join(os.path.dirname(h.mod("mahjong").__file__), "templates", "mjpic")
    text, _ = page(h, a_record(h), [])
    p = Page(text)
    css = "".join([x.text() for x in p.root.all(lambda x: x.tag == "style")])
    t = h.choice("tile", TILES)
    rules = [x for x in css.split("}") if x.split("{")[0].strip() == ".pic" + t]
    h.check(len(rules) == 1, "one style per tile")
    with open(os.path.join(folder, t + ".png"), "rb") as f:
        want = base64.b64encode(f.read()).decode()
    h.check("base64," + want + '"' in rules[0], "the picture of the tile")
    h.check("background-image" in rules[0] and "image/png" in rules[0], "a picture")


def whole(h):
    """from a record to the page"""
    Leaf.made = {}
    f = h.choice("first", [0, 17, 52])
    seat_draw = h.choice("draw", [100, 16])
    hand = [f]
    ev = head(4)
    for g in range(2):
        ev.append(begin(4, 0, hand + [4 * k + i for k in KANS for i in range(4)], g))
        ev += [Ev("N", {"who": "0", "m": str(1024 * k)}) for k in KANS]
        if g == 1 and h.branch(h.bool("riichi")):
            ev += [Ev("REACH", {"who": "2", "step": "1"}), Ev("F60"), Ev("REACH", {"who": "2", "step": "2", "ten": "250,250,240,250"})]
        ev += [Ev("T%d" % seat_draw), Ev("D%d" % h.choice("out%d" % g, [seat_draw, f])), Ev("RYUUKYOKU", {"ba": "0,0", "sc": "250,0,250,0,250,0,250,0"})]
    ev[-1].attrib["owari"] = "250,10.0,250,-10.0,250,0,250,0"
    r = h.mod("mahjong.record.reader").TenhouRecord(ev)
    text, given = page(h, r, None)
    games = given["games"]

    class Plain(Leaf):
        def __init__(self, v):
            self.v, self.token = v, str(v)

    p = lambda v: Plain(v)
    conv = lambda it: SimpleNamespace(discard_tile=it.discard_tile, waiting_step=str(it.waiting_step), useful_tiles=it.useful_tiles, useful_tiles_count=str(it.useful_tiles_count))
    out = []
    for g in games:
        rs = []
        for x in g.rounds:
            y = SimpleNamespace(hand=x.hand, melds=x.melds, your_choice_reasoning=conv(x.your_choice_reasoning), expected_reasonings=[conv(e) for e in x.expected_reasonings],
                                merged_reasoning=[conv(e) for e in x.merged_reasoning], wrong_rate=str(x.wrong_rate), somebody_richii=x.somebody_richii, normal_reasonings=[conv(e) for e in x.normal_reasonings])
            rs.append(y)
        out.append(SimpleNamespace(name=g.name, rounds=rs))
    rows(h, Page(text), out)


SHAPES = [
    ("none", [], ()),
    ("empty", [[]], ()),
    ("one", [[(1, 1, 1, 1)]], ()),
    ("many", [[(2, 2, 2, 2)]], (3,)),
    ("no pairs", [[(2, 1, 2, None)]], (4, 1)),
    ("bare", [[(1, 0, 0, 0)]], (3, 3)),
    ("two", [[(1, 1, 0, 1), (2, 0, 1, None)], [(1, 2, 1, 0)]], (2,)),
    ("gap", [[], [(1, 1, 1, 1), (1, 1, 1, 1)]], (4,)),
]


def cases(tier):
    r = [Case("lines." + n, lines, s, m) for n, s, m in SHAPES]
    r += [Case("texts." + w, words, w) for w in ("name", "address", "game")]
    r += [Case("pictures", pictures), Case("whole", whole)]
    return r
