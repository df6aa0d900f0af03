"""Files written by the report tool."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

from symx.harness import Case
from .C42 import Stub
from .common import prewarm
from .events import Ev

FUNCTIONS = ["tenhou_record_check.main", "render_template", "template_env", "load_raw", "TenhouChecker.__init__/parse", "TenhouPlayer.__init__", "log_id_from_url", "log_id_to_url"]
BOUNDS = ["player names of two (quick) / three (thorough) characters out of a letter, slash, backslash, dot, colon, star, question mark, quote, angle bracket, bar, blank, newline and a Chinese character; log ids with one such character; every seat of 3- and 4-player records",
          "every typed selection: empty, a digit 0..9, two digits, a letter, a superscript or circled digit, with players of equal or different names"]
ASSUMES = ["numbers are typed with the digits 0-9; other digits (superscript, circled) are other input"]
OUTSIDE = ["the wording of the prompts and of the HTML"]
warm = prewarm

ODD = "a/\\.:*?\"<>| \n東"
BAD = set("/\\:*?\"<>|\n\r\t\0")


def log(n, names):
    un = {"n%d" % p: names[p] if p < n else "" for p in range(4)}
    a = {"seed": "0,0,0,1,2,96", "ten": "250,250,250,250", "oya": "0"}
    for p in range(4):
        a["hai%d" % p] = "%d,%d" % (p, 40 + p) if p < n else ""
    return [Ev("GO", {"type": "9" if n == 4 else "25"}), Ev("UN", dict(un, dan="1,2,3,4", rate="1500.25,1,2,3", sx="M,M,F,M")), Ev("TAIKYOKU", {"oya": "0"}), Ev("INIT", a),
            Ev("RYUUKYOKU", {"type": "yao9", "owari": "250,10.0,250,-10.0,250,0,250,0"})]


def record(h, n, names):
    return h.mod("mahjong.record.reader").TenhouRecord(log(n, names))


def plain_name(f):
    return isinstance(f, str) and 0 < len(f) < 200 and not (set(f) & BAD) and f not in (".", "..") and f == f.strip(" ")


def name(h, n, size, where):
    """the file name of a report"""
    tr = h.mod("mahjong.tenhou_record_check")
    seat = h.choice("seat", range(n))
    text = "".join(h.choice("c%d" % i, ODD) for i in range(size)) if where == "name" else "xy"
    lid = "2019010100gm-0009-0000-1234567" + (h.choice("id", ODD) if where == "id" else "8")
    names = ["A", "B", "C", "D"]
    names[seat] = text.replace("%", "%25")
    r = record(h, n, names)
    f, got = tr.render_template(r.players[seat], r, Stub(), log_id=lid)
    f = h.value(f)
    h.check(got == "text", "the rendered report")
    h.check(plain_name(f), "a plain name of a file in the current folder")
    h.check(f.endswith(".html"), "an HTML file")
    keep = "".join(c for c in text if c not in BAD and c not in " .")
    h.check(all(c in f for c in keep) and "2019010100gm-0009-0000-1234567" in f, "the name shows the player and the log")
    others = [tr.render_template(p, r, Stub(), log_id=lid)[0] for p in r.players if p is not r.players[seat]]
    h.check(f not in others and len(set(others)) == n - 1, "every player has a file of its own")
    h.check(tr.render_template(r.players[seat], r, Stub(), log_id=lid, generate_filename=False) == "text", "only the report when no name is asked for")
    try:
        tr.render_template(r.players[seat], r, Stub())
        h.check(False, "a name needs the log")
    except ValueError:
        pass
    u = "http://tenhou.net/0/?log=2019010100gm-0009-0000-12345678&tw=2"
    s = Stub()
    g, _ = tr.render_template(r.players[seat], r, s, log_url=u)
    if where == "name":
        h.check(g == f, "the same name by address or by id")
    h.check(s.given["log_url"] == u, "the report links to its log")
    s = Stub()
    tr.render_template(r.players[seat], r, s, log_id="2019010100gm-0009-0000-12345678")
    h.check(s.given["log_url"] == "http://tenhou.net/0/?log=2019010100gm-0009-0000-12345678", "the report links to its log also by id")
    h.obs([f])


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    top = tempfile.mkdtemp(prefix="verif.c46.")
    deep = os.path.join(top, "a", "b", "c", "d")
    os.makedirs(deep)
    keep = sys.stdin, sys.stdout, sys.stderr
    os.chdir(deep)
    try:
        yield top, deep
    finally:
        sys.stdin, sys.stdout, sys.stderr = keep
        os.chdir(old)
        shutil.rmtree(top)


def files(top):
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs)


URL = "http://tenhou.net/0/?log=2019010100gm-0009-0000-12345678&tw=2"


def tool(h, n, kind):
    """main() with a typed selection"""
    tr = h.mod("mahjong.tenhou_record_check")
    typed = "" if kind == "empty" else "".join(h.choice("d%d" % i, "0123456789") for i in range(len(kind))) if set(kind) == {"d"} else h.choice("letter", ["x", "1x", "-1", " 1", "all", "1.0", "\u00b2", "\u2460", "1\u00b2"])
    same = h.branch(h.bool("same name"))
    r = record(h, n, ["P/1", "P/1" if same else "q\"2", "P/1" if same else "r", "s"])
    asked = []

    def read(url, *a, **k):
        asked.append(url)
        return r
    keep = tr.from_url
    import loguru
    tr.from_url = read
    try:
        with scratch() as (top, deep):
            sys.stdin, sys.stdout, sys.stderr = io.StringIO(" %s \n%s\n" % (URL, typed)), io.StringIO(), io.StringIO()
            try:
                tr.main()
            finally:
                loguru.logger.remove()
            got = {f: open(f, encoding="utf-8").read() for f in files(top)}
    finally:
        tr.from_url = keep
    want = range(n)
    if typed.isdecimal() and 1 <= int(typed) <= n:
        want = [int(typed) - 1]
    h.check(asked == [URL], "the typed log is read")
    h.check(all(os.path.dirname(f) == deep for f in got), "files only in the current folder")
    h.check(len(got) == len(want), "one file per selected player")
    tpl = tr.template_env("mahjong").get_template("record_checker_template.html")
    for p in want:
        f, text = tr.render_template(r.players[p], r, tpl, log_url=URL)
        h.check(got.get(os.path.join(deep, f)) == text, "the file holds the report of its player")
        h.check("Player: " + str(r.players[p]).replace("\"", "&#34;") in text and str(r.game_list[0]) in text, "the report names its player and the games")
    h.obs([sorted(len(x) for x in got.values())])


def checker(h, n):
    """TenhouChecker gives the same report"""
    C = h.mod("mahjong.record.checker")
    tr = h.mod("mahjong.tenhou_record_check")
    seat = h.choice("seat", range(n))
    named = h.branch(h.bool("named"))
    by = h.choice("by", ["address", "record", "other"])
    r = record(h, n, ["A", "B", "C", "D"])
    asked = []

    def read(url, *a, **k):
        asked.append(url)
        return r
    keep = C.from_url
    C.from_url = read
    try:
        c = C.TenhouChecker()
        if by == "other":
            for bad in (None, 3, [URL]):
                try:
                    c.parse(bad, seat)
                    h.check(False, "other values are refused")
                except TypeError:
                    pass
            return
        try:
            got = c.parse(URL if by == "address" else r, seat, generate_filename=named)
        except ValueError:
            h.check(by == "record" and named, "only a name without a log is refused")
            return
    finally:
        C.from_url = keep
    h.check(not (by == "record" and named), "a name without a log is refused")
    tpl = tr.template_env("mahjong").get_template("record_checker_template.html")
    want = tr.render_template(r.players[seat], r, tpl, log_url=URL if by == "address" else None, generate_filename=named)
    h.check(got == want, "the report of that player")
    h.check(asked == ([URL] if by == "address" else []), "reads precisely the given log")
    h.obs([len(got)])


def cases(tier):
    k = 3 if tier == "thorough" else 2
    r = [Case("name.%d" % n, name, n, k, "name") for n in (4, 3)] + [Case("id.%d" % n, name, n, 2, "id") for n in (4, 3)]
    r += [Case("tool.%d.%s" % (n, t), tool, n, t) for n in (4, 3) for t in ("empty", "d", "letter")] + [Case("tool.%d.dd" % n, tool, n, "dd", optional=True) for n in (4, 3)]
    r += [Case("checker.%d" % n, checker, n) for n in (4, 3)]
    return r
