"""Log ids and URLs."""
from symx.harness import Case

FUNCTIONS = ["log_id_to_url", "log_id_from_url", "download_url", "urllib.parse.urlparse/parse_qs (executed symbolically from their sources)"]
BOUNDS = ["every log id of length 1..8 (quick) / 1..14 (thorough) over 0-9 A-Z a-z - _ . ~, and the usual shape with all digits symbolic",
          "viewer URLs with symbolic further parameters (names and values of 1..2 characters) before, after, or both, http and https, tenhou.net and mobile addresses"]
ASSUMES = ["log ids consist of unreserved URL characters"]
OUTSIDE = ["ids with reserved URL characters, which no viewer URL carries unescaped"]

ID = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz-_.~"
RAW = "http://e.mjv.jp/0/log/?"


def checks(h, r, i, url):
    h.check(r.log_id_from_url(url) == i, "the id is read back from the viewer URL")
    h.check(r.download_url(url) == RAW + i, "the download URL is the raw log of that id")


def plain(h, n):
    r = h.mod("mahjong.record.reader")
    i = h.text("id", n, ID)
    url = r.log_id_to_url(i)
    h.check(url == "http://tenhou.net/0/?log=" + i, "viewer URL of the id")
    checks(h, r, i, url)
    h.obs([url, r.download_url(url)])


def shaped(h):
    """2018102720gm-0089-0000-29a7e9f9 with every digit symbolic"""
    r = h.mod("mahjong.record.reader")
    d, x = "0123456789", "0123456789abcdef"
    i = h.text("date", 10, d) + "gm-" + h.text("rule", 4, x) + "-" + h.text("lobby", 4, d) + "-" + h.text("hash", 8, x)
    checks(h, r, i, r.log_id_to_url(i))
    checks(h, r, i, r.log_id_to_url(i) + "&tw=" + h.text("tw", 1, "0123"))


def params(h, n, where):
    r = h.mod("mahjong.record.reader")
    i = h.text("id", n, ID)
    base = h.choice("base", ["http://tenhou.net/0/?", "https://tenhou.net/0/?", "http://tenhou.net/3/?", "https://tenhou.net/mjscore/?x=1&"])

    def param(name):
        k = h.text(name + ".key", h.value(h.int(name + ".len", 1, 2)), "gtw")
        return k + "=" + h.text(name + ".value", 1, ID)
    q = "log=" + i
    if where in ("before", "both"):
        q = param("p") + "&" + q
    if where in ("after", "both"):
        q = q + "&" + param("q")
    if where == "anchor":
        q = q + "#" + h.text("frag", 2, ID)
    checks(h, r, i, base + q)


def two(h):
    """different ids never share a URL"""
    r = h.mod("mahjong.record.reader")
    a, b = h.text("a", 4, ID), h.text("b", 4, ID)
    h.check((r.log_id_to_url(a) == r.log_id_to_url(b)) == (a == b), "viewer URLs are distinct")
    h.check((r.download_url(r.log_id_to_url(a)) == r.download_url(r.log_id_to_url(b))) == (a == b), "download URLs are distinct")


def cases(tier):
    r = [Case("len%d" % n, plain, n) for n in range(1, (15 if tier == "thorough" else 9))]
    r += [Case("shaped", shaped), Case("two", two)]
    for w in ("before", "after", "both", "anchor"):
        r.append(Case("p." + w, params, 2 if tier == "quick" else 4, w))
    return r
