"""What a parsed record says about rules, players, games and results."""
import sys

from symx.harness import Case
from .common import prewarm
from .events import Ev
from .world import RANKS

FUNCTIONS = ["TenhouRecord.__init__", "TenhouGame.__init__", "TenhouPlayer.__init__/level_str/__str__", "GameType", "number_list", "list_of_xml_configs", "xml_message_config_scan", "TenhouGame.game_index/sub_game_index/richii_counts/initial_dora",
             "TenhouEvent.__init__/__getattr__/meta_attribute", "from_url", "fetch_record_content", "download_url", "from_file"]
BOUNDS = ["records of 3 and 4 players with every game type of the mode, any rank 0..20, ratings -50.00..3000.00 in hundredths (also written without decimals) for one seat at a time, names percent-encoded or plain, and both sexes",
          "one to three games with symbolic round, sub-round, riichi deposits, first dora indicator and dealer", "final scores -1000..2000 and points in tenths -99.9..99.9", "later player events (a reconnection) in the header or in a game",
          "a download and a file with the same content"]
ASSUMES = ["the first player event lists all seats, as tenhou writes it"]
OUTSIDE = ["the network transfer itself (requests) and the XML parser"]
warm = prewarm

NAMES = [("A%20b", "A b"), ("%E6%9D%B1", "東"), ("%E9%9B%80%2541", "雀%41"), ("plain", "plain"), ("a+b", "a+b"), ("%2B%2b%e6%9d%b1", "++東"),
         ("100%", "100%"), ("n_0", "n_0"), ("%20x%0A", " x\n"), ("0", "0"), ("%F0%9F%80%80", "\U0001f000"), ("A%20b", "A b")]


def tenths(h, name, lo, hi):
    """-> text with one decimal, number of tenths"""
    from symx.core import is_proxy
    t = h.int(name, lo, hi)
    h.branch(t >= 0)
    a = h.ite(t >= 0, t, 0 - t)
    s = h.branch(t < 0)
    return ("-" if s else "") + str(a // 10) + "." + str(a % 10), t


def near(h, x, hundredths, scale):
    """the number is hundredths / scale (exactly as written)"""
    return x * scale == hundredths if isinstance(x, int) else abs(x * scale - hundredths) < 1e-6


def record(h, n, games, detail):
    R = h.mod("mahjong.record.reader")
    G = h.mod("mahjong.record.utils.value.gametype").GameType
    kind = h.int("kind", 0, 255) if detail == "kind" else 9
    kind = kind - (kind // 16 % 2) * 16 + (16 if n == 3 else 0)
    dan = [h.int("dan%d" % p, 0, 20) if detail == "rank%d" % p else p for p in range(n)] + [0] * (4 - n)
    rates, wanted = [], []
    for p in range(n):
        if detail == "rate%d" % p:
            v = h.int("rate", -50, 3000)
            if h.branch(h.bool("decimals")):
                f = h.choice("cents", ["00", "50", "07"])
                h.assume(v >= 0)
                rates.append(str(v) + "." + f)
                wanted.append((v, f))
            else:
                rates.append(str(v))
                wanted.append((v, None))
        else:
            rates.append("15%02d.25" % p)
            wanted.append((1500 + p, "25"))
    rates += ["1500.00"] * (4 - n)
    sexes = [h.choice("sex%d" % p, "MF") if detail == "rank%d" % p else "MFMF"[p] for p in range(n)] + ["C"] * (4 - n)
    which = h.value(h.int("names", 0, len(NAMES) - 1)) if detail[:4] == "rank" else 0
    names = [NAMES[(p + which) % len(NAMES)] for p in range(n)]
    un = {"n%d" % p: names[p][0] if p < n else "" for p in range(4)}
    ev = [Ev("mjloggm", {"ver": "2.3"}), Ev("GO", {"type": str(kind), "lobby": "0"}), Ev("UN", dict(un, dan=",".join(map(str, dan)), rate=",".join(rates), sx=",".join(sexes))), Ev("TAIKYOKU", {"oya": "0"})]
    if detail == "late":
        ev += [Ev("BYE", {"who": "1"}), Ev("UN", {"n1": "other"})]
    want = []
    for g in range(games):
        k = h.int("k%d" % g, 0, 7)
        sub, rich, dora, oya = h.int("sub%d" % g, 0, 30), h.int("rich%d" % g, 0, 8), h.int("dora%d" % g, 0, 135), h.int("oya%d" % g, 0, n - 1)
        chunk = [Ev("INIT", dict({"hai%d" % p: "%d,%d" % (p, 40 + p) if p < n else "" for p in range(4)}, seed="%s,%s,%s,2,3,%s" % (k, sub, rich, dora), ten="250,250,250,250", oya=str(oya)))]
        if detail == "late":
            chunk += [Ev("T12"), Ev("UN", {"n0": "someone"}), Ev("GO", {"type": "1"})]
        chunk.append(Ev("AGARI", {"who": "1", "fromWho": "0", "ten": "30,1000,0", "hai": "1,2,3", "machi": "1"}) if h.branch(h.bool("won%d" % g)) else Ev("RYUUKYOKU", {"type": "yao9"}))
        want.append((k, sub, rich, dora, oya))
        ev += chunk
    sc = [h.int("sc%d" % p, -1000, 2000) if detail == "end" else 250 + p for p in range(n)]
    pt = []
    for p in range(n):
        pt.append(tenths(h, "pt%d" % p, -999, 999) if detail == "end" and p < 2 else ("%d.5" % (p + 1), 10 * p + 15))
    ev[-1].attrib["owari"] = ",".join(["%s,%s" % (a, b[0]) for a, b in zip(sc, pt)] + ["0,0"] * (4 - n))
    r = R.TenhouRecord(ev)
    h.check(len(r.players) == n, "one player per seat of the mode")
    for p, x in enumerate(r.players):
        h.check(x.index == p, "players in seat order")
        h.check(x.name == names[p][1], "name of the player, decoded")
        h.check(x.level == dan[p], "rank number of the player")
        h.check(x.level_str() == RANKS[h.value(dan[p])], "rank of the player")
        v, f = wanted[p]
        h.check(x.rate == v if f is None else near(h, x.rate, v * 100 + int(f), 100), "rating of the player")
        h.check(x.sex == sexes[p], "sex of the player")
    x = r.players[0]
    if detail != "rate0":
        h.check(str(x) == names[0][1] + " " + RANKS[h.value(dan[0])] + " R1500.25", "description of a player")
    h.check(r.game_type == G(str(kind)) and r.game_type.player_count() == n, "rules of the record")
    h.check(len(r.game_list) == games, "number of games")
    for g, (k, sub, rich, dora, oya) in zip(r.game_list, want):
        a, b = g.game_index()
        h.check(h.and_(a * 4 + b == k, b >= 0, b <= 3, a >= 0), "wind and number of the game")
        h.check(h.and_(g.sub_game_index() == sub, g.richii_counts() == rich, g.initial_dora() == dora), "sub-round, deposits and first dora indicator")
        h.check(g.east_index == oya, "dealer of the game")
        h.check(g.players == r.players and g.game_type == r.game_type, "players and rules of the game")
    for p in range(n):
        h.check(r.end_score[p] == sc[p], "final score")
        h.check(near(h, r.end_point[p], pt[p][1], 10), "final points")
    h.check([e.timestamp for e in r.events] == list(range(len(ev))), "events numbered in order")
    h.check(all(e.meta_attribute is o.attrib and e.tag is o.tag for e, o in zip(r.events, ev)), "events show their tag and attributes")
    h.obs([len(r.players)])


TEXT = ('<mjloggm ver="2.3"><GO type="9" lobby="0"/><UN n0="a" n1="b" n2="%%63" n3="d" dan="1,2,3,4" rate="1500.25,1,2,3" sx="M,M,F,M"/><TAIKYOKU oya="0"/>'
        '<INIT seed="%s,1,0,2,3,77" ten="250,250,250,250" oya="0" hai0="1" hai1="2" hai2="3" hai3="4"/><T12/><D12/><RYUUKYOKU type="yao9" owari="250,1.0,250,2.0,250,3.0,%s,-6.0"/></mjloggm>')


class Answer:
    pass


def fetched(h):
    """a downloaded record and a file with the same text"""
    import io
    R = h.mod("mahjong.record.reader")
    text = TEXT % (h.value(h.int("k", 0, 3)), h.value(h.int("sc", 248, 252)))
    asked = []
    a = Answer()
    a.text = text
    a.content = text.encode()

    def get(url, **k):
        asked.append(url)
        return a
    keep = R.requests
    R.requests = Answer()
    R.requests.get = get
    try:
        r = R.from_url("http://tenhou.net/0/?log=2019010100gm-0009-0000-12345678&tw=1", 10)
    finally:
        R.requests = keep
    h.check(asked == ["http://e.mjv.jp/0/log/?2019010100gm-0009-0000-12345678"], "downloads precisely that log")
    f = R.from_file(io.StringIO(text))
    for x in (r, f):
        h.check([p.name for p in x.players] == ["a", "b", "c", "d"], "players of the text")
        h.check([e.tag for e in x.events] == ["GO", "UN", "TAIKYOKU", "INIT", "T12", "D12", "RYUUKYOKU"], "events of the text")
    h.check(str(r) == str(f) and [str(g) for g in r.game_list] == [str(g) for g in f.game_list], "the same record")
    h.obs([str(r)])


def cases(tier):
    r = []
    for n in (4, 3):
        r += [Case("%s.%d" % (d, n), record, n, 1, d) for d in ["kind", "end"] + ["rank%d" % p for p in range(n)] + ["rate%d" % p for p in range(n)]]
        r += [Case("late.%d" % n, record, n, 2, "late"), Case("games.%d" % n, record, n, 3, "games")]
    r.append(Case("fetched", fetched))
    return r
