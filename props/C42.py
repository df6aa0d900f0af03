"""The report of a record: one analysis per own discard."""
from symx.harness import Case
from . import C18
from .common import FACES, prewarm
from .events import Ev

FUNCTIONS = ["render_template", "game_reason_list", "game_reasoning", "discard_reasoning", "GameAnalysis", "GameState.passed_events/with_key_events/is_key_event", "PlayerHand.scan", "PlayerMeld.scan", "InvisibleTiles.scan",
             "TenhouRecord.__init__", "TenhouGame.__init__", "TenhouPlayer.is_discard/is_draw/is_open_hand", "is_richii", "TileSet.tiles"]
BOUNDS = ["records of two games of 3 and 4 players for every seat; in a game up to three own turns, each discarding the drawn tile or one of the own tiles (red five included), with up to two (quick) / three (thorough) other events at symbolic places: "
          "a riichi of anyone, a draw and discard of another player, a pon of another player, a new dora, an own pon, closed kan or north", "own hand of four tiles after three closed kans, so that every analysis is small"]
ASSUMES = ["the analysis of one discard itself is right (C14)", "a riichi call (step 1) comes right before the riichi discard, as tenhou writes it"]
OUTSIDE = ["the HTML text itself (jinja2 template)"]
warm = prewarm

KANS = [30, 31, 32, 33]          # own closed kans of 4z 5z 6z 7z; three only when a pon follows
HAND = [0]                       # 1m
LONG = [0, 36 + 16, 72, 108]     # 1m 0p 1s 1z
DRAWS = [32, 52, 100]            # 9m 5p (red or not) 8s, any copy


def HV(x):
    from symx.hooks import deep_conc
    return deep_conc(x)


def text(t):
    n, s = FACES[HV(t // 4)]
    return str(n) + s


def plain(x):
    return x.replace("0", "5")


class Stub:
    """stands for the template: keeps what it is given"""

    def render(self, **k):
        self.given = k
        return "text"


def head(n):
    names = {"n%d" % p: "p%d" % p if p < n else "" for p in range(4)}
    return [Ev("GO", {"type": "9" if n == 4 else "25"}), Ev("UN", dict(names, dan="1,2,3,4", rate="1,2,3,4", sx="M,M,F,M")), Ev("TAIKYOKU", {"oya": "0"})]


def begin(n, seat, hand, round_):
    a = {"seed": "%d,0,0,1,2,%d" % (round_, 96), "ten": "250,250,250,250", "oya": "0"}
    for p in range(4):
        a["hai%d" % p] = ",".join(map(str, hand if p == seat else [40 + p, 116 + p])) if p < n else ""
    return Ev("INIT", a)


def between(h, name, kind, n, seat, hand, melds, used):
    """events of one kind -> (elements, somebody declared riichi)"""
    other = [p for p in range(n) if p != seat]
    who = h.choice(name + ".who", other) if kind in ("quiet", "pon") else 0
    if kind == "quiet":
        t = h.int(name + ".t", 44, 47)
        return [Ev("%s%s" % ("TUVW"[who], t)), Ev("%s%s" % ("DEFG"[who], t))], False
    if kind == "riichi":
        p = h.choice(name + ".p", range(n))
        return [Ev("REACH", {"who": str(p), "step": "1"})] + ([] if p == seat else [Ev("%s60" % "DEFG"[p]), Ev("REACH", {"who": str(p), "step": "2", "ten": "240,250,250,250"})]), True
    if kind == "dora":
        return [Ev("DORA", {"hai": str(h.int(name + ".t", 48, 51))})], False
    if kind == "pon":
        src = [p for p in range(n) if p not in (who, seat)][0]
        return [Ev("%s64" % "DEFG"[src]), Ev("N", {"who": str(who), "m": str((src - who) % 4 + 8 + 32 * 3 + 512 * (3 * 16))})], False


def turn(h, name, draw, hand, melds, seat, n, kind, events, turns, seen, keep):
    """an own draw, perhaps a call of the kind, and a discard"""
    draw = h.int(name + ".draw", draw, draw + 3)
    call = kind in ("own pon", "own kan", "north") and kind not in seen
    tag = "TUVW"[seat]
    if kind == "own pon" and call:
        seen.add(kind)
        src = (seat + 1) % n
        f, u = h.choice(name + ".pon", [0, 18]), 3
        mine = [4 * f, 4 * f + 1]
        # the second tile was drawn in place of this turn's draw and the first one kept
        if 4 * f not in hand:
            return False
        hand.append(4 * f + 1)
        back = [x for x in hand if x not in mine][0]
        hand.remove(back)
        events += [Ev("%s%d" % (tag, 4 * f + 1)), Ev("%s%d" % ("DEFG"[seat], back))]
        turns.append((hand + [back], [list(m) for m in melds], back, seen.get("riichi", False)))
        events += [Ev("%s%d" % ("DEFG"[src], 4 * f + 2)), Ev("N", {"who": str(seat), "m": str((src - seat) % 4 + 8 + 32 * u + 512 * (3 * f + 2))})]
        for x in mine:
            hand.remove(x)
        melds.append(sorted(mine + [4 * f + 2]))
    elif kind == "north" and call and n == 3:
        seen.add(kind)
        events += [Ev("%s121" % tag), Ev("N", {"who": str(seat), "m": str(32 + 256 * 121)}), Ev("%s%s" % (tag, draw))]
        melds.append([121])
        hand.append(draw)
    else:
        events.append(Ev("%s%s" % (tag, draw)))
        hand.append(draw)
    if kind == "own riichi":
        events.append(Ev("REACH", {"who": str(seat), "step": "1"}))
        seen.riichi = True
    out = h.choice(name + ".out", [hand[-1], hand[0]]) if keep is None and len(hand) > 1 else hand[-1]
    events.append(Ev("%s%s" % ("DEFG"[seat], out)))
    turns.append((list(hand), [list(m) for m in melds], out, seen.riichi))
    hand.remove(out)
    return True


class Seen(set):
    riichi = False

    def get(self, _, default):
        return self.riichi


def one_game(h, name, n, seat, count, m, kinds, round_, keep):
    hand = list(LONG if "own pon" in kinds else HAND)
    kans = KANS[1:] if len(hand) > 1 else KANS
    melds = [[4 * f + i for i in range(4)] for f in kans]
    events = [begin(n, seat, hand + [t for x in melds for t in x], round_)]
    events += [Ev("N", {"who": str(seat), "m": str(1024 * f)}) for f in kans]
    turns, seen = [], Seen()
    at = {}
    for i in range(m):
        at.setdefault(h.choice("%s.at%d" % (name, i), range(count + 1)), []).append((i, h.choice("%s.k%d" % (name, i), kinds)))
    for k in range(count + 1):
        own = "none"
        for i, kind in at.get(k, []):
            if kind.startswith("own") or kind == "north":
                own = kind
                continue
            if kind == "pon" and "pon" in seen:
                continue
            seen.add(kind)
            e, r = between(h, "%s.b%d" % (name, i), kind, n, seat, hand, melds, seen)
            events += e
            seen.riichi = seen.riichi or r
        if k < count and not turn(h, "%s.t%d" % (name, k), DRAWS[k], hand, melds, seat, n, own, events, turns, seen, keep):
            return None
    events.append(Ev("RYUUKYOKU", {"ba": "0,0", "sc": "250,0,250,0,250,0,250,0"}))
    return events, turns


def report(h, n, seat, counts, m, kinds, keep=None):
    tr = h.mod("mahjong.tenhou_record_check")
    reader = h.mod("mahjong.record.reader")
    games = [one_game(h, "g%d" % i, n, seat, c, m if i == 0 else 0, kinds if i == 0 else [], i, keep) for i, c in enumerate(counts)]
    if None in games:
        return
    ev = head(n)
    for e, _ in games:
        ev += e
    ev[-1].attrib["owari"] = "250,10.0,250,-10.0,250,0,250,0"
    record = reader.TenhouRecord(ev)
    tpl = Stub()
    name, got = tr.render_template(record.players[seat], record, tpl, log_id="2019010100gm-0009-0000-12345678")
    h.check(got == "text", "the rendered text")
    given = tpl.given
    h.check(given["player"] == str(record.players[seat]) and given["record"] == str(record), "the report names the player and the record")
    h.check([g.name for g in given["games"]] == [str(g) for g in record.game_list], "every game of the record, in order")
    for g, (_, turns) in zip(given["games"], games):
        h.check(len(g.rounds) == len(turns), "one analysis per own discard")
        for r, (hand, melds, out, riichi) in zip(g.rounds, turns):
            h.check(sorted(map(plain, r.hand)) == sorted(plain(text(t)) for t in hand), "the hand right before the discard")
            h.check(sorted(sorted(map(plain, x)) for x in r.melds) == sorted(sorted(text(t) for t in x) for x in melds), "the melds right before the discard")
            h.check([plain(x) for x in r.your_choice_reasoning.discard_tile] == [plain(text(out))], "the discarded tile")
            h.check(bool(r.somebody_richii) == riichi, "marked exactly when somebody declared riichi before")
    h.obs([len(g.rounds) for g in given["games"]])


KINDS = ["quiet", "riichi", "dora", "pon", "own riichi"]


def cases(tier):
    r = []
    for n in (4, 3):
        ks = KINDS + (["north"] if n == 3 else [])
        for seat in range(n):
            r.append(Case("one.%d.%d" % (n, seat), report, n, seat, (2, 1), 1, ks))
            r.append(Case("pon.%d.%d" % (n, seat), report, n, seat, (1,), 1, ["own pon"]))
        r.append(Case("two.%d" % n, report, n, n - 1, (2, 1), 2, ["riichi", "own riichi", "pon", "dora"] + ks[6:], 1, weight=3))
        r.append(Case("empty.%d" % n, report, n, 0, (0, 1, 2), 1, ks))
        if tier == "thorough":
            r += [Case("three.%d.%d" % (n, s), report, n, s, (3, 1), 2, ks, optional=True, weight=9) for s in range(n)]
    return r
