"""Event streams through the command translator, with a specification of the
visible state after every event.  State is only observed through the commands
the translator returns (player or "all", property, state)."""
from collections import Counter

from symx import core
from . import C18
from .events import Ev

HONOR = 27
DRAW, DISCARD = "TUVW", "DEFG"
RANKS = "新人 9級 8級 7級 6級 5級 4級 3級 2級 1級 初段 二段 三段 四段 五段 六段 七段 八段 九段 十段 天鳳位".split()
DRAWN = {"kaze4": "四風連打", "yao9": "九種九牌", "ron3": "三家和了", "reach4": "四家立直", "kan4": "四槓散了", "nm": "流局滿貫"}
YAKU = ("門前清自摸和 立直 一発 槍槓 嶺上開花 海底摸月 河底撈魚 平和 断幺九 一盃口 自風_東 自風_南 自風_西 自風_北 場風_東 場風_南 場風_西 場風_北 役牌_白 役牌_發 役牌_中 "
        "両立直 七対子 混全帯幺九 一気通貫 三色同順 三色同刻 三槓子 対々和 三暗刻 小三元 混老頭 二盃口 純全帯幺九 混一色 清一色 人和 天和 地和 大三元 四暗刻 四暗刻単騎 字一色 緑一色 "
        "清老頭 九蓮宝燈 純正九蓮宝燈 国士無双 国士無双１３面 大四喜 小四喜 四槓子 ドラ 裏ドラ 赤ドラ").replace("_", "\0").split()
YAKU = [y.replace("\0", " ") for y in YAKU]
BAG = ("hand", "meld_public_tiles", "using_tiles")      # order does not matter
BAGS = ("fixed_meld",)                                  # list of bags


def face(h, t):
    """text of a tile number"""
    f = h.value(t // 4)
    red = f in (4, 13, 22) and h.branch(t == 4 * f)
    if f >= HONOR:
        return "%dz" % (f - HONOR + 1)
    return "%d%s" % (0 if red else f % 9 + 1, "mps"[f // 9])


def faces(h, ts):
    return [face(h, t) for t in ts]


def same_value(h, prop, got, want):
    if prop in BAG:
        return isinstance(got, list) and Counter(got) == Counter(want)
    if prop in BAGS:
        return isinstance(got, list) and [sorted(x) for x in got] == [sorted(x) for x in want]
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and h.all_([a == b for a, b in zip(got, want)])
    if got is None or want is None:
        return got is want
    return got == want


class World:
    """the translator, fed event by event, next to the specification"""

    def __init__(self, h, players=4, kind=None):
        self.h = h
        self.n = 0
        self.players = players
        h.mod("mahjong.record.universe.tenhou.event_definition")
        self.TE = h.mod("mahjong.record.utils.event").TenhouEvent
        self.tc = h.mod("mahjong.record.universe.tenhou.xml_macher").tenhou_command
        self.tc.clear()
        self.got = {}       # (player, scope, property) -> state
        self.want = {}
        self.seen = []      # (state object, copy) of every snapshot
        self.last = None    # commands of the last event
        self.ignore = {"is_self_win"}       # of the others than the winner; see win()
        if kind is None:
            kind = 9 if players == 4 else 25
        self.go(kind)

    # plumbing
    def feed(self, tag, **attrib):
        e = self.TE(Ev(tag, attrib), context=None, timestamp=self.n)
        self.n += 1
        cmds = self.tc(e)
        self.last = cmds
        for c in cmds:
            r = c.to_raw_record()
            self.got[(r.sub_scope_id, r.scope.name, r.property.name)] = r.state
            if isinstance(r.state, list):
                self.seen.append((r.state, [list(x) if isinstance(x, list) else x for x in r.state]))
        return cmds

    def check(self, label, props=None):
        """the visible state is the specified one, for every player and property"""
        h = self.h
        conds = []
        for k in list(self.want) + [k for k in self.got if k not in self.want]:
            if props is not None and k[2] not in props:
                continue
            if k[2] in self.ignore:
                continue
            if k not in self.want:
                h.check(False, "%s: unexpected change of %s of %s" % (label, k[2], k[0]))
            if k not in self.got:
                h.check(False, "%s: %s of %s is not set" % (label, k[2], k[0]))
            c = same_value(h, k[2], self.got[k], self.want[k])
            if c is False:
                h.check(False, "%s: %s of %s" % (label, k[2], k[0]))
            if c is not True:
                conds.append(c)
        for now, then in self.seen:
            if not (len(now) == len(then) and all(a is b or a == b for a, b in zip(now, then))):
                h.check(False, label + ": earlier states stay as they were")
        h.check(h.all_(conds), label + ": the visible state is as specified")
        if not all(c.timestamp == self.n - 1 for c in self.last):
            h.check(False, label + ": the commands carry the position of the event")

    def put(self, who, scope, prop, v):
        self.want[(who, scope, prop)] = v

    def of(self, who, prop):
        return self.want.get((who, "player", prop))

    # record events
    def go(self, kind):
        h = self.h
        bit = lambda b: h.branch(h.value(kind // b % 2) == 1)
        self.feed("GO", type=str(kind), lobby="0")
        level = 2 * int(bit(32)) + int(bit(128))
        self.put("all", "record", "play_level", ("若銀琥孔" if bit(512) else "般上特鳳")[level])
        self.put("all", "record", "show_discard_shadow", bit(256))
        self.put("all", "record", "play_wind_count", 2 if bit(8) else 1)
        self.put("all", "record", "allow_tanyao_open", not bit(4))
        self.put("all", "record", "speed_up", bit(64))
        self.players = 3 if bit(16) else 4
        self.put("all", "record", "player_count", self.players)
        wall = []
        for f in range(34):
            if self.players == 3 and 1 <= f <= 7:
                continue
            for c in range(4):
                n, s = (f % 9 + 1, "mps"[f // 9]) if f < HONOR else (f - HONOR + 1, "z")
                red = n == 5 and s != "z" and c == 0 and not bit(2)
                wall.append("%d%s" % (0 if red else n, s))
        self.put("all", "record", "using_tiles", wall)

    def shuffle(self, seed):
        self.feed("SHUFFLE", seed=seed, ref="")
        self.put("all", "record", "seed", seed)

    def taikyoku(self, oya):
        self.feed("TAIKYOKU", oya=str(oya))
        for p in range(self.players):
            self.put(p, "player", "is_dealer", oya == p)

    def un(self, names, dan=None, rate=None):
        """names: {seat: name}; dan, rate: four numbers or None"""
        a = {"n%d" % p: v for p, v in names.items()}
        if dan is not None:
            a["dan"] = ",".join([str(x) for x in dan])
        if rate is not None:
            a["rate"] = ",".join([str(x) for x in rate])
        if dan is not None:
            a["sx"] = "M,F,M,C"
        self.feed("UN", **a)
        for p, v in names.items():
            if v == "":
                continue
            self.put(p, "player", "disconnected", False)
            self.put(p, "player", "name", v)
            if dan is not None:
                self.put(p, "player", "level", RANKS[self.h.value(dan[p])])
            if rate is not None:
                self.put(p, "player", "extra_level", rate[p])

    def bye(self, who):
        self.feed("BYE", who=str(who))
        self.put(self.h.value(who), "player", "disconnected", True)

    # game events
    def init(self, k, sub, sticks, dora, oya, ten, hands, dice=(2, 3)):
        a = {"seed": ",".join([str(x) for x in (k, sub, sticks) + tuple(dice) + (dora,)]), "oya": str(oya), "ten": ",".join([str(x) for x in ten])}
        for p in range(4):
            a["hai%d" % p] = ",".join([str(t) for t in hands[p]]) if p < len(hands) else ""
        self.feed("INIT", **a)
        g = lambda prop, v: self.put("all", "game", prop, v)
        g("wind", k // 4)
        g("round", k % 4)
        g("sub_round", sub)
        g("richii_remain_scores", sticks * 1000)
        g("dora_indicators", [face(self.h, dora)])
        self.drawn = {}
        for p in range(self.players):
            s = lambda prop, v: self.put(p, "player", prop, v)
            s("is_dealer", oya == p)
            for prop in ("discard_tiles", "fixed_meld", "meld_public_tiles", "bonus_tiles", "discard_from_hand"):
                s(prop, [])
            s("round", 0)
            s("in_richii", False)
            s("hand", faces(self.h, hands[p]))
            s("score", ten[p] * 100)

    def draw(self, who, t):
        who = self.h.value(who)
        self.feed("%s%s" % (DRAW[who], t))
        self.put(who, "player", "hand", self.of(who, "hand") + [face(self.h, t)])
        self.drawn[who] = t

    def discard(self, who, t):
        who = self.h.value(who)
        self.feed("%s%s" % (DISCARD[who], t))
        f = face(self.h, t)
        self.put(who, "player", "hand", without(self.of(who, "hand"), [f]))
        self.put(who, "player", "discard_tiles", self.of(who, "discard_tiles") + [f])
        self.put(who, "player", "round", self.of(who, "round") + 1)
        d = self.drawn.get(who)
        self.put(who, "player", "discard_from_hand", self.of(who, "discard_from_hand") + [True if d is None else d != t])
        self.drawn[who] = None

    def meld(self, who, c, own, taken, north=False):
        who = self.h.value(who)
        self.feed("N", who=str(who), m=str(c))
        f, g = faces(self.h, own), faces(self.h, taken)
        self.put(who, "player", "hand", without(self.of(who, "hand"), f))
        self.put(who, "player", "meld_public_tiles", self.of(who, "meld_public_tiles") + f)
        if north:
            self.put(who, "player", "bonus_tiles", self.of(who, "bonus_tiles") + f)
        else:
            self.put(who, "player", "fixed_meld", self.of(who, "fixed_meld") + [f + g])
        self.drawn[who] = None

    def dora(self, t):
        self.feed("DORA", hai=str(t))
        self.put("all", "game", "dora_indicators", self.want[("all", "game", "dora_indicators")] + [face(self.h, t)])

    def reach(self, who, step):
        self.feed("REACH", who=str(who), step=str(step))
        who = self.h.value(who)
        if self.h.branch(step == 1):
            self.put(who, "player", "in_richii", True)
        else:
            self.put(who, "player", "score", self.of(who, "score") - 1000)

    def scores(self, a, sc):
        """sc: (before, change) per seat, or None"""
        if sc is not None:
            flat = []
            for b, d in sc:
                flat += [b, d]
            a["sc"] = ",".join([str(x) for x in flat])
            for p in range(self.players):
                self.put(p, "player", "score", (sc[p][0] + sc[p][1]) * 100)

    def owari(self, a, fin):
        """fin: (score, point as text and value) per seat, or None"""
        if fin is not None:
            flat = []
            for s, (text, v) in fin:
                flat += [str(s), text]
            a["owari"] = ",".join(flat)
            for p in range(self.players):
                s = fin[p][0]
                self.put(p, "player", "final_score", s * 100)
                self.put(p, "player", "final_point", fin[p][1][1])
                better = [self.h.branch(fin[q][0] > s if q > p else fin[q][0] >= s) for q in range(self.players) if q != p]
                self.put(p, "player", "rank", 1 + sum([1 for b in better if b]))

    def win(self, who, source, hand, machi, yaku, sc, fin=None, yakuman=False):
        """yaku: list of (id, name, han)"""
        h = self.h
        who, source = h.value(who), h.value(source)
        a = {"who": str(who), "fromWho": str(source), "hai": ",".join([str(t) for t in hand]), "machi": str(machi), "ten": "30,1000,0", "ba": "0,0"}
        if yakuman:
            a["yakuman"] = ",".join([str(i) for i, _, _ in yaku])
        else:
            a["yaku"] = ",".join(["%s,%s" % (i, n) for i, _, n in yaku])
        self.scores(a, sc)
        self.owari(a, fin)
        self.feed("AGARI", **a)
        f = faces(h, hand)
        if who != source:
            f = without(f, [face(h, machi)])
        self.put(who, "player", "hand", f)
        self.put("all", "game", "nobody_win", False)
        for p in range(self.players):
            self.put(p, "player", "is_win", p == who)
            self.put(p, "player", "is_discard_lose_game", p == source and who != source)
            self.put(p, "player", "is_self_win", who == source)
            self.put(p, "player", "faans", [n for _, n, _ in yaku] if who == source or p in (who, source) else [])
        h.check(self.got[(who, "player", "is_self_win")] == (who == source), "self-draw flag of the winner")

    def nobody(self, typ, sc, fin=None):
        a = {"ba": "0,0"}
        if typ is not None:
            a["type"] = typ
        self.scores(a, sc)
        self.owari(a, fin)
        self.feed("RYUUKYOKU", **a)
        self.put("all", "game", "nobody_win", True)
        self.put("all", "game", "extra_reason", DRAWN[typ] if typ is not None else "EXHAUSTED")
        for p in range(self.players):
            self.put(p, "player", "is_win", False)
            self.put(p, "player", "is_discard_lose_game", False)
            self.put(p, "player", "is_self_win", False)
            self.put(p, "player", "faans", [])


def without(hand, tiles):
    r = list(hand)
    for t in tiles:
        r.remove(t)
    return r


def start(h, players=4, extra=None, k=0, oya=0, hands=None):
    """a world with a game started on plain values"""
    w = World(h, players)
    hands = hands or [[0, 5, 40 + 4 * p, 60 + p, 108 + p] for p in range(players)]
    if extra:
        for p, ts in extra.items():
            hands[p] = hands[p] + ts
    w.init(k, 0, 0, 72, oya, [250, 251, 252, 253][:players] + [0] * (4 - players), hands)
    return w


