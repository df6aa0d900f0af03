"""Events belong to the player who made them."""
from symx.harness import Case
from . import C18
from .common import FACES, prewarm
from .events import Ev

FUNCTIONS = ["TenhouPlayer.is_draw/draw_tile_index/is_discard/discard_tile_index", "TenhouPlayer.is_open_hand/is_reach/is_win/is_player_choice/opened_hand_type", "TenhouPlayer.__str__/level_str", "is_event_triggered_by_player",
             "draw_value", "discard_value", "draw_tile_change", "discard_tile_change", "TenhouEvent.__init__/__getattr__/meta_attribute", "is_game_init ... is_nobody_win_game", "is_game_end"]
BOUNDS = ["draws and discards of every tile number 0..135 and seat", "every tag of two (quick) / three (thorough) characters: the letters D to G and T to W, two other letters, lower case letters, digits 0, 1 and 9",
          "calls, riichi and wins of every seat; other events with and without a seat", "players with every rank and ratings in hundredths"]
ASSUMES = ["a tag starting with a letter of a draw or discard and a digit goes on with digits only, as tenhou writes it"]
warm = prewarm


def seats(h):
    P = h.mod("mahjong.record.player").TenhouPlayer
    return [P(i, "p%d" % i, 10, 1500.0, "M") for i in range(4)]


def judge(h, e, draw=None, discard=None, number=None, face=None, call=None, reach=None, win=None):
    """draw, discard, call, reach, win: the seat that did it"""
    U = h.mod("mahjong.record.utils.event")
    ps = seats(h)
    for wrapped in (e, U.TenhouEvent(e, context=None, timestamp=0)):
        for i, p in enumerate(ps):
            is_ = {k: bool(getattr(p, k)(wrapped)) for k in ("is_draw", "is_discard", "is_open_hand", "is_reach", "is_win", "is_player_choice")}
            h.check(is_ == {"is_draw": draw == i, "is_discard": discard == i, "is_open_hand": call == i, "is_reach": reach == i, "is_win": win == i, "is_player_choice": i in (discard, call, win)},
                    "an event is that of the player who made it and of no other")
            if draw == i:
                h.check(p.draw_tile_index(wrapped) == number, "the tile drawn")
            if discard == i:
                h.check(p.discard_tile_index(wrapped) == number, "the tile discarded")
        for f, who in ((U.draw_value, draw), (U.discard_value, discard)):
            got = f(wrapped)
            h.check(got is None if who is None else got is not None and got == number, "the tile of a draw or discard of anyone")
        if face is not None:
            for f, who in ((U.draw_tile_change, draw), (U.discard_tile_change, discard)):
                got = f(wrapped)
                h.check(got is None if who is None else got is not None and got["player"] == who and str(got["tile"]) == face, "seat and tile of a draw or discard")
            if wrapped is not e:
                h.check(wrapped.player_index_ == (discard if draw is None else draw) and [str(x) for x in (wrapped.show_tiles_ if draw is None else wrapped.see_tiles_)] == [face], "an event tells its player and the tile seen or shown")


def name(h, t):
    if h.branch(h.any_([t == r for r in (16, 52, 88)])):
        return "0" + FACES[h.value(t // 4)][1]
    n, s = FACES[h.value(t // 4)]
    return str(n) + s


def tile(h, kind):
    who, t = h.value(h.int("who", 0, 3)), h.int("t", 0, 135)
    judge(h, Ev("%s%s" % (("TUVW" if kind == "draw" else "DEFG")[who], t)), number=t, face=name(h, t), **{kind: who})


LETTERS = "DEFGTUVW"


def tag(h, n):
    """any short tag"""
    cs = [h.char("c%d" % i, chars=LETTERS + "QZtdx019") for i in range(n)]
    digit = [h.branch(h.any_([ord(c) == ord(d) for d in "019"])) for c in cs]
    kind = None
    for i, d in enumerate(LETTERS):
        if h.branch(ord(cs[0]) == ord(d)):
            kind = i
            break
    text = cs[0]
    for c in cs[1:]:
        text = text + c
    if kind is not None and n > 1 and digit[1]:
        h.assume(all(digit[1:]))
        v = 0
        for c in cs[1:]:
            v = 10 * v + (ord(c) - 48)
        h.assume(v <= 135)
        judge(h, Ev(text), number=v, **{"discard" if kind < 4 else "draw": kind % 4})
    else:
        judge(h, Ev(text, {"who": "1"}))


def other(h, kind):
    who, m = h.value(h.int("who", 0, 3)), None
    if kind == "call":
        k = h.choice("meld", list(C18.KINDS))
        if k == "pon":
            c = 1 + 8 + 32 * h.int("u", 0, 3) + 512 * (3 * h.choice("f", [0, 4, 17, 33]) + h.int("w", 0, 2))
        else:
            c = C18.code(h, k)[0]
        e = Ev("N", {"who": str(who), "m": str(c)})
        judge(h, e, call=who)
        for p in seats(h):
            h.check(str(p.opened_hand_type(e)) == str(h.mod("mahjong.record.utils.value.meld").meld_from(Ev("N", {"who": str(who), "m": str(c)}))), "the meld of the call")
    elif kind == "reach":
        judge(h, Ev("REACH", {"who": str(who), "step": str(h.int("step", 1, 2))}), reach=who)
    elif kind == "win":
        judge(h, Ev("AGARI", {"who": str(who), "fromWho": str(h.int("from", 0, 3)), "ten": "30,1000,0"}), win=who)
    else:
        t, a = h.choice("tag", [("BYE", {"who": str(who)}), ("DORA", {"hai": "5"}), ("UN", {"n0": "x"}), ("GO", {"type": "9"}), ("TAIKYOKU", {"oya": "0"}), ("INIT", {"oya": "0"}),
                                ("RYUUKYOKU", {"sc": "1"}), ("SHUFFLE", {}), ("mjloggm", {}), ("N5", {"who": str(who)}), ("REACHED", {"who": str(who)}), ("AGARI2", {"who": str(who)})])
        judge(h, Ev(t, a))


def kinds(h):
    """what an event is"""
    U = h.mod("mahjong.record.utils.event")
    R = h.mod("mahjong.record.reader")
    marks = {"INIT": U.is_game_init, "N": U.is_open_hand, "DORA": U.is_dora_indicator_event, "REACH": U.is_richii, "AGARI": U.is_somebody_win_game, "RYUUKYOKU": U.is_nobody_win_game}
    t = h.choice("tag", sorted(marks) + ["INI", "INIT2", "NN", "n", "DORA1", "D12", "REACHED", "AGAR", "UN", "", "RYU"])
    attr = {"hai": str(h.int("hai", 0, 135)), "who": "1"}
    e = Ev(t, attr)
    for wrapped in (e, U.TenhouEvent(e, context=None, timestamp=7)):
        h.check({k for k, f in marks.items() if f(wrapped)} == ({t} & set(marks)), "an event is of the kind its tag names and of no other")
        h.check(bool(R.is_game_end(wrapped)) == (t in ("AGARI", "RYUUKYOKU")), "a game ends with a win or a draw")
    w = U.TenhouEvent(e, context=None, timestamp=7)
    h.check(w.timestamp == 7 and w.tag == t and w.attrib is attr and w.meta_attribute is attr, "an event has the tag and the attributes of its element")


RANKS = "新人 9級 8級 7級 6級 5級 4級 3級 2級 1級 初段 二段 三段 四段 五段 六段 七段 八段 九段 十段 天鳳位".split()


def shown(h):
    P = h.mod("mahjong.record.player").TenhouPlayer
    k, r = h.int("rank", 0, 20), h.choice("rate", [0.0, 1500.0, 2135.27, 999.5, -12.25])
    i = h.int("seat", 0, 3)
    p = P(i, h.choice("name", ["abc", "%E6%9D%B1", "a%20b%25"]), k, r, "F")
    n = {"abc": "abc", "%E6%9D%B1": "東", "a%20b%25": "a b%"}
    want = [n[x] for x in n if n[x] == p.name]
    h.check(len(want) == 1 and str(p) == "%s %s R%.2f" % (want[0], RANKS[h.value(k)], r) and p.level_str() == RANKS[h.value(k)], "name, rank and rating of a player")
    h.check(p.index == i and p.level == k and p.sex == "F", "a player is what was given")


def cases(tier):
    r = [Case(k, tile, k) for k in ("draw", "discard")]
    r += [Case("tag.%d" % n, tag, n) for n in ((1, 2) if tier == "quick" else (1, 2, 3))]
    r += [Case(k, other, k) for k in ("call", "reach", "win", "others")]
    r += [Case("kinds", kinds), Case("shown", shown)]
    return r
