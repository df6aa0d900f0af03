"""Game type codes."""
from symx.harness import Case

FUNCTIONS = ["GameType.__init__", "GameType.player_count", "GameType.has_aka_dora", "GameType.play_level", "GameType.speed_up", "GameType.allow_tanyao_open",
             "GameType.play_wind_count", "GameType.main_game_count", "GameType.with_tips", "GameType.tips_count", "GameType.show_discard_shadow",
             "GameType.__eq__", "GameType.__str__", "unpack_with", "repack_to", "bit_struct_from_desc (bitstruct and struct modelled at their pack/unpack boundary)"]
BOUNDS = ["every 16-bit number, as number and as decimal text; two independent numbers for equality: full domain"]
ASSUMES = []


def bit(n, k):
    return (n // (1 << k)) % 2


def one(h, as_text):
    G = h.mod("mahjong.record.utils.value.gametype").GameType
    n = h.int("n", 0, 65535)
    g = G(str(n) if as_text else n)
    b = [bit(n, k) == 1 for k in range(11)]
    h.check(g.has_aka_dora() == h.not_(b[1]), "red fives")
    h.check(g.allow_tanyao_open() == h.not_(b[2]), "open tanyao")
    h.check(g.play_wind_count() == h.ite(b[3], 2, 1), "rounds")
    h.check(g.player_count() == h.ite(b[4], 3, 4), "player count")
    h.check(g.main_game_count() == h.ite(b[3], 2, 1) * h.ite(b[4], 3, 4), "game count")
    h.check(g.play_level() == h.ite(b[5], 2, 0) + h.ite(b[7], 1, 0), "level")
    h.check(h.value(g.speed_up()) == b[6], "speed")
    h.check(h.value(g.show_discard_shadow()) == b[8], "discard shadow")
    h.check(h.value(g.with_tips()) == b[9], "tips")
    h.check(g.tips_count() == h.ite(b[9], h.ite(b[10], 5, 2), 0), "tips count")
    h.check(g.origin == n, "original number kept")
    h.obs([g.play_level(), g.player_count()])


def name(h):
    G = h.mod("mahjong.record.utils.value.gametype").GameType
    n = h.int("n", 0, 65535)
    g = G(n)
    B = [h.branch(bit(n, k) == 1) for k in range(11)]
    lv = (2 if B[5] else 0) + (1 if B[7] else 0)
    name = ("三" if B[4] else "四") + ("若銀琥孔" if B[9] else "般上特鳳")[lv] + ("南" if B[3] else "東") + ("" if B[2] else "喰") \
        + ("" if B[1] else "赤") + ("速" if B[6] else "") + ("暗" if B[8] else "") + (("祝5" if B[10] else "祝2") if B[9] else "")
    h.check(str(g) == name, "printed name")
    h.check(repr(g) == "<" + name + ">", "repr")
    h.obs(str(g))


def two(h):
    G = h.mod("mahjong.record.utils.value.gametype").GameType
    n, m = h.int("n", 0, 65535), h.int("m", 0, 65535)
    a, b = G(n), G(str(m))
    same = h.all_([bit(n, k) == bit(m, k) for k in range(1, 11)])
    h.check((a == b) == same, "equal exactly when all documented bits agree")
    h.check((a != b) == h.not_(same), "unequal otherwise")


def cases(tier):
    return [Case("number", one, False), Case("text", one, True), Case("name", name), Case("two", two)]
