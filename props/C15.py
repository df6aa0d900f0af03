"""Numbers of useful tiles."""
from symx.harness import Case
from . import C18
from .common import FACES, INDEX, mk_tile, prewarm
from .events import DISCARD, Ev, has

FUNCTIONS = ["convert_to_reasoning", "reasoning_merge", "reduce_useful", "tile_to_tenhou_range", "game_reasoning", "discard_reasoning", "reasoning_discards", "one_win_reasoning", "InvisibleTiles.scan/value", "PlayerHand.scan/value",
             "PlayerMeld.scan/value", "GameState.passed_events", "GameState.with_key_events"]
BOUNDS = ["useful sets of one or two arbitrary tiles (red fives included) and of three tiles out of nine, with an arbitrary (fully symbolic) set of unseen numbers 0..135",
          "merging the analyses of two win forms over tiles out of nine with symbolic waiting steps 0..6", "one own discard after a start event with the own hand known (four tiles after three closed kans) and up to two (quick) / three (thorough) earlier events of "
          "other players, each a discard, call, closed or added kan or indicator with symbolic tile numbers, 3 and 4 players and every seat", "two own discards in one game"]
ASSUMES = ["meld codes follow the tenhou layout (C18)", "the useful tiles themselves are right (C10, C11)"]
warm = prewarm

REDS = [(0, "m"), (0, "p"), (0, "s")]


def number(f):
    n, s = f
    return INDEX[(n or 5, s)]


def copies(h, unseen, faces):
    return sum([h.ite(has(h, unseen, t), 1, 0) for f in faces for t in range(4 * number(f), 4 * number(f) + 4)])


def tiles(h, k):
    """k different faces, ascending, as (face) with reds"""
    if k == 3:
        pool = [INDEX[(x, s)] for s in "ms" for x in (1, 5, 9)] + [INDEX[(x, "z")] for x in (1, 4, 7)]
        i = [h.int("f%d" % n, 0, len(pool) - 1) for n in range(3)]
        h.assume(h.and_(i[0] < i[1], i[1] < i[2]))
        faces = [FACES[pool[h.value(x)]] for x in i]
    else:
        i = [h.int("f%d" % n, 0, 33) for n in range(k)]
        if k == 2:
            h.assume(i[0] < i[1])
        faces = [FACES[h.value(x)] for x in i]
    return [(0, f[1]) if f[0] == 5 and f[1] != "z" and h.branch(h.bool("red%d" % n)) else f for n, f in enumerate(faces)]


def counted(h, k):
    tr = h.mod("mahjong.tenhou_record_check")
    unseen = h.subset("unseen", range(136))
    faces = tiles(h, k)
    useful = set(mk_tile(h, f) for f in faces)
    keep = set(useful)
    own = mk_tile(h, (3, "m"))
    before = unseen.copy()
    r = tr.convert_to_reasoning(unseen, own, useful, 2)
    h.check(r.useful_tiles_count == copies(h, before, faces), "the unseen copies of the useful tiles")
    h.check(h.and_(r.waiting_step == 2, r.discard_tile == own, set(r.useful_tiles) == keep), "the analysis is kept")
    p = h.int("probe", 0, 135)
    a, b = has(h, unseen, p), has(h, before, p)
    h.check(h.or_(h.and_(a, b), h.and_(h.not_(a), h.not_(b))), "the unseen tiles stay as they were")
    h.obs([r.useful_tiles_count])


def merged(h):
    tr = h.mod("mahjong.tenhou_record_check")
    unseen = h.subset("unseen", range(136))
    pool = [(1, "m"), (5, "m"), (0, "m"), (9, "p"), (7, "z")]
    a, b = [[f for j, f in enumerate(pool) if h.branch(h.bool("%s%d" % (n, j))) and not (f == (0, "m") and n == "a")] for n in "ab"]
    if (5, "m") in b and (0, "m") in b:
        b.remove((5, "m"))
    x, y = h.int("step.a", 0, 6), h.int("step.b", 0, 6)
    items = [tr.convert_to_reasoning(unseen, mk_tile(h, (3, "m")), set(mk_tile(h, f) for f in fs), s) for fs, s in ((a, x), (b, y))]
    r = tr.reasoning_merge(items, unseen)
    faces = set(map(number, (a if h.branch(x <= y) else []) + (b if h.branch(y <= x) else [])))
    h.check(r.waiting_step == h.ite(x <= y, x, y), "the smaller waiting step")
    h.check(set(number((t.number, t.color)) for t in r.useful_tiles) == faces, "the useful tiles of the nearest form, of both if equal")
    h.check(r.useful_tiles_count == copies(h, unseen, [FACES[i] for i in faces]), "the unseen copies of the merged useful tiles")
    h.obs([r.useful_tiles_count])


def other(h, name, who, lo, hi, n, seat):
    """events of another player -> elements, shown tiles"""
    kind = h.choice(name, ["discard", "dora", "closed", "pon", "added"])
    if kind in ("discard", "dora"):
        t = h.int(name + ".t", lo, hi)
        return [Ev("%s%s" % (DISCARD[who], t)) if kind == "discard" else Ev("DORA", {"hai": str(t)})], [t]
    if kind == "closed":
        f = h.int(name + ".f", lo // 4, hi // 4)
        return [Ev("N", {"who": str(who), "m": str(1024 * f)})], [4 * f + i for i in range(4)]
    f, u, w, k = h.int(name + ".f", lo // 4, hi // 4), h.int(name + ".u", 0, 3), h.int(name + ".w", 0, 2), 1
    code = k + (8 if kind == "pon" else 16) + 32 * u + 512 * (3 * f + w)
    own, taken = C18.spec(h, kind, 3 * f + w, u)
    e = Ev("N", {"who": str(who), "m": str(code)})
    if kind == "added":
        return [e], own
    return [Ev("%s%s" % (DISCARD[[p for p in range(n) if p not in (who, seat)][0]], taken[0])), e], own + taken


KANS = [31, 32, 33]         # own closed kans of 5z 6z 7z: four tiles remain
HAND = [72, 76, 100, 108]   # 1s 2s 8s 1z


class Game:
    def __init__(self, events):
        self.events = events

    def __str__(self):
        return "game"


def stream(h, seat, n, m):
    """an own draw and discard after m events of others; then a second own discard"""
    tr = h.mod("mahjong.tenhou_record_check")
    st = h.mod("mahjong.record.state")
    hand = HAND + [4 * f + i for f in KANS for i in range(4)]
    lo, hi = 80, 115
    dora = h.int("dora", 80, 83)
    a = {"seed": "0,0,0,1,2,%s" % dora, "ten": "250,250,250,250", "oya": "0"}
    for p in range(4):
        a["hai%d" % p] = ",".join(map(str, hand)) if p == seat else "130,131" if p < n else ""
    events, shown = [Ev("INIT", a)], [dora]
    events += [Ev("N", {"who": str(seat), "m": str(1024 * f)}) for f in KANS]
    for i in range(m):
        e, s = other(h, "e%d" % i, (seat + 1 + i % (n - 1)) % n, lo, hi, n, seat)
        events += e
        shown += s
    mine = set(HAND)
    h.assume(h.all_([t != x for t in mine | {101, 77} for x in shown]))
    turns = []
    for draw, out in ((101, 108), (77, 72)):
        mine.add(draw)
        events += [Ev("%s%d" % ("TUVW"[seat], draw)), Ev("%s%d" % ("DEFG"[seat], out))]
        turns.append((set(mine), list(shown)))
        mine.discard(out)
        shown.append(out)
    P = h.mod("mahjong.record.player").TenhouPlayer(seat, "x", 10, 1500.0, "M")
    got = list(tr.game_reasoning(Game(events), st.PlayerHand(P), st.InvisibleTiles(n), P, st.PlayerMeld(P)))
    h.check(len(got) == 2, "one analysis per own discard")
    for r, (own, vis) in zip(got, turns):
        def count(texts):
            fs = sorted(set(number((int(x[0]), x[1])) for x in texts))
            return sum([h.ite(h.all_([t != v for v in vis]), 1, 0) for f in fs for t in range(4 * f, 4 * f + 4) if t // 4 not in KANS and t not in own and (n == 4 or not 4 <= t < 32)])
        xs = [("actual discard", r.your_choice_reasoning)] + [("expected discard", x) for x in r.expected_reasonings] + [("listed discard", x) for x in r.merged_reasoning]
        for label, x in xs:
            h.check(x.useful_tiles_count == count(x.useful_tiles), "unseen copies of the useful tiles of the " + label)
    h.obs([r.your_choice_reasoning.useful_tiles_count for r in got])


def cases(tier):
    r = [Case("counted.%d" % k, counted, k) for k in (1, 2, 3)] + [Case("merged", merged)]
    r += [Case("stream.%d.%d.%d" % (n, s, m), stream, s, n, m) for n, s, m in ((4, 0, 1), (4, 1, 1), (4, 2, 1), (4, 3, 1), (3, 0, 1), (3, 2, 1), (4, 0, 2), (3, 1, 2))]
    if tier == "thorough":
        r += [Case("stream.%d.%d.%d" % (n, s, m), stream, s, n, m, optional=True) for n, s, m in ((4, 1, 2), (4, 3, 3), (3, 2, 2))]
    return r
