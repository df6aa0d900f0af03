"""The report of one own discard."""
from symx.harness import Case
from .common import FACES, INDEX, build_hand, sym_counts, prewarm, distance, useful_of
from .C06 import idx

FUNCTIONS = ["discard_reasoning", "all_win_type_reasoning", "one_win_reasoning", "reasoning_discards", "reasoning_merge", "reduce_useful", "reasoning_key", "convert_to_reasoning",
             "ReasoningItem.norm", "HeuristicPatternMatchWaiting.batch_waiting_and_useful_tiles/waiting_and_useful_tiles", "NormalTypeWin.*", "UniquePairs.*", "tile_from_tenhou",
             "tile_to_tenhou_range"]
ASSUMES = ["0..4 copies of each face", "the unseen tiles and the own hand are disjoint", "some unseen tile is of no use to a discard that is a step behind (the rate compares with all unseen tiles)"]
warm = prewarm


class Ev:
    def __init__(self, tag, **attrib):
        self.tag = tag
        self.attrib = attrib


class St:
    def __init__(self, value):
        self.value = value


def face_no(text):
    """'0m' / '5m' -> index of the face"""
    n = int(text[0])
    return INDEX[(n or 5, text[1])]


# a pon of 1p (own 36,37 from 38), a chi, a closed kan, a north: built by the project's own decoder
def meld_codes(kinds):
    out = []
    for k in kinds:
        if k == "pon":
            out.append((9 * 3 << 9) | (3 << 5) | 8 | 1)
        elif k == "chi":
            out.append(((18 // 9 * 7 + 0) * 3 << 10) | 4 | 3)
        elif k == "kan":
            out.append(31 * 4 << 8)
        elif k == "north":
            out.append(120 << 8 | 32)
        elif k == "pon2":
            out.append((17 * 3 << 9) | (0 << 5) | 8 | 2)
        elif k == "pon3":
            out.append((32 * 3 << 9) | (1 << 5) | 8 | 3)
    return out


def pairs_distance(c):
    p = sum(1 for x in c if x >= 2)
    k = sum(1 for x in c if x >= 1)
    return 7 - min(7, p) + max(0, 7 - k)


def pairs_useful(c):
    d = pairs_distance(c)
    out = set()
    for i in range(34):
        if c[i] < 4:
            c2 = list(c)
            c2[i] += 1
            if pairs_distance(c2) < d:
                out.add(i)
    return out


def form(c, melds):
    """analysis of the counts in every win form: [(step, useful)]"""
    d = distance(tuple(c), melds, 1)
    r = [(d - 1, useful_of(list(c), melds, 1, d))]
    if melds == 4:
        r.append((pairs_distance(c) - 1, pairs_useful(c)))
    return r


def round_(h, free, fixed, lo, hi, seen, maybe, kinds, last, choices, seat=0):
    """seen: faces of which every copy outside the hand is visible; maybe: tiles that may or may not be unseen"""
    c = sym_counts(h, idx(free), 4, total=(lo, hi))
    for f in idx(fixed):
        c[f] = c[f] + 1
    c = [h.value(x) for x in c]
    total = sum(c)
    hand = set()
    for i in range(34):
        h.assume(c[i] <= 4)
        hand |= set(range(4 * i + 4 - c[i], 4 * i + 4) if last else range(4 * i, 4 * i + c[i]))
    present = [i for i in range(34) if c[i] and FACES[i] in [FACES[j] for j in idx(choices)]] if choices else [i for i in range(34) if c[i]]
    h.assume(bool(present))
    own = h.choice("own", present)
    mine = 4 * own + (3 if last else 0)
    sure = set(t for t in range(136) if t not in hand and t // 4 not in idx(seen))
    open_ = [t for t in range(136) if t not in hand and t // 4 in idx(maybe)]
    sub = h.subset("unseen", open_) if open_ else set()
    base = sub | (sure - set(open_))
    tr = h.mod("mahjong.tenhou_record_check")
    me = h.mod("mahjong.record.utils.value.meld")
    pl = h.mod("mahjong.record.player").TenhouPlayer(seat, "x", 10, 1500.0, "M")
    melds = [me.meld_from(Ev("N", who=str(seat), m=str(m))) for m in meld_codes(kinds)]
    need = 4 - sum(1 for k in kinds if k != "north")
    tag = "DEFG"[seat] + str(mine)
    r = tr.discard_reasoning(Ev(tag), St(set(hand)), St(base | set(hand) if last else base), pl, St(melds))

    def count(useful):
        n = 0
        for i in useful:
            for t in range(4 * i, 4 * i + 4):
                if t in hand:
                    continue
                if t in open_:
                    n = n + h.ite(sub.has(t) if hasattr(sub, "has") else t in sub, 1, 0)
                elif t in sure:
                    n = n + 1
        return n
    analysis = {}
    for i in range(34):
        if c[i]:
            d = list(c)
            d[i] -= 1
            forms = form(d, need)
            best = min(s for s, _ in forms)
            use = set()
            for s, u in forms:
                if s == best:
                    use |= u
            analysis[i] = (best, use, count(use), [(s, u, count(u)) for s, u in forms])
    step = min(a[0] for a in analysis.values())
    top = [i for i in analysis if analysis[i][0] == step]
    # expected discards
    exp = [face_no(x.discard_tile[0]) for x in r.expected_reasonings]
    h.check(len(exp) > 0 and len(set(exp)) == len(exp), "some discards are expected, each once")
    for i in analysis:
        if analysis[i][0] != step:
            h.check(i not in exp, "an expected discard minimises the waiting step")
        else:
            h.check((i in exp) == h.all_([analysis[i][2] >= analysis[j][2] for j in top]), "expected discards maximise the unseen useful tiles")
    for x in r.expected_reasonings:
        a = analysis[face_no(x.discard_tile[0])]
        item(h, x, a[0], a[1], a[2], "expected discard")
    # own choice
    a = analysis[own]
    x = r.your_choice_reasoning
    h.check(len(x.discard_tile) == 1 and face_no(x.discard_tile[0]) == own, "the actual discard")
    item(h, x, a[0], a[1], a[2], "actual discard")
    rate = r.wrong_rate
    most = analysis[exp[0]][2]
    good = h.and_(a[0] == step, a[2] == most)
    if a[0] > step:
        h.assume(count(range(34)) > a[2])
    h.check(h.and_(rate >= 0, rate <= 1), "the rate lies between 0 and 1")
    h.check((rate == 0) == good, "the rate is 0 exactly for a discard as good as expected")
    # listings
    best_first(h, r.merged_reasoning, "merged listing")
    names = ["normal_reasonings", "seven_pair_reasonings"]
    for k in range(2 if need == 4 else 1):
        rows = getattr(r, names[k], None)
        h.check(rows is not None and len(rows) > 0, "the listing of the form is filled (%s)" % names[k])
        fs = [face_no(x.discard_tile[0]) for x in rows]
        h.check(len(set(fs)) == len(fs), "each discard is listed once (%s)" % names[k])
        low = min(a[3][k][0] for a in analysis.values())
        for i in analysis:
            if analysis[i][3][k][0] == low:
                h.check(i in fs, "the best discards of the form are listed (%s)" % names[k])
        for x in rows:
            a = analysis[face_no(x.discard_tile[0])][3][k]
            item(h, x, a[0], a[1], a[2], names[k])
        best_first(h, rows, names[k])
    h.check(sorted(r.hand) == sorted(text(t) for t in hand) or sorted(map(plain, r.hand)) == sorted(plain(text(t)) for t in hand), "the hand shown is the own hand")
    h.check([sorted(m) for m in r.melds] == [sorted(text(t) for t in set(m.self_tiles) | set(m.borrowed_tiles)) for m in melds], "the melds shown are the own melds")
    h.obs((sorted(exp), own, a[0]))


def text(t):
    n, s = FACES[t // 4]
    return ("0" if t in (16, 52, 88) else str(n)) + s


def plain(x):
    return x.replace("0", "5")


def item(h, x, step, useful, n, label):
    h.check(x.waiting_step == step, "waiting step (%s)" % label)
    h.check(sorted(face_no(u) for u in x.useful_tiles) == sorted(useful), "useful tiles (%s)" % label)
    h.check(x.useful_tiles_count == n, "number of unseen useful tiles (%s)" % label)


def best_first(h, rows, label):
    for a, b in zip(rows, rows[1:]):
        h.check(h.or_(a.waiting_step < b.waiting_step, h.and_(a.waiting_step == b.waiting_step, a.useful_tiles_count >= b.useful_tiles_count)), "best discards first (%s)" % label)


def rounds(tier):
    """(free, fixed, lo, hi, seen, maybe, melds, last copies, own discards, seat)"""
    r = [("1m2m3m", "5z", 1, 1, "", "1m4m", ("pon", "chi", "kan", "pon2"), False, "", 0),
         ("4m5m6m7m", "", 5, 5, "", "3m5m", ("pon", "chi", "kan"), False, "", 1),
         ("5p6p7p1z", "5p", 4, 4, "4p", "7p1z", ("pon", "north", "chi", "pon2"), True, "", 2),
         ("4s5s6s7s", "1z1z7z", 5, 5, "3s", "2s8s", ("kan", "pon"), True, "", 3),
         ("5m6m7m", "1m2m3m4p5p6p7s8s9s1z2z", 3, 3, "", "5m", (), False, "1z2z5m6m", 0),
         ("1z2z", "1m1m3m3m5p5p7p7p9s9s4s4s", 2, 2, "", "1z2z", (), True, "", 0),
         ("1m2m3m", "4m4m5m5m6m6m7p7p8p8p9p", 3, 3, "9p", "1m", (), False, "1m2m3m9p", 0),
         ("2p3p", "1m9m1p9p1s9s1z2z3z4z5z6z", 2, 2, "", "", (), False, "1m9p6z2p", 1)]
    if tier == "thorough":
        r += [("1s2s3s4s5s", "1z2z3z", 5, 5, "", "3s", ("kan", "pon"), False, "", 2), ("5m5p5s", "1m2m3m7p8p9p3s4s1z1z1z", 3, 3, "", "2s5s", (), False, "", 0),
              ("3m4m5m6m7m8m", "2p2p", 6, 6, "", "5m", ("pon", "chi"), True, "", 0),
              ("1m4m7m", "2p5p8p3s6s9s1z2z3z4z5z", 3, 3, "", "", (), False, "", 3), ("1p2p3p4p", "1p1p2p2p3p3p4p4p5p5p", 4, 4, "", "5p", (), False, "", 1)]
    return r


def cases(tier):
    q = len(rounds("quick"))
    return [Case("%s+%s.%d-%d.%s.%s.%d" % (w[0], w[1], w[2], w[3], "".join(x[0] for x in w[6]), "last" if w[7] else "first", w[9]), round_, *w, weight=len(w[1]), optional=n >= q)
            for n, w in enumerate(rounds(tier))]


BOUNDS = ["; ".join("%s+%s (%d free tiles), unseen copies of %s symbolic, melds %s" % (w[0], w[1], w[2], w[5] or "nothing", w[6] or "none") for w in rounds("quick")),
          "every discard of the hand (or the listed ones), both ends of the copies of a face (red and plain fives)"]
