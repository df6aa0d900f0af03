"""A scripted game of full length: a fixed deal, every player drawing, discarding and calling
whatever can be called.  One tile that is drawn, kept for a while and discarded is symbolic."""
from .events import DISCARD, DRAW, Ev, Fact


class Op:
    def __init__(self, kind, who=None, tile=None, own=(), taken=(), code=None, meld=None, source=None, step=None):
        self.kind, self.who, self.tile, self.own, self.taken, self.code, self.meld, self.source, self.step = kind, who, tile, list(own), list(taken), code, meld, source, step


def script(n, seed, turns, hole=None):
    """-> (hands, first indicator, operations); hole: the number standing for the symbolic tile"""
    state = [seed]

    def rnd(k):
        state[0] = (state[0] * 1103515245 + 12345) % 2147483648
        return state[0] // 65536 % k
    wall = [t for t in range(136) if n == 4 or not 1 <= t // 4 <= 7]
    for i in range(len(wall) - 1, 0, -1):
        j = rnd(i + 1)
        wall[i], wall[j] = wall[j], wall[i]
    hands = [[wall.pop() for _ in range(13)] for _ in range(n)]
    deal = [list(x) for x in hands]
    doras = [wall.pop() for _ in range(5)]
    ops = []
    pons = [{} for _ in range(n)]
    closed_hand = [True] * n
    shown = 1
    riichi = []
    p = 0
    call = None
    kept = None         # the tile the hole stands for

    def same(q, t, k=99):
        return [x for x in sorted(hands[q]) if x // 4 == t // 4 and x != kept][:k]
    for turn in range(turns):
        if not wall:
            break
        if call is None:
            while True:
                t = wall.pop()
                if hole is not None and kept is None and turn >= turns // 3:
                    kept = t
                ops.append(Op("draw", p, t))
                hands[p].append(t)
                again = False
                if n == 3 and t // 4 == 30 and t != kept:
                    ops.append(Op("call", p, None, [t], [], 32 + 256 * t, "north"))
                    hands[p].remove(t)
                    again = True
                elif len(same(p, t)) == 4 and shown < 5:
                    own = same(p, t)
                    ops.append(Op("call", p, None, own, [], 256 * t, "closed", p))
                    for x in own:
                        hands[p].remove(x)
                    again = True
                elif t // 4 in pons[p] and t != kept and shown < 5:
                    kui, w = pons[p][t // 4]
                    ops.append(Op("call", p, None, [t], [], kui + 16 + 32 * (t % 4) + 512 * (3 * (t // 4) + w), "added", (p + kui) % 4))
                    hands[p].remove(t)
                    again = True
                if not again or not wall:
                    break
                if ops[-1].meld != "north":
                    ops.append(Op("dora", None, doras[shown]))
                    shown += 1
        call = None
        if closed_hand[p] and p not in riichi and len(riichi) < 2 and turn > turns // 2:
            riichi.append(p)
            ops.append(Op("reach", p, step=1))
            step2 = True
        else:
            step2 = False
        if p in riichi:
            d = hands[p][-1]
        elif kept in hands[p] and turn > turns * 2 // 3:
            d = kept
        else:
            pool = [x for x in hands[p] if x != kept] or hands[p]
            d = pool[rnd(len(pool))]
        hands[p].remove(d)
        ops.append(Op("discard", p, d))
        if step2:
            ops.append(Op("reach", p, step=2))
        if turn % 17 == 5:
            ops.append(Op("bye", (p + 1) % n))
        if turn % 17 == 9:
            ops.append(Op("back", (p + 2) % n))
        nxt = (p + 1) % n
        if d != kept:
            for k in range(1, n):
                q = (p + k) % n
                if q in riichi:
                    continue
                f = d // 4
                have = same(q, d)
                kui = (p - q) % 4
                if len(have) == 3 and shown < 5:
                    own = have
                    ops.append(Op("call", q, None, own, [d], kui + 256 * d, "open", p))
                    for x in own:
                        hands[q].remove(x)
                    ops.append(Op("dora", None, doras[shown]))
                    shown += 1
                    closed_hand[q] = False
                    nxt = q
                    break
                if len(have) >= 2 and rnd(3):
                    own = have[:2]
                    three = sorted(own + [d])
                    u = [x for x in range(4) if 4 * f + x not in three][0]
                    w = three.index(d)
                    ops.append(Op("call", q, None, own, [d], kui + 8 + 32 * u + 512 * (3 * f + w), "pon", p))
                    for x in own:
                        hands[q].remove(x)
                    pons[q][f] = (kui, w)
                    closed_hand[q] = False
                    nxt, call = q, "pon"
                    break
                if k == 1 and n == 4 and f < 27 and rnd(4) == 0:
                    done = False
                    for b in (f - 2, f - 1, f):
                        if b < 0 or b // 9 != f // 9 or b % 9 > 6:
                            continue
                        run = []
                        for g in (b, b + 1, b + 2):
                            xs = [d] if g == f else [x for x in hands[q] if x // 4 == g and x != kept]
                            run.append(xs[0] if xs else None)
                        if None in run:
                            continue
                        own = [x for x in run if x != d]
                        c = 3 + 4 + 8 * (run[0] % 4) + 32 * (run[1] % 4) + 128 * (run[2] % 4) + 1024 * (3 * (7 * (b // 9) + b % 9) + run.index(d))
                        ops.append(Op("call", q, None, own, [d], c, "chi", p))
                        for x in own:
                            hands[q].remove(x)
                        closed_hand[q] = False
                        nxt, call = q, "chi"
                        done = True
                        break
                    if done:
                        break
        p = nxt
    for o in ops:
        if kept is not None and o.tile == kept:
            o.tile = hole
    return deal, doras[0], ops


def element(o):
    """the operation as an XML element stand-in and a fact for the state trackers"""
    if o.kind in ("draw", "discard"):
        return Ev("%s%s" % ((DRAW if o.kind == "draw" else DISCARD)[o.who], o.tile)), Fact(o.kind, o.who, o.tile)
    if o.kind == "call":
        return Ev("N", {"who": str(o.who), "m": str(o.code)}), Fact("meld", o.who, None, o.own, o.taken, meld=o.meld, source=o.source, code=o.code)
    if o.kind == "dora":
        return Ev("DORA", {"hai": str(o.tile)}), Fact("dora", None, o.tile)
    if o.kind == "reach":
        return Ev("REACH", {"who": str(o.who), "step": str(o.step)}), Fact("reach", o.who)
    if o.kind == "bye":
        return Ev("BYE", {"who": str(o.who)}), Fact("other")
    return Ev("UN", {"n%d" % o.who: "again"}), Fact("other")


def start(n, hands, dora, k=0, oya=0):
    a = {"seed": "%d,0,0,2,3,%d" % (k, dora), "ten": "250,250,250,250", "oya": str(oya)}
    for p in range(4):
        a["hai%d" % p] = ",".join([str(x) for x in hands[p]]) if p < n else ""
    return Ev("INIT", a), Fact("init", hands=hands, dora=dora, round=k)


def play(w, o):
    """the operation in a World"""
    if o.kind == "draw":
        w.draw(o.who, o.tile)
    elif o.kind == "discard":
        w.discard(o.who, o.tile)
    elif o.kind == "call":
        w.meld(o.who, o.code, o.own, o.taken, north=o.meld == "north")
    elif o.kind == "dora":
        w.dora(o.tile)
    elif o.kind == "reach":
        w.reach(o.who, o.step)
    elif o.kind == "bye":
        w.bye(o.who)
    else:
        w.un({o.who: "again"})


GAMES = {4: (14, 17, 42), 3: (3, 16, 55)}
TURNS = {4: 64, 3: 54}


def games(h, n, many, lo=0, hi=135):
    """several games one after another: [(start element, fact, operations)], each with its own symbolic tile"""
    out = []
    for i, seed in enumerate(GAMES[n][:many]):
        t = h.int("tile%d" % i, lo, hi)
        hands, dora, ops = script(n, seed, TURNS[n], t)
        out.append((start(n, hands, dora, i, i % n), ops, hands, dora))
    return out


def stream(h, n, many):
    """the games as one list of (element, fact), each closed by a result"""
    evs = []
    for (e, f), ops, _, _ in games(h, n, many):
        evs.append((e, f))
        evs += [element(o) for o in ops]
        evs.append((Ev("RYUUKYOKU", {"ba": "0,0", "sc": "250,0,250,0,250,0,250,0"}), Fact("drawn")))
    return evs


def record(h, n, many, label, when, lo=12, hi=19):
    """the games through the translator; when: kinds of operations after which the whole visible state is compared"""
    from .world import World
    w = World(h, n)
    w.ignore |= {"is_win", "is_discard_lose_game", "faans"}
    w.taikyoku(0)
    w.un({p: "n%d" % p for p in range(n)})
    for i, ((e, f), ops, hands, dora) in enumerate(games(h, n, many, lo, hi)):
        ten = [h.int("ten%d.%d" % (i, p), 0, 999) for p in range(n)] + [0] * (4 - n)
        w.init(i, 0, 0, dora, i % n, ten, hands)
        if "init" in when:
            w.check(label + ": start of a game")
        for j, o in enumerate(ops):
            play(w, o)
            if o.kind in when or (o.meld and o.meld in when) or ("some" in when and j % 12 == 11):
                w.check("%s: %s" % (label, o.meld or o.kind))
        w.check(label + ": end of a game")
    return w
