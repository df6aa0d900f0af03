"""Dora map and initial wall."""
from symx.harness import Case
from .common import FACES

FUNCTIONS = ["doras", "initial_tiles", "_dora_map construction", "_player_4_tiles/_player_3_tiles construction"]
BOUNDS = ["every indicator tile (37), every pair and every triple of indicators (quick: pairs), and 3..10 indicators of which all but one are the same; every rule set (3/4 players, red fives on/off), "
          "every sequence of 3 (quick) / 4 (thorough) wall computations"]
ASSUMES = []

ALL = ["%d%s" % f for f in FACES] + ["0m", "0p", "0s"]


def dora_of(t):
    n, s = int(t[0]), t[1]
    if s == "z":
        return ["%dz" % ({1: 2, 2: 3, 3: 4, 4: 1, 5: 6, 6: 7, 7: 5}[n])]
    n = 5 if n == 0 else n
    m = n % 9 + 1
    return ["%d%s" % (m, s)] + (["0" + s] if m == 5 else [])


def dora(h, n):
    m = h.mod("mahjong.record.const")
    ind = [ALL[h.value(h.int("t%d" % k, 0, 36))] for k in range(n)]
    want = [d for t in ind for d in dora_of(t)]
    got = m.doras(ind)
    h.check(sorted(got) == sorted(want), "dora of the indicators")
    got.append("x")
    h.check(sorted(m.doras(ind)) == sorted(want), "asking again gives the same dora")
    h.obs(want)


def many(h, n):
    """many indicators, mostly the same tile"""
    m = h.mod("mahjong.record.const")
    t, u = ALL[h.value(h.int("t", 0, 36))], h.choice("u", ["3z", "4m", "9s", "0p"])
    ind = [t] * n
    ind[h.choice("at", sorted({0, n // 2, n - 1}))] = u
    want = [d for t in ind for d in dora_of(t)]
    h.check(sorted(m.doras(ind)) == sorted(want), "dora of the indicators")
    h.obs(want)


def wall_of(players, aka):
    w = {}
    for n, s in FACES:
        if players == 3 and s == "m" and 2 <= n <= 8:
            continue
        w["%d%s" % (n, s)] = 4
    if aka:
        for s in "mps":
            if players == 3 and s == "m":
                continue
            w["5" + s] -= 1
            w["0" + s] = 1
    return w


def wall(h, n):
    m = h.mod("mahjong.record.const")
    for k in range(n):
        p = 3 if h.branch(h.bool("three%d" % k)) else 4
        a = h.branch(h.bool("aka%d" % k))
        t = m.initial_tiles(p, a)
        c = {}
        for x in t:
            c[x] = c.get(x, 0) + 1
        h.check(c == wall_of(p, a), "initial wall")
        t.append("5m")
        t.clear()
    h.obs(sorted(c.items()))


def cases(tier):
    r = [Case("dora1", dora, 1), Case("dora2", dora, 2), Case("wall", wall, 4 if tier == "thorough" else 3)]
    r += [Case("many.%d" % n, many, n) for n in (3, 4, 5, 8, 10)]
    if tier == "thorough":
        r.append(Case("dora3", dora, 3, optional=True))
    return r
