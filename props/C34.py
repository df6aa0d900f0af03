"""Sampling the wall without replacement."""
import random
from symx.harness import Case
from .common import FACES, INDEX, mk_tile, face_of, prewarm, sym_tile

FUNCTIONS = ["StaticWall.__init__", "StaticWall.weight_of", "StaticWall.pick", "TileDistribution.weights", "TileDistribution.sample",
             "TileDistribution.ALL_TILES", "TileSet.__sub__"]
BOUNDS = ["walls over all 34 faces with symbolic counts 1..136, any tile picked, then any second tile", "walls over 3..4 faces with symbolic counts 0..4: samples of "
          "up to 3 (quick) / 4 (thorough) tiles, every outcome of the draws with positive weight; samples of 40, 70 and 136 tiles from two faces, one of which has at most one copy"]
ASSUMES = ["the wall holds at least as many tiles as are sampled", "random.choices returns one of the offered values with positive weight (its draw is a solver variable)"]
warm = prewarm


class Draw:
    """random.choices with the outcome chosen by the solver"""

    def __init__(self, h, expect):
        self.h = h
        self.expect = expect
        self.n = 0
        self.drawn = []

    def __call__(self, population, weights=None, *, cum_weights=None, k=1):
        h = self.h
        self.expect(population, weights)
        w = list(weights)
        out = []
        for _ in range(k):
            i = h.int("draw%d" % self.n, 0, len(population) - 1)
            self.n += 1
            support = [j for j in range(len(w)) if not (isinstance(w[j], int) and w[j] <= 0)]
            h.assume(h.any_([h.and_(i == j, w[j] > 0) for j in support]))
            i = h.value(i)
            self.drawn.append(population[i])
            out.append(population[i])
        return out


def with_draw(h, draw, f):
    """run f with the random source replaced"""
    old = random.choices
    random.choices = draw
    d = h.mod("mahjong.container.distribution")
    inner = getattr(d, "choices", None)
    if inner is not None:
        d.choices = draw
    try:
        return f(d)
    finally:
        random.choices = old
        if inner is not None:
            d.choices = inner


def pick(h):
    d = h.mod("mahjong.container.distribution")
    T = h.mod("mahjong.container.set").TileSet
    ts = T()
    c = []
    for i, f in enumerate(FACES):
        n = h.int("c.%d%s" % f, 1, 136)
        c.append(n)
        ts[mk_tile(h, f)] = n
    w = d.StaticWall(ts)
    t, i = sym_tile(h, "t", red=False)
    u, j = sym_tile(h, "u", red=False)
    h.check(h.all_([a == b for a, b in zip(w.weights(), c)]) if len(w.weights()) == 34 else False, "weights are the copies left")
    h.check([face_of(x) for x in d.TileDistribution.ALL_TILES] == FACES, "all 34 tiles, in order")
    w2 = w.pick(t)
    h.check(h.all_([w2.weight_of(x) == c[k] - (1 if k == i else 0) for k, x in enumerate(d.TileDistribution.ALL_TILES)]), "drawing lowers that count alone by one")
    h.check(h.all_([w.weight_of(x) == c[k] for k, x in enumerate(d.TileDistribution.ALL_TILES)]), "the original wall is left as it was")
    if h.branch(c[j] - (1 if j == i else 0) >= 1):
        w3 = w2.pick(u)
        for k in (i, j):
            h.check(w3.weight_of(d.TileDistribution.ALL_TILES[k]) == c[k] - (k == i) - (k == j), "second draw")
    h.check(h.all_([ts[mk_tile(h, f)] == n for f, n in zip(FACES, c)]), "the tile set given is unchanged")


def red(h):
    """a red five is a five of its suit for the wall"""
    d = h.mod("mahjong.container.distribution")
    ts = h.mod("mahjong.container.set").TileSet()
    c = []
    for i, f in enumerate(FACES):
        c.append(h.int("c.%d%s" % f, 1, 136))
        ts[mk_tile(h, f)] = c[-1]
    s = h.value(h.choice("suit", "mps"))
    t = mk_tile(h, (0, s))
    w = d.StaticWall(ts)
    i = INDEX[(5, s)]
    h.check(w.weight_of(t) == c[i], "weight of a red five")
    w2 = w.pick(t)
    h.check(h.all_([w2.weight_of(x) == c[k] - (1 if k == i else 0) for k, x in enumerate(d.TileDistribution.ALL_TILES)]), "drawing lowers that count alone by one")
    h.check(h.all_([w.weight_of(x) == c[k] for k, x in enumerate(d.TileDistribution.ALL_TILES)]), "the original wall is left as it was")


def sample(h, faces, hi, count):
    T = h.mod("mahjong.container.set").TileSet
    ts = T()
    c = [0] * 34
    total = 0
    for f in faces:
        n = h.int("c.%d%s" % f, *(hi[f] if isinstance(hi, dict) else (0, hi)))
        c[INDEX[f]] = n
        total = total + n
        ts[mk_tile(h, f)] = n
    h.assume(total >= count)
    left = list(c)

    def expect(population, weights):
        h.check(weights is not None and len(weights) == len(population), "one weight per tile")
        h.check([face_of(x) for x in population] == FACES, "drawn from all tiles")
        h.check(h.all_([a == b for a, b in zip(weights, left)]), "weights are the copies left")
    draw = Draw(h, expect)
    out = []

    def go(d):
        w = d.StaticWall(ts)
        for t in w.sample(count):
            k = INDEX[face_of(t)]
            h.check(face_of(draw.drawn[-1]) == face_of(t), "the drawn tile is delivered")
            h.check(left[k] >= 1, "every drawn tile had a positive weight")
            left[k] = left[k] - 1
            out.append(t)
        h.check(h.all_([w.weight_of(mk_tile(h, f)) == c[INDEX[f]] for f in faces]), "sampling leaves the wall as it was")
    with_draw(h, draw, go)
    h.check(len(out) == count, "sample size")
    h.check(h.all_([sum([1 for t in out if INDEX[face_of(t)] == k]) <= c[k] for k in range(34)]), "no more copies than the wall had")
    h.obs([str(t) for t in out])


def cases(tier):
    a = [(1, "m"), (2, "m"), (7, "z")]
    b = [(5, "s"), (6, "s"), (1, "z"), (9, "p")]
    r = [Case("pick", pick), Case("s1", sample, b, 4, 1), Case("s2", sample, a, 4, 2), Case("s3", sample, a, 4, 3), Case("red", red)]
    r += [Case("many", sample, a[1:], {(2, "m"): (30, 60), (7, "z"): (0, 1)}, 40), Case("all", sample, a[:2], {(1, "m"): (70, 70), (2, "m"): (0, 1)}, 70), Case("whole wall", sample, a[:2], {(1, "m"): (136, 136), (2, "m"): (0, 1)}, 136)]
    if tier == "thorough":
        r += [Case("s4", sample, a, 4, 4), Case("s3b", sample, b, 4, 3, optional=True), Case("s4b", sample, b, 4, 4, optional=True)]
    return r
