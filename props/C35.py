"""The win-rate demo, run from its prompts to its summary with every outcome of the draws."""
import io
import os
import random
import re
import sys
import warnings

from symx.harness import Case
from .C34 import Draw
from .common import FACES, INDEX, decomposition, face_of, fidx, prewarm

FUNCTIONS = ["win_rate_demo.main", "TileDistribution.sample", "StaticWall.weight_of/pick", "NormalTypeWin.match", "UniquePairs.match", "TileSet.__add__/__sub__", "tile_set_from_string"]
BOUNDS = ["eight hands of 14 tiles (far from, near and at a standard or seven-pairs win, with and without red fives)", "one experiment with one draw: every outcome of all 34 tiles",
          "one experiment of two draws and two and three experiments of one draw: every outcome among the tiles listed per hand", "experiments of 4 to 30 draws whose draws before the last are fixed (every outcome of the last one)", "a hand of another size and an empty count typed first"]
ASSUMES = ["random.choices returns one of the offered values with positive weight (its draw is a solver variable)", "floating-point arithmetic and eigenvectors are computed by numpy itself on each path; only the counts and the win rate are judged"]
OUTSIDE = ["the pick rates in the summary, the progress lines and the wall clock"]
warm = prewarm

HANDS = {
    "far": ("147m258p369s12345z", "6z 3m 1m 9p"),
    "near": ("123m456p789s1145z5p", "4z 5z 6p 1z 5p"),
    "turn": ("2345m345p345s2277z", "2m 7z 1m 5m 3p"),
    "pairs": ("1122m3344p5566s67z", "7z 6z 1m 5s"),
    "won": ("123m456p789s11222z", "1m 5z 1z 3s"),
    "red": ("123m0p46p789s11445z", "5p 4z 5z 1z"),
    "cycle": ("1223344566778m1z", "1m 3m 5m 9m 1z"),
    "four": ("23m456p789s223567z", "1m 2m 1z"),
    "gaps": ("1245m1245p1245s12z", "3m 6p 9s 2z 7z 2m"),
    "honor": ("11122233344z567m", "4z 8m 5m 1m"),
}


def count(text):
    c = [0] * 34
    ds = []
    for ch in text:
        if ch.isdigit():
            ds.append(ch)
        else:
            for d in ds:
                c[INDEX[(int(d) or 5, ch)]] += 1
            ds = []
    return c


def run(h, lines, draw):
    """main() with typed lines -> what it printed"""
    W = h.mod("mahjong.win_rate_demo")
    d = h.mod("mahjong.container.distribution")
    keep = random.choices, os.system, sys.stdin, sys.stdout, getattr(d, "choices", None)
    out = io.StringIO()
    random.choices = draw
    os.system = lambda *a, **k: 0
    sys.stdin, sys.stdout = io.StringIO("\n".join(lines) + "\n"), out
    if keep[4] is not None:
        d.choices = draw
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            W.main()
    finally:
        random.choices, os.system, sys.stdin, sys.stdout = keep[:4]
        if keep[4] is not None:
            d.choices = keep[4]
    return out.getvalue()


def wins(c):
    return decomposition(tuple(min(x, 9) for x in c), 4, 1) is not None or sum(1 for x in c if x >= 2) >= 7


def demo(h, hand, times, draws, only, typed=(), first=()):
    text, listed = HANDS[hand]
    start = count(text)
    assert sum(start) == 14, (hand, sum(start))
    faces = [fidx(x) for x in listed.split()] if only else None

    def expect(population, weights):
        left = [4 - x for x in start]
        for t in draw.drawn[len(draw.drawn) // draws * draws:]:
            left[INDEX[face_of(t)]] -= 1
        h.check([face_of(x) for x in population] == FACES and list(weights) == left, "drawn from the tiles outside the hand")

    class Some(Draw):
        def __call__(self, population, weights=None, **k):
            if len(self.drawn) % draws < len(first):
                self.expect(population, weights)
                i = first[len(self.drawn) % draws]
                h.check(weights[i] > 0, "a tile that is left can be drawn")
                self.drawn.append(population[i])
                return [population[i]]
            if faces is not None:
                h.assume(h.any_([h.int("draw%d" % self.n, 0, 33) == f for f in faces]))
            return Draw.__call__(self, population, weights, **k)
    draw = Some(h, expect)
    try:
        out = run(h, list(typed) + [text, str(draws), str(times)], draw)
    except (ZeroDivisionError, TypeError, ValueError, IndexError, KeyError, StopIteration) as e:
        h.check(False, "the demo produces its summary")
    h.check(len(draw.drawn) == times * draws, "experiments and draws as asked for")
    found = re.findall(r"discard (\S+): (\S+)% win rate \((\d+)/(\d+)\)", out)
    want = {}
    for i, n in enumerate(start):
        if n:
            k = 0
            for e in range(times):
                c = list(start)
                c[i] -= 1
                for t in draw.drawn[e * draws:(e + 1) * draws]:
                    c[INDEX[face_of(t)]] += 1
                k += wins(c)
            want[i] = k
    got = {}
    for tile, rate, k, n in found:
        i = fidx(tile.replace("0", "5"))
        h.check(i not in got, "one line per discard")
        got[i] = int(k)
        h.check(int(n) == times, "the number of experiments")
        h.check(abs(float(rate) - int(k) * 100 / times) <= 0.00501, "the rate is the count over the experiments")
    h.check(sorted(got) == sorted(want), "one line for every tile that can be discarded")
    h.check(got == want, "the count of winning experiments")
    h.obs([sorted(got.items())])


def forced(hand, n):
    """the first draws of a long experiment: tiles still in the wall, three and four of a kind among them"""
    left = [4 - x for x in count(HANDS[hand][0])]
    out = []
    for f in [33, 33, 33, 0, 8, 30, 31, 17, 17, 17, 17, 26, 2, 20, 5, 13, 9, 32] * 2 + list(range(34)) * 2:
        if left[f] and len(out) < n:
            left[f] -= 1
            out.append(f)
    return tuple(out)


# twenty draws without a win: single tiles without a run, three triplets
NOTHING = tuple(fidx(x) for x in "7m 8m 7p 8p 7s 8s 3z 4z 5z 6z 7z 1m 1m 1m 1p 1p 1p 1s 1s 2z".split())


def cases(tier):
    r = [Case("%s.1.1" % k, demo, k, 1, 1, False) for k in HANDS]
    r += [Case("%s.2.1" % k, demo, k, 2, 1, True) for k in HANDS]
    r += [Case("%s.1.2" % k, demo, k, 1, 2, True) for k in HANDS]
    r += [Case("%s.3.1" % k, demo, k, 3, 1, True) for k in ("near", "turn", "cycle")]
    for k, f in (("far", 3), ("near", 8), ("turn", 17), ("won", 23), ("honor", 29)):
        r.append(Case("%s.1.%d.all" % (k, f + 1), demo, k, 1, f + 1, False, (), forced(k, f)))
    r += [Case("four.1.4", demo, "four", 1, 4, False, (), (0, 0, 0)), Case("four.1.8", demo, "four", 1, 8, False, (), (0, 31, 0, 17, 0, 9, 33))]
    r.append(Case("near.2.9", demo, "near", 2, 9, True, (), forced("near", 8)))
    r += [Case("gaps.1.21", demo, "gaps", 1, 21, True, (), NOTHING), Case("gaps.2.21", demo, "gaps", 2, 21, True, (), NOTHING)]
    r += [Case("retry", demo, "near", 1, 1, True, ("123m", ""))]
    r += [Case("near.2.1.all", demo, "near", 2, 1, False), Case("pairs.1.2.all", demo, "pairs", 1, 2, False)]
    if tier == "thorough":
        r += [Case("%s.%d.%d.all" % (k, a, b), demo, k, a, b, False, optional=True) for k in HANDS for a, b in ((2, 1), (1, 2))]
        r += [Case("%s.1.3" % k, demo, k, 1, 3, True, optional=True) for k in HANDS]
    return r
