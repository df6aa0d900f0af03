"""Persistent state dictionaries."""
from symx.harness import Case

FUNCTIONS = ["TransferDict.__init__", "TransferDict.transfer_value", "TransferDict.set", "TransferDict.setdefault", "TransferDict.drop",
             "TransferDict.flatten_iter", "TransferDict.flatten", "TransferDict.__getitem__/__contains__/__getattr__"]
BOUNDS = ["nested states of depth 3 with every subset of 5 leaves present, leaf values symbolic or missing", "one operation of every kind at every position and key",
          "sequences of 2 (quick) / 3 (thorough) operations, each applied to any state obtained so far (also a view taken from an older state)"]
ASSUMES = ["drop is applied to a key that is present"]


def leaf(h, name, d, key):
    if h.branch(h.bool("has." + name)):
        d[key] = None if name in ("g.x", "r.y") and h.branch(h.bool("none." + name)) else h.int(name, -9, 9)


def start(h, full):
    g, q = {}, {}
    root = {"g": g, "p": {"q": q, "r": {}}}
    leaf(h, "g.x", g, "x")
    leaf(h, "q.x", q, "x")
    leaf(h, "x", root, "x")
    if full:
        leaf(h, "g.y", g, "y")
        leaf(h, "r.y", root["p"]["r"], "y")
    return root


def copy(d):
    return {k: copy(v) if isinstance(v, dict) else v for k, v in d.items()}


def leaves(d, pre=()):
    r = {}
    for k, v in d.items():
        if isinstance(v, dict):
            r.update(leaves(v, pre + (k,)))
        else:
            r[pre + (k,)] = v
    return r


def reads_as(h, ex, state, want):
    """the whole state reads as the nested dict `want`"""
    if len(list(state.keys())) != len(want):
        return False
    out = []
    for k, v in want.items():
        if k not in state:
            return False
        x = state[k]
        if isinstance(v, dict):
            if not isinstance(x, ex.TransferDict):
                return False
            out.append(reads_as(h, ex, x, v))
        else:
            if isinstance(x, ex.TransferDict):
                return False
            out.append(equal(x, v))
    return h.all_(out)


def equal(x, v):
    return x is v if x is None or v is None else x == v


def flat_ok(h, state, want):
    got = list(state.flatten_iter())
    L = leaves(want)
    if sorted(p for p, _ in got) != sorted(L):
        return False
    return h.all_([equal(v, L[p]) for p, v in got])


def at(state, path):
    for k in path:
        state = state[k]
    return state


POS = [(), ("g",), ("p", "q"), ("p",), ("p", "r")]


def step(h, ex, states, n, pos, keys):
    """states: list of (TransferDict, model). Applies one operation, appends the result"""
    i = h.value(h.int("s%d.of" % n, 0, len(states) - 1)) if len(states) > 1 else 0
    s, m = states[i]
    path = pos[h.value(h.int("s%d.pos" % n, 0, len(pos) - 1))]
    key = keys[h.value(h.int("s%d.key" % n, 0, len(keys) - 1))]
    op = h.value(h.int("s%d.op" % n, 0, 2))
    v = h.int("s%d.v" % n, 10, 19)
    view = at(s, path)
    new = copy(m)
    d = at(new, path)
    if op == 0:
        r = view.set(key, v)
        d[key] = v
    elif op == 1:
        r = view.setdefault(key, v)
        d.setdefault(key, v)
    else:
        h.assume(key in d)
        r = view.drop(key)
        del d[key]
    h.check(isinstance(r, ex.TransferDict), "an operation returns a state")
    h.check(reads_as(h, ex, r, new), "the new whole state differs in that key only")
    h.check(flat_ok(h, r, new), "flattening lists precisely the leaves with their paths")
    for t, w in states:
        h.check(reads_as(h, ex, t, w), "earlier states still read as before")
    states.append((r, new))


def run(h, steps, pos, keys, full):
    ex = h.mod("mahjong.record.universe.executor")
    root = start(h, full)
    states = [(ex.TransferDict(root), copy(root))]
    h.check(reads_as(h, ex, states[0][0], root), "a state reads as the dictionary it was built from")
    for n in range(steps):
        step(h, ex, states, n, pos, keys)
    h.obs([[sorted(leaves(m).items()) for _, m in states]])


def text(h):
    """flatten(): every leaf under its full path, as text"""
    ex = h.mod("mahjong.record.universe.executor")
    F = h.mod("mahjong.record.universe.format")
    a, b, c = h.int("a", -9, 9), h.int("b", 0, 90), h.bool("c")
    s = ex.TransferDict({"global": {"time": {"timestamp": a}}, F.ViewScope.game: {"single": {F.GameView.round: b, F.GameView.nobody_win: h.branch(c), F.GameView.dealer: None, F.GameView.extra_reason: None}}})
    f = s.flatten()
    h.check(len(f) == 5, "one entry per leaf")
    h.check(f[(F.ViewScope.game, "single", F.GameView.dealer)] == "null" and f[(F.ViewScope.game, "single", F.GameView.extra_reason)] is None, "missing values")
    h.check(f[("global", "time", "timestamp")] == str(a), "number leaf")
    h.check(f[(F.ViewScope.game, "single", F.GameView.round)] == str(b), "property leaf")
    h.check(f[(F.ViewScope.game, "single", F.GameView.nobody_win)] == ("true" if h.branch(c) else "false"), "flag leaf")


def cases(tier):
    r = [Case("one", run, 1, POS, ["x", "y", "n"], True), Case("two", run, 2, POS[:3], ["x", "n"], False), Case("text", text)]
    if tier == "thorough":
        r.append(Case("three", run, 3, POS[:3], ["x", "n"], False, optional=True))
        r.append(Case("twofull", run, 2, POS, ["x", "y", "g"], True, optional=True))
    return r
