"""Scoped command defaults."""
from symx.harness import Case

FUNCTIONS = ["Builder.__init__", "Builder.when", "Builder.__call__", "StackedDict.merged_dict", "ContextStacker.__enter__/__exit__", "GameCommand.__init__"]
BOUNDS = ["three nested scopes, each giving any subset of 3 fields with symbolic values, calls with any subset at every level, before, inside and after, "
          "leaving normally or through an exception", "a constructor that fails", "values that count as nothing (none, zero, false, empty text, empty list)", "eight kinds of errors at three places", "a scope object created early, entered late, entered twice"]
ASSUMES = ["scopes are entered and left in nested order (with statements)"]

FIELDS = ("a", "b")


class Boom(Exception):
    pass


def given(h, name, fields=FIELDS):
    """any subset of the fields with symbolic values"""
    d = {}
    for f in fields:
        if h.branch(h.bool("%s.has.%s" % (name, f))):
            d[f] = h.int("%s.%s" % (name, f), -5, 5)
    return d


def same(h, got, want):
    return h.all_([got[k] == v for k, v in want.items()]) if sorted(got) == sorted(want) else False


def mk(**kw):
    return kw


def nested(h, depth, fail, fields):
    B = h.mod("mahjong.record.utils.builder").Builder
    b = B(mk)
    scopes = [given(h, "s%d" % i, fields) for i in range(depth)]
    call = given(h, "call", fields)

    def check(level, tag):
        want = {}
        for s in scopes[:level]:
            want.update(s)
        h.check(same(h, b(), want), "defaults are the enclosing scopes, " + tag)
        w2 = dict(want)
        w2.update(call)
        h.check(same(h, b(**call), w2), "call values come first, " + tag)
        h.check(same(h, b(), want), "call values never leak, " + tag)

    def go(level):
        check(level, "inside")
        if level < depth:
            try:
                with b.when(**scopes[level]):
                    go(level + 1)
                    if fail == level:
                        raise Boom()
            except Boom:
                h.check(fail >= level, "exceptions pass through")
                check(level, "after an exception")
                if fail != level:
                    raise
            check(level, "after leaving")
    go(0)
    h.obs([sorted(call.items())])


def ctor_fails(h):
    """a failing constructor leaves the defaults alone"""
    B = h.mod("mahjong.record.utils.builder").Builder
    mode = [True]

    def ctor(**kw):
        if mode[0]:
            raise Boom()
        return kw
    b = B(ctor)
    s, call = given(h, "s"), given(h, "call")
    with b.when(**s):
        try:
            b(**call)
            h.check(False, "constructor errors are passed on")
        except Boom:
            pass
        mode[0] = False
        h.check(same(h, b(), s), "defaults after a failed call")
    h.check(same(h, b(), {}), "defaults after leaving")


def reuse(h):
    """a scope has effect only while entered, also when entered twice"""
    B = h.mod("mahjong.record.utils.builder").Builder
    b = B(mk)
    x, y = given(h, "x"), given(h, "y")
    early = b.when(**x)
    h.check(same(h, b(), {}), "a scope not entered has no effect")
    for n in range(2):
        with b.when(**y):
            with early:
                w = dict(y)
                w.update(x)
                h.check(same(h, b(), w), "inner scope first")
            h.check(same(h, b(), y), "outer scope restored")
        h.check(same(h, b(), {}), "nothing left over")
    with early:
        with b.when(**y):
            w = dict(x)
            w.update(y)
            h.check(same(h, b(), w), "entered again, other way round")
    h.check(same(h, b(), {}), "nothing left over")
    # two builders do not share defaults
    c = B(mk)
    with b.when(**x):
        h.check(same(h, c(), {}), "builders are independent")
        with c.when(**y):
            h.check(h.and_(same(h, c(), y), same(h, b(), x)), "builders are independent")


def commands(h):
    """real commands"""
    F = h.mod("mahjong.record.universe.format")
    G = h.mod("mahjong.record.universe.command").GameCommand
    cmd = h.mod("mahjong.record.utils.builder").Builder(G)
    v1, v2, who, t = h.int("v1", -5, 5), h.int("v2", -5, 5), h.int("who", 0, 3), h.int("t", 0, 9)
    inner_value = h.branch(h.bool("inner"))
    call_value = h.branch(h.bool("call"))
    with cmd.when(update=F.Update.REPLACE, value=v1):
        with cmd.when(sub_scope=who, **({"value": v2} if inner_value else {})):
            kw = {"value": t} if call_value else {}
            c = cmd(prop=F.PlayerView.score, **kw)
            h.check(h.and_(c.value == (t if call_value else v2 if inner_value else v1), c.sub_scope_id == who), "fields of a command")
            h.check(c.prop.update_method is F.Update.REPLACE and c.prop.view_property is F.PlayerView.score and c.event is None and c.timestamp is None
                    and c.state is None, "other fields")
        c = cmd(prop=F.GameView.round)
        h.check(h.and_(c.value == v1, c.sub_scope_id == "all"), "outer scope restored")


ODD = [None, 0, False, "", [], "all"]
ERRORS = [Boom, StopIteration, KeyError, AttributeError, ValueError, AssertionError, GeneratorExit, KeyboardInterrupt]


def odd(h):
    """values that count as nothing in Python are values like others"""
    B = h.mod("mahjong.record.utils.builder").Builder
    b = B(mk)

    def one(name, fields):
        return {f: h.choice("%s.%s" % (name, f), ODD) for f in fields if h.branch(h.bool("%s.has.%s" % (name, f)))}

    def check(want, tag, **call):
        got = b(**call)
        want = dict(want, **call)
        h.check(sorted(got) == sorted(want) and all(got[k] is want[k] for k in want), "empty values are values, " + tag)
    x, y, z = one("x", ("a", "b")), one("y", ("a",)), one("z", ("a",))
    with b.when(**x):
        with b.when(**y):
            check(dict(x, **y), "call", **z)
            check(dict(x, **y), "inner")
        check(x, "outer")
    check({}, "outside")


def error(h):
    """an error of any kind leaves every scope and reaches the caller"""
    B = h.mod("mahjong.record.utils.builder").Builder
    b = B(mk)
    kind = h.choice("error", ERRORS)
    at = h.value(h.int("at", 0, 2))
    x, y, z = given(h, "x"), given(h, "y"), h.int("z", -5, 5)
    raised = kind("x")
    seen = []

    def ctor(**kw):
        raise raised
    c = B(ctor)
    try:
        with b.when(**x):
            try:
                with b.when(**y):
                    if at == 0:
                        raise raised
                    if at == 1:
                        with c.when(a=z):
                            c(b=z)
                h.check(at == 2, "errors reach the caller")
            except kind as e:
                seen.append(e)
                h.check(same(h, b(), x), "defaults after an error inside")
                raise
            raise raised
        h.check(False, "errors reach the caller")
    except kind as e:
        seen.append(e)
    h.check(all(e is raised for e in seen) and len(seen) == (1 if at == 2 else 2), "the same error reaches the caller")
    h.check(same(h, b(), {}), "defaults after all errors")
    with b.when(**y):
        h.check(same(h, b(), y), "scopes work after an error")


def cases(tier):
    r = [Case("d1", nested, 1, 9, ("a", "b", "c")), Case("fail1", nested, 1, 0, FIELDS), Case("ctor", ctor_fails), Case("reuse", reuse), Case("commands", commands), Case("odd", odd), Case("error", error),
         Case("d2", nested, 2, 9, FIELDS), Case("fail2.0", nested, 2, 0, FIELDS), Case("fail2.1", nested, 2, 1, FIELDS), Case("d3", nested, 3, 9, FIELDS)]
    if tier == "thorough":
        r += [Case("d3f%d" % f, nested, 3, f, FIELDS) for f in (0, 1, 2)] + [Case("d2abc", nested, 2, 9, ("a", "b", "c"))]
    return r
