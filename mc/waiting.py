"""Shared exploration for C03 (waiting step), C04 (useful tiles), C05 (per-discard analysis)."""
from . import domains as D
from .core import Violation
from .impl import api
from .ref import dist, hands as H

_cache = {}


def oracle(shape, rule):
    """hand -> (missing, useful kinds)"""
    key = (shape, rule)
    if key in _cache:
        return _cache[key]
    if shape[0] == "pairs":
        n = shape[1]
        miss, useful = (lambda h: dist.pairs_missing(h, n)), (lambda h: dist.pairs_useful(h, n))
    elif rule:
        if "tables" not in _cache:
            _cache["tables"] = dist.Distance(4, 2 if shape[2] > 1 else 1)
        if shape[2] > _cache["tables"].max_p:
            _cache["tables"] = dist.Distance(4, 2)
        m, p = shape[1], shape[2]
        miss = lambda h: _cache["tables"].missing(h, m, p)
        useful = lambda h: _cache["tables"].useful(h, m, p)
    else:
        if "free" not in _cache:
            _cache["free"] = dist.Distance(2, 1, rule=False)
        m, p = shape[1], shape[2]
        miss = lambda h: _cache["free"].missing(h, m, p)
        useful = lambda h: _cache["free"].useful(h, m, p)
    _cache[key] = (miss, useful)
    return _cache[key]


def analyser(name, shape):
    a = api()
    cls = {"heuristic": a.reasoning.HeuristicPatternMatchWaiting, "pattern": a.reasoning.PatternMatchWaiting,
           "brute": a.reasoning.BruteForceWaiting}[name]
    return cls(a.win(shape))


def spaces(tier, scale):
    """scale: 1 for one cheap call per hand, 0 for the dearest checks."""
    deep = tier == "thorough"
    s = D.Space(400)
    N = "normal"
    for suit, ks in D.SUIT.items():
        for total, shapes in ((1, [(0, 1)]), (2, [(1, 0), (0, 1)]), (3, [(1, 0), (0, 2)]), (4, [(1, 1), (0, 2)]),
                              (5, [(1, 1), (2, 0)]), (7, [(2, 1)]), (8, [(2, 1), (3, 0)])):
            for m, p in shapes:
                s.add("suit-" + suit, ks, total, (N, m, p), extra="pattern" if total <= 4 else "", brute=total <= 4)
        for total, shapes in ((10, [(3, 1)]), (11, [(3, 1), (4, 0)]), (13, [(4, 1)]), (14, [(4, 1)])):
            for m, p in shapes:
                full = deep or total == 10 and suit == "p" and scale
                s.add("suit-" + suit, ks, total, (N, m, p),
                      cap=4 if full else 3 if total == 10 and scale else 2)
        s.add("suit-" + suit, ks, 5, ("pairs", 3), extra="pattern")
        s.add("suit-" + suit, ks, 8, ("pairs", 4))
        # the four-copies rule off: wins may need a fifth copy
        s.add("free-" + suit, ks, 4, (N, 1, 1), rule=0, extra="pattern")
        s.add("free-" + suit, ks, 5, (N, 2, 0), rule=0, chunk=100)
        s.add("free-" + suit, ks, 7, (N, 2, 1), rule=0, cap=4 if deep else 3 if scale or suit == "m" else 2, chunk=100)
        s.add("free4-" + suit, ks[:4], 8, (N, 2, 1), rule=0, chunk=60)
    for total in (1, 2, 3, 4, 5, 7, 8):
        for shape in ((N, 0, 1), (N, 1, 0), (N, 1, 1), (N, 2, 1), ("pairs", 4)):
            if H.need(shape) - 1 <= total <= H.need(shape) + 2:
                s.add("honours", D.HONOUR, total, shape, extra="pattern" if total <= 3 else "")
    s.add("free-z", D.HONOUR, 4, (N, 1, 1), rule=0, extra="pattern", brute=1)
    s.add("free-z", D.HONOUR, 5, (N, 2, 0), rule=0, chunk=100)
    for total in (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4) if scale else (1, 2, 3):
        for shape in ((N, 0, 1), (N, 1, 0), (N, 1, 1), ("pairs", 2)):
            if H.need(shape) - 1 <= total <= H.need(shape) + 2:
                s.add("all", D.ALL, total, shape, brute=total <= 2)
    for name, ks in D.BORDERS.items():
        s.add(name, ks, 4, (N, 1, 1), extra="pattern", variants=1, brute=1)
        s.add(name, ks, 5, (N, 1, 1), variants=1)
        s.add(name, ks, 7, (N, 2, 1), variants=1)
        s.add(name, ks, 8, (N, 2, 1))
        s.add(name, ks, 10, (N, 3, 1), cap=4 if deep else 3, chunk=100)
        s.add(name, ks, 11, (N, 3, 1), cap=4 if deep else 3, chunk=100)
        s.add(name, ks, 13, (N, 4, 1), cap=4 if deep else 3, chunk=60)
        s.add(name, ks, 14, (N, 4, 1), cap=4 if deep else 3, chunk=60)
        s.add(name, ks, 13, ("pairs", 7), cap=4 if deep else 3, chunk=60)
        s.add(name, ks + D.kinds("6z"), 14, ("pairs", 7), cap=3 if deep else 2, chunk=60)
        s.add(name, ks, 8, (N, 2, 1), rule=0, cap=4 if deep else 2, chunk=30)
    for name, ks in D.SPARSE.items():
        if not scale and not deep:
            ks = ks[1:9]
        s.add(name, ks, 4, (N, 1, 1), chunk=200)
        s.add(name, ks, 7, (N, 2, 1), cap=4 if deep else 2, chunk=200)
        s.add(name, ks, 8, (N, 2, 1), cap=4 if deep else 2, chunk=200)
        s.add(name, ks, 10, (N, 3, 1), cap=2, chunk=100)
        s.add(name, ks, 13, (N, 4, 1), cap=3 if deep else 2, chunk=40)
        s.add(name, ks, 14, (N, 4, 1), cap=3 if deep else 2, chunk=40)
        s.add(name, ks, 13, ("pairs", 7), cap=2, chunk=40)
    # many kinds held four times: parts that no tile of the hand can start
    for name, ks in (("quads1", D.kinds("1z2z3z9m1p")), ("quads2", D.kinds("1m5m9m4z7z"))):
        for total, shapes in ((4, [(1, 1)]), (5, [(2, 0), (1, 1)]), (7, [(2, 1)]), (8, [(3, 0), (2, 1)]), (10, [(3, 1)]),
                              (11, [(4, 0), (3, 1)]), (13, [(4, 1)]), (14, [(4, 1)])):
            for m, p in shapes:
                s.add(name, ks, total, (N, m, p), chunk=60)
    for total, shapes in ((10, [(N, 3, 1)]), (11, [(N, 3, 1)]), (13, [(N, 4, 1), ("pairs", 7)]), (14, [(N, 4, 1)])):
        for shape in shapes:
            s.add("assembled", ("blocks", "rich" if deep else "few"), total, shape, chunk=30)
    # hands with thirteen or fourteen different kinds: the largest distances
    orphans = D.kinds("1m9m1p9p1s9s1z2z3z4z5z6z7z")
    s.add("orphans", orphans, 13, (N, 4, 1), cap=1, chunk=1)
    s.add("orphans", orphans, 12, (N, 4, 0), cap=1, chunk=2)
    for at in range(0, 10, 3 if not deep else 1):
        nine = (orphans + orphans)[at:at + 9]
        s.add("orphans+%d" % at, nine, 14, (N, 4, 1), cap=2, chunk=20)
        s.add("orphans+%d" % at, nine, 13, ("pairs", 7), cap=2, chunk=40)
    s.add("spread", D.kinds("1m4m8m1p5p9p2s6s9s1z3z5z7z5m"), 13, (N, 4, 1), cap=1, chunk=2)
    s.add("spread", D.kinds("1m4m8m1p5p9p2s6s9s1z3z5z7z5m"), 14, (N, 4, 1), cap=1, chunk=2)
    # the slow analysers on hands further away and on larger ones
    for name, ks in (("far", D.kinds("1m9m5p3s6s1z")), ("far'", D.kinds("2m3m8p9p5s7z"))):
        s.add(name, ks, 7, (N, 2, 1), cap=2, brute="far", extra="near", chunk=8)
        s.add(name, ks, 5, (N, 1, 1), cap=2, brute="far", extra="pattern", chunk=8)
        s.add(name, ks, 7, ("pairs", 4), cap=2, brute="far", extra="pattern", chunk=8)
    for total, shape in ((10, (N, 3, 1)), (13, (N, 4, 1)), (14, (N, 4, 1)), (13, ("pairs", 7))):
        s.add("assembled", ("blocks", "fewer"), total, shape, extra="near", chunk=15)
    return s


def others(options, missing, deepest):
    """The other analysers this hand is put to."""
    out = []
    if options.get("extra") == "pattern" or options.get("extra") == "near" and missing <= 3:
        out.append("pattern")
    if options.get("brute") and missing <= (deepest if options["brute"] == "far" else 1):
        out.append("brute")
    return out


def variants(options):
    yield "up", 0
    if options.get("variants"):
        yield "dealt", 2
        yield "down", 1


def kinds(a, tiles):
    got = [a.kind(t) for t in tiles]
    if len(got) != len(set(got)):
        raise Violation("a useful tile is named twice", tiles=[str(t) for t in tiles])
    return sorted(got)


def names(ks):
    return [H.NAME[k] for k in ks]


def weight(shard):
    return (shard[2] ** 2) * (shard[7] - shard[6])


def hand_case(shard, hand, order, reds):
    options = dict(shard[5])
    return {"hand": H.text(hand), "shape": list(shard[4]), "order": order, "reds": reds,
            "rule": options.get("rule", 1)}
