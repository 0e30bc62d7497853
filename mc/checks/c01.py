"""C01: a hand is recognised as winning exactly when it is."""
from .. import domains as D
from ..core import Violation
from ..impl import api
from ..ref import dist, hands as H

PROPERTY = "C01"
RULE = ("every hand of the listed bounded spaces is one model state (count vector x win shape); the reference "
        "recogniser (distance table, zero tiles missing) decides it and WinPattern.match is run on the hand, for "
        "each insertion order and red-five representation of the space")
BOUNDS = {
    "quick": "all single-suit hands of 0..8 tiles (each suit), 11 and 14 tiles (characters), all honour hands, all "
             "hands of <=4 tiles over 34 kinds, all hands over nine six-kind border alphabets up to 11 tiles; every hand of 8..14 tiles assembled from one of 25 "
             "blocks per suit and 11 of honours; shapes "
             "up to 4 melds + 1 pair, 2 melds + 2 pairs, 1..7 distinct pairs",
    "thorough": "as quick, plus all single-suit hands of 9..14 tiles in every suit, 14-tile border hands, all hands "
                "of 5 tiles over 34 kinds",
}
ASSUMPTIONS = ["hands hold at most four copies of a kind"]


def space(tier):
    s = D.Space(6000)
    deep = tier == "thorough"
    for suit, ks in D.SUIT.items():
        for total, shapes in ((0, [(0, 0), (0, 1), (1, 0)]), (1, [(0, 0), (0, 1)]), (2, [(0, 1), (1, 0)]),
                              (3, [(1, 0), (0, 1)]), (4, [(0, 2), (1, 0), (0, 1)]), (5, [(1, 1), (1, 0)]),
                              (6, [(2, 0), (1, 1), (0, 2)]), (7, [(1, 2), (2, 0)]), (8, [(2, 1), (1, 1)])):
            for m, p in shapes:
                s.add("suit-" + suit, ks, total, ("normal", m, p), variants=1 if total <= 6 else 0)
        for total in (9, 10, 11, 12, 13, 14) if deep else (11, 14) if suit == "m" else ():
            for m, p in {9: [(3, 0), (2, 1)], 10: [(2, 2), (3, 0)], 11: [(3, 1)], 12: [(4, 0), (3, 1)],
                         13: [(4, 0)], 14: [(4, 1)]}[total]:
                s.add("suit-" + suit, ks, total, ("normal", m, p))
        for n in (1, 2, 3):
            s.add("suit-" + suit, ks, 2 * n, ("pairs", n), variants=1)
            s.add("suit-" + suit, ks, 2 * n + 1, ("pairs", n))
        s.add("suit-" + suit, ks, 9, ("pairs", 4))
    for total in range(0, 15):
        for shape in (("normal", 1, 1), ("normal", 4, 1), ("normal", 2, 0), ("pairs", 4), ("pairs", 7)):
            if total >= H.need(shape) - 1:
                s.add("honours", D.HONOUR, total, shape)
    for total in (2, 3, 4, 5) if deep else (2, 3, 4):
        for shape in (("normal", 0, 1), ("normal", 1, 0), ("normal", 1, 1), ("pairs", 2)):
            if H.need(shape) <= total:
                s.add("all", D.ALL, total, shape)
    for name, ks in D.BORDERS.items():
        for total in (3, 5, 6, 8, 11, 14) if deep else (3, 5, 8, 11):
            for shape in {3: [("normal", 1, 0)], 5: [("normal", 1, 1)], 6: [("normal", 2, 0), ("normal", 0, 2)],
                          8: [("normal", 2, 1), ("pairs", 4)], 11: [("normal", 3, 1), ("pairs", 5)],
                          14: [("normal", 4, 1), ("pairs", 6), ("pairs", 7)]}[total]:
                s.add(name, ks, total, shape, variants=1)
    for total, shapes in ((8, [("normal", 2, 1)]), (10, [("normal", 2, 2)]), (11, [("normal", 3, 1)]), (13, [("normal", 4, 0)]),
                          (14, [("normal", 4, 1), ("pairs", 7)])):
        for shape in shapes:
            s.add("assembled", ("blocks", "rich"), total, shape, variants=1)
    s.add("border7", D.BORDERS["m-p"] + D.kinds("5s"), 14, ("pairs", 7))
    return s


def shards(tier):
    return space(tier).shards()


def weight(shard):
    return shard[2] * (shard[7] - shard[6])


_tables = {}


def reference(shape):
    if shape[0] == "pairs":
        return lambda hand: dist.pairs_missing(hand, shape[1]) == 0
    m, p = shape[1], shape[2]
    if "d" not in _tables:
        _tables["d"] = dist.Distance(4, 2)
    return lambda hand: _tables["d"].missing(hand, m, p) == 0


def variants(hand, options):
    yield "up", 0
    if options.get("variants"):
        yield "down", 0
        yield "dealt", 2
        if hand[4] or hand[13] or hand[22]:
            yield "up", 1
            yield "mixed", 2


def check(ctx, hand, shape, order, reds, expected):
    a = api()
    tiles = a.hand(hand, order, reds)
    got = a.win(shape).match(tiles)
    ctx.traces += 1
    if bool(got) is not expected:
        raise Violation("match says %r, reference says %r" % (got, expected), hand=H.text(hand), shape=shape)


def run_shard(ctx, shard):
    shape, options = shard[4], dict(shard[5])
    oracle = reference(shape)
    for hand in D.each(shard):
        expected = oracle(hand)
        ctx.states += 1
        ctx.transitions += sum(1 for c in hand if c)      # one removal per kind held leads to a smaller hand
        ctx.outcome("%s:%s" % (shape, "win" if expected else "no"))
        for order, reds in variants(hand, options):
            case = {"hand": H.text(hand), "shape": list(shape), "order": order, "reds": reds}
            ctx.case(case, check, ctx, hand, shape, order, reds, expected)
    ctx.sample({"domain": shard[0], "shape": list(shape), "last_hand": H.text(hand)})


def replay(ctx, case):
    hand, shape = H.parse(case["hand"]), tuple(case["shape"])
    check(ctx, hand, shape, case["order"], case["reds"], reference(shape)(hand))
