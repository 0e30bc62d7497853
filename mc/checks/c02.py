"""C02: all winning splits of a hand are listed, each once."""
from .. import domains as D
from ..core import Violation
from ..impl import api
from ..ref import hands as H

PROPERTY = "C02"
RULE = ("every hand of the bounded spaces x win shape is one model state; the reference lists all multisets of parts "
        "contained in the hand by brute recursion over the part list, and both listings of the implementation are "
        "read to the end and compared with it (set of splits; for the unique listing also multiplicity and order)")
BOUNDS = {
    "quick": "all single-suit hands of 2..8 tiles, honour hands up to 9 tiles, all hands of <=4 tiles over 34 kinds, "
             "border alphabets up to 11 tiles, single-suit 11-tile hands with >=5 kinds, 12- and 14-tile hands of 6-7 kinds, hands of 8..14 tiles assembled "
             "from 25 blocks per suit and 11 of honours, hands of 18..20 tiles over 5 kinds and 35..36 over a suit; shapes up to 3 melds + 1 "
             "pair and 2 melds + 2 pairs, 1..7 distinct pairs",
    "thorough": "as quick, plus all single-suit hands of 9..14 tiles and 5-tile hands over 34 kinds",
}
ASSUMPTIONS = ["hands hold at most four copies of a kind",
               "the plain listing may repeat a split; only the unique listing must not"]


def space(tier):
    deep = tier == "thorough"
    s = D.Space(1500)
    for suit, ks in D.SUIT.items():
        for total, shapes in ((2, [(0, 1)]), (3, [(1, 0), (0, 1)]), (4, [(0, 2), (1, 0)]), (5, [(1, 1)]),
                              (6, [(2, 0), (1, 1)]), (7, [(1, 2), (2, 0)]), (8, [(2, 1)])):
            for m, p in shapes:
                s.add("suit-" + suit, ks, total, ("normal", m, p), variants=1 if total <= 5 else 0)
        s.add("suit-" + suit, ks, 6, ("pairs", 2), variants=1)
        s.add("suit-" + suit, ks, 8, ("pairs", 3))
    s.add("suit-m", D.SUIT["m"], 9, ("normal", 3, 0))
    s.add("suit-p", D.SUIT["p"], 11, ("normal", 3, 1), cap=4 if deep else 3)
    s.add("suit-s", D.SUIT["s"], 14, ("normal", 4, 1), cap=4 if deep else 2)
    if deep:
        s.add("suit-m", D.SUIT["m"], 10, ("normal", 2, 2))
        s.add("suit-m", D.SUIT["m"], 12, ("normal", 4, 0))
        s.add("suit-m", D.SUIT["m"], 13, ("normal", 3, 1))
    for total in range(2, 10):
        for shape in (("normal", 1, 1), ("normal", 2, 0), ("normal", 0, 2), ("pairs", 3)):
            if total >= H.need(shape):
                s.add("honours", D.HONOUR, total, shape)
    for total in (2, 3, 4, 5) if deep else (2, 3, 4):
        for shape in (("normal", 0, 1), ("normal", 1, 0), ("normal", 1, 1), ("pairs", 2), ("pairs", 1)):
            if H.need(shape) <= total:
                s.add("all", D.ALL, total, shape)
    for name, ks in D.BORDERS.items():
        for total in (5, 8, 11, 14) if deep else (5, 8, 11):
            for shape in {5: [("normal", 1, 1)], 8: [("normal", 2, 1), ("pairs", 3)],
                          11: [("normal", 3, 1), ("pairs", 5)], 14: [("normal", 4, 1), ("pairs", 6)]}[total]:
                s.add(name, ks, total, shape, variants=1 if total < 11 else 0)
    # splits that differ only in how often a part is taken need twelve tiles
    for name, ks in (("window-m", D.SUIT["m"][:6]), ("window-s", D.SUIT["s"][3:])):
        s.add(name, ks, 12, ("normal", 3, 0), variants=1)
        s.add(name, ks, 14, ("normal", 3, 1), cap=4 if deep else 3)
    s.add("window-p", D.SUIT["p"][1:8], 12, ("normal", 3, 0), cap=3)
    for total, shape in ((8, ("normal", 2, 1)), (11, ("normal", 3, 1)), (14, ("normal", 4, 1)), (14, ("pairs", 6))):
        s.add("assembled", ("blocks", "rich"), total, shape)
    # hands with very many splits, the same ones found far apart
    for name, ks in (("full-m", D.SUIT["m"][2:7]), ("full-s", D.SUIT["s"][4:])):
        for total in (17, 18, 19, 20) if deep else (18, 19, 20):
            for m, p in ((2, 1), (3, 1), (1, 2), (2, 2)):
                s.add(name, ks, total, ("normal", m, p), chunk=3)
    for total in (35, 36):
        for m, p in ((1, 1), (2, 0), (0, 2)):
            s.add("full-suit", D.SUIT["p"], total, ("normal", m, p), chunk=3)
        s.add("full-suit", D.SUIT["p"], total, ("pairs", 3), chunk=3)
    s.add("border7", D.BORDERS["m-p"] + D.kinds("5s1z"), 14, ("pairs", 7), cap=3)
    return s


def shards(tier):
    return space(tier).shards()


def weight(shard):
    return shard[2] * (shard[7] - shard[6])


def variants(hand, options):
    yield "up", 0
    if options.get("variants"):
        yield "dealt", 2
        if hand[4] or hand[13] or hand[22]:
            yield "down", 1


def plain_listing(ctx, hand, shape, order, reds, expected):
    a = api()
    listed = 0
    got = set()
    for split in a.win(shape).win_selections(a.hand(hand, order, reds)):
        listed += 1
        got.add(tuple(sorted(a.units(split))))
        if listed > 200 * (len(expected) + 5):
            raise Violation("listing does not end", shape=shape)
    ctx.traces += 1
    ctx.count("splits listed", listed)
    compare(got, expected, hand, shape, "listing")


def unique_listing(ctx, hand, shape, order, reds, expected):
    a = api()
    got = []
    for split in a.win(shape).unique_win_selections(a.hand(hand, order, reds)):
        units = a.units(split)
        if units != sorted(units, key=part_order):
            raise Violation("parts of a listed split are not sorted", split=units)
        got.append(tuple(sorted(units)))
        if len(got) > len(expected) + 50:
            break
    ctx.traces += 1
    if len(got) != len(set(got)):
        twice = sorted(g for g in set(got) if got.count(g) > 1)
        raise Violation("a split is listed twice", split=twice[0], hand=H.text(hand), shape=shape)
    compare(set(got), expected, hand, shape, "unique listing")


def part_order(unit):
    """The order of tile sets: kinds with their counts, ascending."""
    return [(k, unit.count(k)) for k in sorted(set(unit))]


def compare(got, expected, hand, shape, name):
    if got != expected:
        raise Violation("%s differs" % name, missing=sorted(expected - got)[:2], extra=sorted(got - expected)[:2],
                        hand=H.text(hand), shape=shape)


def run_shard(ctx, shard):
    shape, options = shard[4], dict(shard[5])
    for hand in D.each(shard):
        expected = H.shape_splits(hand, shape)
        ctx.states += 1
        ctx.transitions += sum(len(s) for s in expected)      # parts taken along all complete splits
        ctx.outcome("%d splits" % len(expected))
        for order, reds in variants(hand, options):
            case = {"hand": H.text(hand), "shape": list(shape), "order": order, "reds": reds}
            ctx.case(dict(case, listing="plain"), plain_listing, ctx, hand, shape, order, reds, expected)
            ctx.case(dict(case, listing="unique"), unique_listing, ctx, hand, shape, order, reds, expected)
    ctx.sample({"domain": shard[0], "shape": list(shape), "last_hand": H.text(hand), "splits": len(expected)})


def replay(ctx, case):
    hand, shape = H.parse(case["hand"]), tuple(case["shape"])
    expected = H.shape_splits(hand, shape)
    run = plain_listing if case["listing"] == "plain" else unique_listing
    run(ctx, hand, shape, case["order"], case["reds"], expected)
