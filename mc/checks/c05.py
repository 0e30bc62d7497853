"""C05: per-discard analysis agrees with analysing each remaining hand."""
from .. import domains as D, waiting as W
from ..core import Violation
from ..impl import api
from ..ref import hands as H

PROPERTY = "C05"
RULE = ("every hand of the bounded spaces x win shape is one model state, its model transitions are the discards of "
        "the kinds held; the reference distance of each successor decides which discards keep the step and what they "
        "wait for, and batch_waiting_and_useful_tiles must report exactly these")
BOUNDS = {
    "quick": "single-suit hands up to 8 tiles (all), 10-14 tiles with bounded copies, honour hands up to 8, all hands "
             "of <=3 tiles over 34 kinds, border and sparse alphabets up to 14 tiles, hands of 10..14 tiles "
             "assembled from 12 blocks per suit and 5 of honours, shapes up to 4 melds + 1 pair "
             "and 7 distinct pairs",
    "thorough": "as quick with full copies (0..4) in every space, all 13/14-tile single-suit hands, 5-tile hands over "
                "34 kinds",
}
ASSUMPTIONS = ["hands hold at most four copies of a kind and at least one tile fewer than the shape needs"]


def shards(tier):
    return W.spaces(tier, 0).shards()


weight = W.weight


def reference(hand, shape, rule):
    missing, useful = W.oracle(shape, rule)
    base = missing(hand)
    report = {}
    for k in range(34):
        if hand[k]:
            less = list(hand)
            less[k] -= 1
            if missing(less) == base:
                report[H.NAME[k]] = [base - 1, W.names(useful(less)[1])]
    return base, report


def batch(ctx, hand, shape, order, reds, rule, expected):
    a = api()
    got = {}
    for tile, step, tiles in W.analyser("heuristic", shape).batch_waiting_and_useful_tiles(
            a.hand(hand, order, reds), bool(rule)):
        name = H.NAME[a.kind(tile)]
        if name in got:
            raise Violation("discard %s reported twice" % name, hand=H.text(hand), shape=shape)
        got[name] = [step, W.names(W.kinds(a, tiles))]
    ctx.traces += 1
    if got != expected:
        wrong = sorted(n for n in set(got) | set(expected) if got.get(n) != expected.get(n))[:3]
        raise Violation("per-discard analysis differs", hand=H.text(hand), shape=shape, rule=rule,
                        got={n: got.get(n) for n in wrong}, reference={n: expected.get(n) for n in wrong})


def run_shard(ctx, shard):
    shape, options = shard[4], dict(shard[5])
    rule = options.get("rule", 1)
    for hand in D.each(shard):
        base, expected = reference(hand, shape, rule)
        ctx.states += 1
        ctx.transitions += sum(1 for c in hand if c)
        ctx.outcome("step %d, %d discards" % (base - 1, len(expected)))
        for order, reds in W.variants(options):
            ctx.case(W.hand_case(shard, hand, order, reds), batch, ctx, hand, shape, order, reds, rule, expected)
    ctx.sample({"domain": shard[0], "shape": list(shape), "last_hand": H.text(hand), "report": expected})


def replay(ctx, case):
    hand, shape = H.parse(case["hand"]), tuple(case["shape"])
    expected = reference(hand, shape, case["rule"])[1]
    batch(ctx, hand, shape, case["order"], case["reds"], case["rule"], expected)
