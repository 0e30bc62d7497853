"""C04: useful tiles are exactly the draws that bring the hand closer."""
from .. import domains as D, waiting as W
from ..core import Violation
from ..impl import api
from ..ref import hands as H

PROPERTY = "C04"
RULE = ("every hand of the bounded spaces x win shape x four-copies rule is one model state; its model transitions are "
        "the draws of the 34 kinds, a draw is useful when the reference distance of the successor is one less; "
        "waiting_and_useful_tiles (and useful_tiles alone on small hands) of the analysers must give that set")
BOUNDS = {
    "quick": "single-suit hands up to 8 tiles (all), 10-14 tiles with bounded copies, honour hands up to 8, all hands "
             "of <=3 tiles over 34 kinds, border and sparse alphabets up to 14 tiles, hands of 10..14 tiles "
             "assembled from 12 blocks per suit and 5 of honours, shapes up to 4 melds + 1 pair "
             "and 7 distinct pairs, rule off for shapes up to 2 melds + 1 pair",
    "thorough": "as quick with full copies (0..4) in every space, all 13/14-tile single-suit hands, 5-tile hands over "
                "34 kinds",
}
ASSUMPTIONS = ["hands hold at most four copies of a kind and at least one tile fewer than the shape needs"]


def shards(tier):
    return W.spaces(tier, 0).shards()


weight = W.weight


def both(ctx, hand, shape, order, reds, rule, name, expected_step, expected):
    a = api()
    got_step, tiles = W.analyser(name, shape).waiting_and_useful_tiles(a.hand(hand, order, reds), bool(rule))
    ctx.traces += 1
    ctx.count(name)
    got = W.kinds(a, tiles)
    if got_step != expected_step or got != expected:
        raise Violation("%s: step %r useful %r, reference step %r useful %r" % (
            name, got_step, W.names(got), expected_step, W.names(expected)), hand=H.text(hand), shape=shape, rule=rule)


def alone(ctx, hand, shape, order, reds, rule, name, _, expected):
    a = api()
    got = W.kinds(a, W.analyser(name, shape).useful_tiles(a.hand(hand, order, reds), bool(rule)))
    ctx.traces += 1
    ctx.count(name + " useful_tiles")
    if got != expected:
        raise Violation("%s.useful_tiles %r, reference %r" % (name, W.names(got), W.names(expected)),
                        hand=H.text(hand), shape=shape, rule=rule)


def run_shard(ctx, shard):
    shape, options = shard[4], dict(shard[5])
    rule, total = options.get("rule", 1), shard[2]
    _, useful = W.oracle(shape, rule)
    for hand in D.each(shard):
        missing, expected = useful(hand)
        ctx.states += 1
        ctx.transitions += 34 if rule == 0 else sum(1 for c in hand if c < 4)
        ctx.outcome("step %d useful %d" % (missing - 1, len(expected)))
        for order, reds in W.variants(options):
            runs = [("heuristic", both)]
            if order == "up":
                if total <= 4:
                    runs.append(("heuristic", alone))
                for name in W.others(options, missing, 2):
                    runs += [(name, both), (name, alone)]
            for name, run in runs:
                case = dict(W.hand_case(shard, hand, order, reds), analyser=name, call=run.__name__)
                ctx.case(case, run, ctx, hand, shape, order, reds, rule, name, missing - 1, expected)
    ctx.sample({"domain": shard[0], "shape": list(shape), "last_hand": H.text(hand), "useful": W.names(expected)})


def replay(ctx, case):
    hand, shape = H.parse(case["hand"]), tuple(case["shape"])
    missing, expected = W.oracle(shape, case["rule"])[1](hand)
    run = both if case["call"] == "both" else alone
    run(ctx, hand, shape, case["order"], case["reds"], case["rule"], case["analyser"], missing - 1, expected)
