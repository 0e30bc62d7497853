"""C03: the waiting step is the true distance to a win."""
from .. import domains as D, waiting as W
from ..core import Violation
from ..impl import api
from ..ref import hands as H

PROPERTY = "C03"
RULE = ("every hand of the bounded spaces x win shape x four-copies rule is one model state; the reference distance "
        "table (minimum over all winning multisets) gives the step, and before_waiting_step of the heuristic, "
        "pattern (small hands, larger ones up to three tiles away) and brute-force (hands one tile away, some up to four) analysers is run on each")
BOUNDS = {
    "quick": "single-suit hands up to 8 tiles (all), 10-14 tiles with bounded copies, honour hands up to 8, all hands "
             "of <=4 tiles over 34 kinds, border and sparse alphabets up to 14 tiles, hands of 10..14 tiles "
             "assembled from 12 blocks per suit and 5 of honours, shapes up to 4 melds + 1 pair "
             "and 7 distinct pairs, rule off for shapes up to 2 melds + 1 pair",
    "thorough": "as quick with full copies (0..4) in every space, all 13/14-tile single-suit hands, 5-tile hands over "
                "34 kinds",
}
ASSUMPTIONS = ["hands hold at most four copies of a kind and at least one tile fewer than the shape needs"]


def shards(tier):
    return W.spaces(tier, 1).shards()


weight = W.weight


def step(ctx, hand, shape, order, reds, rule, name, expected):
    got = W.analyser(name, shape).before_waiting_step(api().hand(hand, order, reds), bool(rule))
    ctx.traces += 1
    ctx.count(name)
    if got != expected:
        raise Violation("%s waiting step is %r, reference %r" % (name, got, expected), hand=H.text(hand),
                        shape=shape, rule=rule)


def run_shard(ctx, shard):
    shape, options = shard[4], dict(shard[5])
    rule = options.get("rule", 1)
    missing, _ = W.oracle(shape, rule)
    for hand in D.each(shard):
        expected = missing(hand) - 1
        ctx.states += 1
        ctx.transitions += sum(1 for c in hand if c < 4)
        ctx.outcome("step %d" % expected)
        for order, reds in W.variants(options):
            which = ["heuristic"]
            if order == "up":
                which += W.others(options, expected + 1, 4)
            for name in which:
                case = dict(W.hand_case(shard, hand, order, reds), analyser=name)
                ctx.case(case, step, ctx, hand, shape, order, reds, rule, name, expected)
    ctx.sample({"domain": shard[0], "shape": list(shape), "last_hand": H.text(hand), "step": expected})


def replay(ctx, case):
    hand, shape = H.parse(case["hand"]), tuple(case["shape"])
    expected = W.oracle(shape, case["rule"])[0](hand) - 1
    step(ctx, hand, shape, case["order"], case["reds"], case["rule"], case["analyser"], expected)
