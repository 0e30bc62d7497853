"""C14: stage grouping splits a stream without loss."""
from itertools import permutations, product
from ..core import Violation

PROPERTY = "C14"
RULE = ("every stream over the key alphabet x stage list x reading pattern is explored: the consumer's moves (open the "
        "next group, read one element of any opened group) are transitions of a model whose state is the position in "
        "the reference partition; each move on StageGroupby must give the model's answer")
BOUNDS = {"quick": "streams of up to 6 elements over keys a, b, c, x, all stage lists of up to 3 of a, b, c, up to 4 elements "
                   "over three other key alphabets (None, false and unhashable keys); per-group "
                   "reading amounts 0, 1, all with re-reading of old groups; free move sequences of up to 7 moves for "
                   "streams of up to 4 elements; 4, 5 and 7 stages, each passed 0 to 2 times", "thorough": "streams up to 7, up to 8 stages, free move sequences up to 9 moves"}
ASSUMPTIONS = []

STAGES = [()] + [p for n in (1, 2, 3) for p in permutations("abc", n)]


def partition(stream, stages):
    """Reference: list of (label, elements)."""
    groups, i = [], 0
    while i < len(stream):
        key = stream[i]
        if key in stages:
            label = list(stages[stages.index(key):])
            at, j = 0, i
            while j < len(stream) and stream[j] in label[at:]:
                at = label.index(stream[j])
                j += 1
        else:
            label, j = key, i
            while j < len(stream) and stream[j] == key:
                j += 1
        groups.append((label, list(range(i, j))))
        i = j
    return groups


def make(stream, stages, plain):
    from mahjong.record.stage import StageGroupby
    if plain:
        return StageGroupby(iter(stream), *stages)
    return StageGroupby(((i, k) for i, k in enumerate(stream)), *stages, key=lambda item: item[1])


# other values for the letters: none of them equal, some false, some that cannot be hashed
VALUES = {"odd": dict(a=None, b=0, c=[], x=""), "lists": dict(a=[], b=[None], c={}, x=None), "nested": dict(a=(), b=("b",), c=[()], x=False)}


def other_values(ctx, stream, stages, name):
    values = VALUES[name]
    told = [values[k] for k in stream]
    for plain in (True, False):
        got = [(label, list(g)) for label, g in make(told, [values[s] for s in stages], plain)]
        expected = [([values[k] for k in label] if isinstance(label, list) else values[label],
                     [told[i] if plain else (i, told[i]) for i in items]) for label, items in partition(stream, stages)]
        ctx.traces += 1
        if got != expected:
            raise Violation("groups %r, reference %r" % (got, expected), stream=told, stages=[values[s] for s in stages])


def listed(ctx, stream, stages, plain):
    got = [(label, list(g)) for label, g in make(stream, stages, plain)]
    expected = [(label, [stream[i] if plain else (i, stream[i]) for i in items])
                for label, items in partition(stream, stages)]
    ctx.traces += 1
    if got != expected:
        raise Violation("groups %r, reference %r" % (got, expected), stream=stream, stages=stages)


def moves(ctx, stream, stages, plan):
    """plan: list of moves, 'n' or the number of the group to read from (0 = oldest)."""
    groups = partition(stream, stages)
    source = make(stream, stages, False)
    opened, read = [], []
    for move in plan:
        ctx.transitions += 1
        if move == "n":
            try:
                label, group = next(source)
            except StopIteration:
                if len(opened) < len(groups):
                    raise Violation("grouping ended after %d of %d groups" % (len(opened), len(groups)),
                                    stream=stream, stages=stages, plan=plan)
                return
            if len(opened) >= len(groups):
                raise Violation("an extra group %r" % (label,), stream=stream, stages=stages, plan=plan)
            if label != groups[len(opened)][0]:
                raise Violation("label %r, reference %r" % (label, groups[len(opened)][0]), stream=stream,
                                stages=stages, plan=plan)
            opened.append(group)
            read.append(0)
        else:
            if move >= len(opened):
                continue
            got = next(opened[move], None)
            items = groups[move][1]
            want = None
            if move == len(opened) - 1 and read[move] < len(items):
                at = items[read[move]]
                want = (at, stream[at])
                read[move] += 1
            if got != want:
                raise Violation("reading group %d gives %r, reference %r" % (move, got, want), stream=stream,
                                stages=stages, plan=plan)
    ctx.traces += 1


def shards(tier):
    deep = tier == "thorough"
    longest = 7 if deep else 6
    out = []
    for stages in STAGES:
        for n in range(0, longest + 1):
            if n >= 5:
                out += [("list", stages, n, k) for k in "abcx"]
            else:
                out.append(("list", stages, n, ""))
        for n in range(0, 5):
            out += [("moves", stages, n, 9 if deep and n <= 3 else 7)]
    for n in (4, 5, 6, 8) if deep else (4, 5, 7):
        out.append(("long", tuple("hgfedcba"[-n:]), n, ""))
    return out


def weight(shard):
    return 4 ** min(shard[2], 6)


def patterns(groups):
    """Reading amount per group: nothing, one element, everything; afterwards old groups are read again."""
    for amounts in product((0, 1, 2), repeat=len(groups)):
        plan = []
        for g, amount in enumerate(amounts):
            plan.append("n")
            if g:
                plan.append(g - 1)
            if amount == 1:
                plan.append(g)
            elif amount == 2:
                plan += [g] * (len(groups[g][1]) + 1)
        plan.append("n")
        plan += list(range(len(groups)))
        yield plan


def run_shard(ctx, shard):
    kind, stages, n, extra = shard
    if kind == "long":
        return run_long(ctx, stages)
    for tail in product("abcx", repeat=n - len(extra) if kind == "list" else n):
        stream = (extra if kind == "list" else "") + "".join(tail)
        groups = partition(stream, stages)
        ctx.states += len(stream) + 1
        if kind == "list":
            ctx.outcome("%d groups" % len(groups))
            ctx.case({"stream": stream, "stages": stages}, listed, ctx, stream, stages, False)
            if n <= 4:
                ctx.case({"stream": stream, "stages": stages, "plain": 1}, listed, ctx, stream, stages, True)
                for name in VALUES:
                    ctx.case({"stream": stream, "stages": stages, "values": name}, other_values, ctx, stream, stages, name)
            if n <= 5:
                for plan in patterns(groups):
                    ctx.case({"stream": stream, "stages": stages, "plan": plan}, moves, ctx, stream, stages, plan)
        else:
            if len(set(stream) - set(stages)) > 1:
                continue            # streams over stage keys and one other key
            for plan in free_plans(min(extra, len(stream) + 4), len(groups)):
                ctx.case({"stream": stream, "stages": stages, "plan": plan}, moves, ctx, stream, stages, plan)
    ctx.sample({"stream": stream, "stages": stages, "groups": groups})


def run_long(ctx, stages):
    """Many stages: each of them passed not at all, once or twice, and something after them."""
    for amounts in product((0, 1, 2), repeat=len(stages)):
        for tail in ("", "x", stages[0], stages[len(stages) // 2] * 2, "x" + stages[-1]):
            stream = "".join(s * n for s, n in zip(stages, amounts)) + tail
            ctx.states += len(stream) + 1
            for plain in (0, 1):
                ctx.case({"stream": stream, "stages": stages, "plain": plain}, listed, ctx, stream, stages, plain)
            for plan in patterns(partition(stream, stages)):
                ctx.case({"stream": stream, "stages": stages, "plan": plan}, moves, ctx, stream, stages, plan)


def free_plans(length, groups):
    """Every maximal move sequence: reads only from opened groups, newest two and the oldest."""
    def extend(plan, opened):
        if len(plan) == length:
            yield plan
            return
        if opened <= groups:
            yield from extend(plan + ["n"], opened + 1)
        else:
            yield plan
            return
        for g in sorted({0, opened - 2, opened - 1}):
            if 0 <= g < opened:
                yield from extend(plan + [g], opened)
    yield from extend(["n"], 1)


def replay(ctx, case):
    stages = tuple(case["stages"])
    if "values" in case:
        other_values(ctx, case["stream"], stages, case["values"])
    elif "plan" in case:
        moves(ctx, case["stream"], stages, case["plan"])
    else:
        listed(ctx, case["stream"], stages, bool(case.get("plain")))
