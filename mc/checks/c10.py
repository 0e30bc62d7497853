"""C10: dora and starting-wall tables follow the rules, for every caller."""
from collections import Counter
from itertools import product
from ..core import Violation

PROPERTY = "C10"
RULE = ("every list of indicators up to the bound and every wall is a model state computed from the successor rules; "
        "every call sequence (with callers that change the returned lists between calls) up to the depth bound is a "
        "path of transitions, and each answer is compared with the model")
BOUNDS = {"quick": "all lists of up to 3 of the 37 indicators; call histories of 3 calls over 5 calls with 3 ways to "
                   "change each result", "thorough": "as quick with lists of 4 over 15 indicators, histories of 4 calls"}
ASSUMPTIONS = []

NAMES = ["%d%s" % (n, c) for c in "mps" for n in range(1, 10)] + ["%dz" % n for n in range(1, 8)]
ALL = NAMES + ["0m", "0p", "0s"]


def successor(name):
    n, c = int(name[0]), name[1]
    if c == "z":
        if n <= 4:
            return ["%dz" % (n % 4 + 1)]
        return ["%dz" % ((n - 5 + 1) % 3 + 5)]
    n = (n or 5) % 9 + 1
    return ["%d%s" % (n, c)] + (["0" + c] if n == 5 else [])


def wall(players, red):
    tiles = Counter()
    for name in NAMES:
        if players == 3 and name[1] == "m" and name[0] not in "19":
            continue
        tiles[name] = 4
    if red:
        for c in "mps":
            if tiles["5" + c]:
                tiles["5" + c] -= 1
                tiles["0" + c] = 1
    return Counter({k: v for k, v in tiles.items() if v})


def shards(tier):
    out = [("lists", a) for a in ALL] + [("walls", None)]
    depth = 4 if tier == "thorough" else 3
    out += [("history", (i, depth)) for i in range(len(CALLS) * len(DAMAGE))]
    if tier == "thorough":
        out += [("long", a) for a in ALL[::2]]
    return out


def expect(indicators):
    return Counter(t for i in indicators for t in successor(i)), [successor(i) for i in indicators]


def one_list(ctx, indicators):
    from mahjong.record.const import doras
    got = list(doras(list(indicators)))
    expected = [t for i in indicators for t in successor(i)]
    ctx.traces += 1
    # order inside one indicator's answer (five and its red five) is not fixed
    at = 0
    for i in indicators:
        part = successor(i)
        if sorted(got[at:at + len(part)]) != sorted(part):
            raise Violation("dora of %r is %r, rules say %r" % (indicators, got, expected))
        at += len(part)
    if at != len(got):
        raise Violation("dora of %r is %r, rules say %r" % (indicators, got, expected))


def one_wall(ctx, players, red):
    from mahjong.record.const import initial_tiles
    got = initial_tiles(players, red)
    ctx.traces += 1
    if Counter(got) != wall(players, red):
        diff = Counter(got)
        diff.subtract(wall(players, red))
        raise Violation("wall of %d players, red fives %r is wrong" % (players, red),
                        difference={k: v for k, v in diff.items() if v})


CALLS = [("doras", ["4m", "9p"]), ("doras", ["7z"]), ("doras", []), ("wall", (4, True)), ("wall", (3, False)),
         ("wall", (3, True))]
DAMAGE = ["none", "clear", "append", "first"]


def history(ctx, steps):
    for call, damage in steps:
        kind, arg = CALLS[call]
        if kind == "doras":
            from mahjong.record.const import doras
            result = doras(list(arg))
            one_list(ctx, arg)
        else:
            from mahjong.record.const import initial_tiles
            result = initial_tiles(*arg)
            one_wall(ctx, *arg)
        ctx.transitions += 1
        if DAMAGE[damage] == "clear":
            del result[:]
        elif DAMAGE[damage] == "append":
            result.append("9z")
        elif DAMAGE[damage] == "first" and result:
            result[0] = "8z"
    for kind, arg in CALLS:
        (one_list(ctx, arg) if kind == "doras" else one_wall(ctx, *arg))


def run_shard(ctx, shard):
    kind, arg = shard
    if kind == "lists":
        for size in (0, 1, 2):
            for rest in product(ALL, repeat=size):
                indicators = [arg] + list(rest)
                ctx.states += 1
                ctx.transitions += len(indicators)
                ctx.case({"list": indicators}, one_list, ctx, indicators)
        ctx.sample({"indicators": indicators, "dora": [successor(i) for i in indicators]})
    elif kind == "long":
        for rest in product(ALL[::2] + ["0m", "4s"], repeat=3):
            indicators = [arg] + list(rest)
            ctx.states += 1
            ctx.case({"list": indicators}, one_list, ctx, indicators)
    elif kind == "walls":
        for players, red in product((3, 4), (False, True)):
            ctx.states += 1
            ctx.case({"wall": [players, red]}, one_wall, ctx, players, red)
        ctx.case({"list": []}, one_list, ctx, [])
        ctx.sample({"wall": [3, True], "size": sum(wall(3, True).values())})
    else:
        first, depth = arg
        steps = list(product(range(len(CALLS)), range(len(DAMAGE))))
        for rest in product(steps, repeat=depth - 1):
            path = [steps[first]] + list(rest)
            ctx.states += 1
            ctx.case({"history": path}, history, ctx, path)
        ctx.sample({"history": path})


def replay(ctx, case):
    if "list" in case:
        one_list(ctx, case["list"])
    elif "wall" in case:
        one_wall(ctx, *case["wall"])
    else:
        history(ctx, [tuple(s) for s in case["history"]])
