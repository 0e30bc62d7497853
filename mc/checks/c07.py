"""C07: tiles have one identity however and whenever they are made."""
from itertools import permutations, product
from .. import env, threads
from ..core import Violation

PROPERTY = "C07"
TECHNIQUE = ("model checking: every creation history up to the bound in a freshly loaded program, and every thread "
             "schedule up to a preemption bound under a controlled scheduler on the real code")
RULE = ("a state is the set and order of tiles created so far in a freshly loaded program, a transition creates one "
        "more; after every history all facts about all 37 tiles and 136 numbers are compared with the rules of the "
        "game; thread schedules switch at every line of the repository's code")
BOUNDS = {
    "quick": "all creation histories of 1 tile, ordered pairs of 37 tiles (one suit against all), permutations of 5 "
             "neighbouring tiles; two threads, all schedules with 1 preemption for 9 pairs of bodies and 2 preemptions "
             "for honour tiles",
    "thorough": "all ordered pairs of 37 tiles, permutations of 6 tiles; schedules with 2 preemptions for all pairs of "
                "bodies, three threads with 1",
}
ASSUMPTIONS = ["thread switches happen between lines of the repository's code"]

CODES = [(n, c) for c in "mps" for n in range(1, 10)] + [(n, "z") for n in range(1, 8)] + [(0, c) for c in "mps"]
NEIGHBOURS = [(5, "m"), (0, "m"), (4, "m"), (6, "m"), (3, "m"), (9, "m")]
PLAIN = [c for c in CODES if c[0]]


class Fresh:
    """A freshly loaded copy of the tile modules."""

    def __init__(self):
        env.forget()
        from mahjong.tile import definition
        self.Tile, self.AkaTile = definition.Tile, definition.AkaTile

    def make(self, code):
        return self.AkaTile(0, code[1]) if code[0] == 0 else self.Tile(*code)


def plain(code):
    return (code[0] or 5, code[1])


def bag(unit):
    return None if unit is None else sorted(plain((t.number, t.color)) for t, n in unit.items() for _ in range(n))


def facts(fresh, code, tile):
    """Everything the rules say about one tile."""
    n, c = plain(code)
    if (tile.number, tile.color) != code:
        raise Violation("%s has number %r color %r" % (code, tile.number, tile.color))
    if str(tile) != "%d%s" % code:
        raise Violation("%s is written %r" % (code, str(tile)))
    if bool(tile.is_suit()) is not (c != "z"):
        raise Violation("is_suit of %s is %r" % (code, tile.is_suit()))
    if bag(tile.pair()) != [(n, c)] * 2:
        raise Violation("pair of %s is %r" % (code, tile.pair()))
    if bag(tile.triplet()) != [(n, c)] * 3:
        raise Violation("triplet of %s is %r" % (code, tile.triplet()))
    run = [(n + i, c) for i in range(3)] if c != "z" and n <= 7 else None
    if bag(tile.flush()) != run:
        raise Violation("run of %s is %r" % (code, tile.flush()))
    after = tile.next()
    want = (n + 1, c) if c != "z" and n < 9 else None
    if (None if after is None else plain((after.number, after.color))) != want:
        raise Violation("successor of %s is %r" % (code, after))


def order(fresh, tiles):
    ranks = [("mpsz".index(c), n or 5) for n, c in CODES]
    for (a, ra), (b, rb) in product(list(zip(tiles, ranks)), repeat=2):
        if (a == b) is not (ra == rb) or (a != b) is not (ra != rb):
            raise Violation("%s == %s is %r" % (a, b, a == b))
        if (a < b) is not (ra < rb) or (a > b) is not (ra > rb) or (a <= b) is not (ra <= rb) \
                or (a >= b) is not (ra >= rb):
            raise Violation("order of %s and %s is wrong" % (a, b))
        if ra == rb and hash(a) != hash(b):
            raise Violation("%s and %s are equal but hash differently" % (a, b))


def numbers(fresh):
    from mahjong.record.utils.value.tile import tile_from_tenhou, tile_to_tenhou_range
    for i in range(136):
        kind = i // 4
        code = PLAIN[kind]
        if i in (16, 52, 88):
            code = (0, code[1])
        tile = tile_from_tenhou(i)
        if (tile.number, tile.color) != code or isinstance(tile, fresh.AkaTile) is not (code[0] == 0):
            raise Violation("number %d is %s" % (i, tile))
        facts(fresh, code, tile)
    for code in CODES:
        kind = PLAIN.index(plain(code))
        got = list(tile_to_tenhou_range(fresh.make(code)))
        if got != list(range(4 * kind, 4 * kind + 4)):
            raise Violation("numbers of %s are %r" % (code, got))


SYMBOLS = {"m": "\U0001f007\U0001f008\U0001f009\U0001f00a\U0001f00b\U0001f00c\U0001f00d\U0001f00e\U0001f00f",
           "s": "\U0001f010\U0001f011\U0001f012\U0001f013\U0001f014\U0001f015\U0001f016\U0001f017\U0001f018",
           "p": "\U0001f019\U0001f01a\U0001f01b\U0001f01c\U0001f01d\U0001f01e\U0001f01f\U0001f020\U0001f021",
           "z": "\U0001f000\U0001f001\U0001f002\U0001f003\U0001f006\U0001f005\U0001f004"}


def symbols(ctx, codes):
    """The Unicode characters of the tiles (east, south, west, north, white, green, red), made in this order."""
    fresh = Fresh()
    from mahjong.tenhou_record_check import to_plain_tile, to_unicode_tile
    for code in codes:
        n, c = plain(code)
        tile = fresh.make(code)
        if to_unicode_tile(tile) != SYMBOLS[c][n - 1]:
            raise Violation("the symbol of %s is %r, expected %r" % (code, to_unicode_tile(tile), SYMBOLS[c][n - 1]))
        if to_plain_tile(tile) != "%d%s" % code:
            raise Violation("%s is shown as %r" % (code, to_plain_tile(tile)))
        ctx.transitions += 1
    ctx.traces += 1
    ctx.states += 1


def history(ctx, codes, full):
    fresh = Fresh()
    made = {}
    for code in codes:
        made[code] = fresh.make(code)
        ctx.transitions += 1
        facts(fresh, code, made[code])
    tiles = [fresh.make(code) for code in CODES]
    for code, tile in zip(CODES, tiles):
        facts(fresh, code, tile)
    for code, tile in made.items():
        again = fresh.make(code)
        if not (tile == again and hash(tile) == hash(again) and {tile: 1}.get(again) == 1):
            raise Violation("%s made twice is not one tile" % (code,))
        facts(fresh, code, tile)
    if full:
        order(fresh, tiles)
        numbers(fresh)
    ctx.traces += 1


BODIES = {
    "z": ((7, "z"), (7, "z")), "zz": ((7, "z"), (6, "z")), "9": ((9, "m"), (9, "m")), "89": ((8, "m"), (9, "m")),
    "77": ((7, "p"), (7, "p")), "79": ((7, "p"), (9, "p")), "97": ((9, "s"), (7, "s")), "05": ((0, "m"), (5, "m")),
    "00": ((0, "p"), (0, "p")),
}


def schedule(ctx, codes, choices):
    fresh = Fresh()

    def body(code):
        def run():
            tile = fresh.make(code)
            facts(fresh, code, tile)
            return tile
        return run

    run = threads.Execution([body(c) for c in codes], choices)
    run.run()
    ctx.traces += 1
    ctx.count("schedules")
    tiles = run.outcome()
    for code, tile in zip(codes, tiles):
        again = fresh.make(code)
        facts(fresh, code, again)
        if tile != again or hash(tile) != hash(again):
            raise Violation("%s made by a thread is not the tile made later" % (code,))
        for other, t2 in zip(codes, tiles):
            if (tile == t2) is not (plain(code) == plain(other)):
                raise Violation("%s == %s is %r" % (tile, t2, tile == t2))
    return run


def shards(tier):
    deep = tier == "thorough"
    out = [("first", tuple(CODES))]
    out += [("pairs", c, tuple(CODES if deep or c in NEIGHBOURS or c[1] == "p" else NEIGHBOURS)) for c in CODES]
    five = NEIGHBOURS[:6 if deep else 5]
    perms = list(permutations(five))
    out += [("perms", tuple(perms[i:i + 10])) for i in range(0, len(perms), 10)]
    for name, codes in BODIES.items():
        small = name in ("z", "zz")
        bound = 2 if deep or small else 1
        for part in range(8):
            out.append(("threads", codes, bound, part))
    if deep:
        for part in range(8):
            out.append(("threads", ((7, "z"), (7, "z"), (7, "z")), 1, part))
    return out


def weight(shard):
    return 1000 if shard[0] == "threads" else 1


def run_shard(ctx, shard):
    kind = shard[0]
    if kind == "first":
        for codes in (CODES, CODES[::-1]):
            ctx.case({"symbols": codes}, symbols, ctx, codes)
        for code in shard[1]:
            ctx.states += 1
            ctx.case({"history": [code]}, history, ctx, [code], True)
        ctx.sample({"history": [code]})
    elif kind == "pairs":
        for other in shard[2]:
            codes = [shard[1], other]
            ctx.states += 1
            ctx.case({"history": codes}, history, ctx, codes, False)
    elif kind == "perms":
        for codes in shard[1]:
            ctx.states += 1
            ctx.case({"history": codes}, history, ctx, list(codes), True)
    else:
        _, codes, bound, part = shard
        pending = [[]]
        roots = None
        while pending:
            plan = pending.pop()
            run = ctx.case({"threads": codes, "schedule": pack(plan)}, schedule, ctx, codes, plan)
            if run is None:
                continue
            ctx.states += 1
            ctx.transitions += len(run.taken)
            more = threads.successors(plan, run.taken, run.enabled, bound)
            if roots is None:
                roots = more[part::8]           # the first deviations are shared out between eight shards
                more = roots
            pending.extend(more)
        ctx.outcome("threads %s" % (codes,))
        ctx.sample({"threads": codes, "steps of the last schedule": len(run.taken) if run else None})


def pack(plan):
    """Run-length form of a schedule."""
    out = []
    for t in plan:
        if out and out[-1][0] == t:
            out[-1][1] += 1
        else:
            out.append([t, 1])
    return out


def unpack(packed):
    return [t for t, n in packed for _ in range(n)]


def replay(ctx, case):
    if "symbols" in case:
        symbols(ctx, [tuple(c) for c in case["symbols"]])
    elif "threads" in case:
        schedule(ctx, [tuple(c) for c in case["threads"]], unpack(case["schedule"]))
    else:
        history(ctx, [tuple(c) for c in case["history"]], True)
