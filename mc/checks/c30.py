"""C30: wall sampling draws without replacement, uniformly."""
import contextlib
import itertools
import random
from fractions import Fraction

from ..core import Violation
from ..impl import api
from ..ref import hands as H

PROPERTY = "C30"
RULE = ("the random source is owned: every sequence of random outcomes (one per interval of equal probability) is run through the "
        "real sampler; each path is compared with the reference wall, the distribution over paths with equal chances per copy; "
        "two samplings of one wall are interleaved in every way")
BOUNDS = {"quick": "all walls of up to 6 copies over 3 kinds (6 choices of kinds), drawn empty; the full 136-tile wall and six 122-tile "
                   "walls, 2 draws; interleavings of two samplings of walls of up to 3 copies",
          "thorough": "walls of up to 7 copies; interleavings up to 4"}
ASSUMPTIONS = ["at most as many draws as there are tiles", "a draw that asks the random source once for a number in [0,1), or for "
               "random bits, is checked for its distribution; any other way only for which tiles can come out",
               "red and plain fives are one kind"]


def shards(tier):
    most = 6 if tier == "quick" else 7
    out = []
    for i, kinds in enumerate(KINDS):
        for counts in itertools.product(range(5), repeat=3):
            if 0 < sum(counts) <= most:
                out.append(("small", i, counts))
            if 0 < sum(counts) <= most - 3:
                out.append(("two", i, counts))
    out += [("large", i, part) for i in range(len(LARGE)) for part in range(4)]
    out += [("picks", i, None) for i in range(len(LARGE))]
    return out


KINDS = [(0, 1, 2), (0, 8, 9), (33, 4, 27), (13, 22, 31), (26, 17, 18), (30, 32, 5)]
FULL = tuple([4] * 34)
LARGE = [FULL, "123456789m12345p", "11223344556677s", "19m19p19s12345677z", "1111222233334z", "555m0555p555s77z",
         "123m456p789s11222z"]


def wall_counts(entry):
    if not isinstance(entry, str):
        return list(entry)
    counts, digits = [4] * 34, []
    for ch in entry:
        if ch.isdigit():
            digits.append(ch)
        else:
            for d in digits:
                counts[H.INDEX["%s%s" % (d if d != "0" else "5", ch)]] -= 1
            digits = []
    return counts


class Stop(Exception):
    pass


class Source:
    """Replays a tape of decisions; every question beyond the tape is answered with the first alternative and noted."""

    def __init__(self, tape, parts):
        self.tape, self.parts = tape, parts
        self.asked = []            # number of alternatives of each question
        self.bits = 0

    def decide(self, n):
        at = len(self.asked)
        self.asked.append(n)
        return self.tape[at] if at < len(self.tape) else 0

    def random(self):
        n = self.parts()
        return (self.decide(n) + 0.5) / n

    def getrandbits(self, k):
        self.bits += 1
        if k > 10 or self.bits > 24:
            raise Stop()
        return self.decide(1 << k)


@contextlib.contextmanager
def owned(source):
    inst = random._inst
    saved = {name: getattr(random, name) for name in ("random", "getrandbits")}
    inst.random, inst.getrandbits = source.random, source.getrandbits
    inst._randbelow = lambda n: source.decide(n) if n else 0
    random.random, random.getrandbits = source.random, source.getrandbits
    try:
        yield
    finally:
        for name in ("random", "getrandbits", "_randbelow"):
            inst.__dict__.pop(name, None)
        for name, f in saved.items():
            setattr(random, name, f)


def tapes(run):
    """Depth-first over every tape: run(tape) -> list of the numbers of alternatives it met."""
    tape = []
    while True:
        asked = run(tape)
        tape = tape + [0] * (len(asked) - len(tape))
        tape = tape[:len(asked)]
        while tape and tape[-1] + 1 >= asked[len(tape) - 1]:
            tape.pop()
        if not tape:
            return
        tape[-1] += 1


def wall_of(counts):
    from mahjong.container.distribution import StaticWall
    tiles = api().hand(counts)
    return StaticWall(tiles), tiles


def observe(wall, counts, note):
    a = api()
    weights = list(wall.weights())
    if weights != [wall.weight_of(t) for t in wall.ALL_TILES]:
        raise Violation("%s: weights() and weight_of() disagree" % note)
    by_kind = {a.kind(t): w for t, w in zip(wall.ALL_TILES, weights)}
    if len(by_kind) != 34 or [by_kind[k] for k in range(34)] != list(counts):
        raise Violation("%s: weights %r, copies left %r" % (note, by_kind, counts))


def sampled(ctx, counts, draws, fixed=None):
    """Every sequence of outcomes of `draws` draws; fixed restricts the first decision."""
    a = api()
    wall, tiles = wall_of(counts)
    total = sum(counts)
    chances = {}
    exact = [True]

    def run(tape):
        left = list(counts)
        drawn = []
        source = Source(tape if fixed is None else [fixed] + tape, lambda: max(1, total - len(drawn)))
        ctx.traces += 1
        with owned(source):
            it = iter(wall.sample(draws))
            for i in range(draws):
                before = len(source.asked)
                kind = a.kind(next(it))
                ctx.transitions += 1
                if len(source.asked) != before + 1:
                    exact[0] = False
                if left[kind] <= 0:
                    raise Violation("draw %d is %s, none is left in %r after %r" % (i, H.KINDS[kind], tiles, drawn))
                left[kind] -= 1
                drawn.append(kind)
            for extra in it:
                raise Violation("more than %d tiles" % draws)
        weight = Fraction(1)
        for n in source.asked[1 if fixed is not None else 0:]:
            weight /= n
        chances[tuple(drawn)] = chances.get(tuple(drawn), 0) + weight
        return source.asked[1 if fixed is not None else 0:]

    try:
        tapes(run)
    except Stop:
        exact[0] = False
    observe(wall, counts, "after sampling")
    if a.counts(tiles) != list(counts):
        raise Violation("sampling changed the wall to %r" % (tiles,))
    if not exact[0]:
        ctx.count("inexact")
        return
    if fixed is not None:
        base = {}
        for word, p in chances.items():
            base.setdefault(word[0], 0)
            base[word[0]] += p
        if len(base) != 1:
            raise Violation("one outcome, several tiles")
        first = next(iter(base))
        left = list(counts)
        left[first] -= 1
        for word, p in chances.items():
            if p != Fraction(left[word[1]], total - 1):
                raise Violation("after %s, %s comes with chance %s, %d of %d copies are left"
                                % (H.KINDS[first], H.KINDS[word[1]], p, left[word[1]], total - 1))
        return first
    want = {}
    paths(list(counts), draws, Fraction(1), (), want)
    ctx.states += len(want)
    if chances != want:
        for word in set(chances) | set(want):
            if chances.get(word, 0) != want.get(word, 0):
                raise Violation("the draws %r come with chance %s, expected %s"
                                % ([H.KINDS[k] for k in word], chances.get(word, 0), want.get(word, 0)))


def paths(left, draws, chance, done, out):
    if draws == 0:
        out[done] = chance
        return
    total = sum(left)
    for k in range(34):
        if left[k]:
            n = left[k]
            left[k] -= 1
            paths(left, draws - 1, chance * Fraction(n, total), done + (k,), out)
            left[k] += 1


def interleavings(n, m):
    for spots in itertools.combinations(range(n + m), n):
        yield [0 if i in spots else 1 for i in range(n + m)]


def two(ctx, counts):
    """Two samplings of one wall, advanced in every order."""
    a = api()
    wall, tiles = wall_of(counts)
    total = sum(counts)
    for order in interleavings(total, total):
        def run(tape):
            left = [list(counts), list(counts)]
            turn = [0]
            source = Source(tape, lambda: sum(left[turn[0]]))
            its = [iter(wall.sample(total)) for _ in range(2)]
            ctx.traces += 1
            with owned(source):
                for which in order:
                    turn[0] = which
                    kind = a.kind(next(its[which]))
                    ctx.transitions += 1
                    if left[which][kind] <= 0:
                        raise Violation("sampling %d drew %s once too often" % (which, H.KINDS[kind]))
                    left[which][kind] -= 1
            return source.asked
        ctx.states += 1
        try:
            tapes(run)
        except Stop:
            ctx.count("inexact")
    observe(wall, counts, "after two samplings")


def picks(ctx, entry):
    """Every pick and every pair of picks: weights go down by the picked copy, earlier walls stay."""
    a = api()
    counts = wall_counts(entry)
    wall, tiles = wall_of(counts)
    for one in range(34):
        if not counts[one]:
            continue
        chain, left = [(wall, list(counts))], list(counts)
        for step in range(counts[one]):
            left = list(left)
            left[one] -= 1
            chain.append((chain[-1][0].pick(a.tiles[one]), left))
            ctx.transitions += 1
        for other in range(34):
            if left[other]:
                more = list(left)
                more[other] -= 1
                observe(chain[-1][0].pick(a.tiles[other]), more, "picked %s and %s" % (H.KINDS[one], H.KINDS[other]))
                ctx.states += 1
        for n, (w, c) in enumerate(chain):
            observe(w, c, "after %d picks of %s" % (n, H.KINDS[one]))
        ctx.traces += 1
    if a.counts(tiles) != counts:
        raise Violation("picking changed the wall")


def large(ctx, entry, part):
    counts = wall_counts(entry)
    total = sum(counts)
    firsts = {}
    for outcome in range(part, total, 4):
        first = ctx.case({"kind": "large", "wall": entry, "outcome": outcome}, sampled, ctx, counts, 2, outcome)
        ctx.states += 1
        if first is not None:
            firsts[first] = firsts.get(first, 0) + 1
    return firsts


def first_draw(ctx, entry):
    sampled(ctx, wall_counts(entry), 1)


def small_counts(i, counts):
    full = [0] * 34
    for k, n in zip(KINDS[i], counts):
        full[k] = n
    return full


def run_shard(ctx, shard):
    kind, a, b = shard
    ctx.sample(shard)
    if kind == "small":
        counts = small_counts(a, b)
        for draws in range(sum(b) + 1):
            ctx.case({"kind": "small", "kinds": a, "counts": list(b), "draws": draws}, sampled, ctx, counts, draws)
    elif kind == "two":
        ctx.case({"kind": "two", "kinds": a, "counts": list(b)}, two, ctx, small_counts(a, b))
    elif kind == "large":
        if b == 0:
            ctx.case({"kind": "first", "wall": LARGE[a]}, first_draw, ctx, LARGE[a])
        large(ctx, LARGE[a], b)
    else:
        ctx.case({"kind": "picks", "wall": LARGE[a]}, picks, ctx, LARGE[a])


def replay(ctx, case):
    kind = case["kind"]
    if kind == "small":
        ctx.case(case, sampled, ctx, small_counts(case["kinds"], case["counts"]), case["draws"])
    elif kind == "two":
        ctx.case(case, two, ctx, small_counts(case["kinds"], case["counts"]))
    elif kind == "large":
        ctx.case(case, sampled, ctx, wall_counts(case["wall"]), 2, case["outcome"])
    elif kind == "first":
        ctx.case(case, first_draw, ctx, case["wall"])
    else:
        ctx.case(case, picks, ctx, case["wall"])
