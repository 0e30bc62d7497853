"""C31: the win-rate tool reports exactly what its experiments showed."""
import contextlib
import importlib
import itertools
import re
import time

from .. import web
from ..core import Violation
from ..impl import api
from ..ref import dist, hands as H
from .c30 import Source, owned, wall_counts

PROPERTY = "C31"
RULE = ("the tool is run with scripted input and an owned sampler: every outcome of the draws (or every combination of outcomes of "
        "several experiments from a representative set) is one run; the printed table is compared with the reference recogniser "
        "applied to the hand without each discard plus the tiles drawn; further runs use the real sampler under an owned random "
        "source, and under an owned clock (every way in which the first looks at the clock find it still, moved or far ahead); every "
        "sequence of refused inputs up to three precedes a run")
BOUNDS = {"quick": "36 hands; 0 and 1 draw: every outcome; 2 draws: every pair of 34 kinds on 8 hands; 2 and 3 experiments: all "
                   "combinations of 7 representative outcomes; every two experiments of three draws of three kinds on 12 hands; 81 + 448 clock schedules on 12 hands; 60 and 122 draws; 1..40 experiments",
          "thorough": "2 draws on every hand, 3 draws over 12 kinds, 4 experiments"}
ASSUMPTIONS = ["hands hold at most four copies of a kind", "at least one experiment, at most as many draws as tiles remain",
               "the pick-rate columns are not claimed", "the default of 1000 experiments is exercised once"]

HANDS = """123456789m12345p 2345678p2345777s 11223344556677s 1122334455667m8p 19m19p19s1234567z7z
1111m2222p33334s5z 555m055p555s77z111m 123m456p789s11222z 1122m3344p5566s77z 1133m5577p1133s57z 111222333m44455p
1123345567789m1z 147m258p369s12345z 1199m1199p1199s12z 2223334445556m7s 23m567p234s777z111s 111m111p111s11122z
13579m13579p1357s 1112345678999m9p 111234m567p99s678s 55667788m556677p 112233m112233p12s 0m0p0s55m55p55s11223z
444m444p444s4455z1s 22334455667788p 1234567z1234567z 123m123p123s12344z 3334445556667s8s 119m9p119s112233z1p
666777888999s1z2z 24m24p24s246m246p24s 33m44m55m66p77p88s99s 12m45p78s12345z678m 111555m999m11155p 147m147p147s11122z
055m055p05s123456z 1111m2222m3333m44m 1234m1234p1234s12z 1111z2222z3333z44z 55506m55506p5506s"""
HANDS = [h for h in HANDS.split()]
WIDTH = 14


def counts_of(text):
    wall = wall_counts(text)
    return [4 - n for n in wall]


HANDS = [h for h in HANDS if sum(counts_of(h)) == WIDTH and 0 <= min(counts_of(h)) and max(counts_of(h)) <= 4]

_dist = None


def wins(counts):
    global _dist
    if _dist is None:
        _dist = dist.Distance(4, 1)
    return sum(1 for c in counts if c >= 2) >= 7 or _dist.missing(counts, 4, 1) == 0


def shards(tier):
    out = []
    for i in range(len(HANDS)):
        out.append(("one", i, None))
        if i % 4 == 0 or tier == "thorough":
            out += [("two", i, part) for part in range(4)]
        out.append(("many", i, 3 if tier == "quick" else 4))
        out.append(("real", i, None))
        if i % 3 == 1 or tier == "thorough":
            out += [("numbers", i, part) for part in range(3)]
    if tier == "thorough":
        out += [("three", i, None) for i in range(len(HANDS))]
    out += [("refused", i, None) for i in range(len(REFUSED))]
    out += [("clock", i, None) for i in range(0, len(HANDS), 3 if tier == "quick" else 1)]
    out.append(("default", 0, None))
    return out


REFUSED = ["", "123m", "123456789m1234p", "123456789m123456p", "hello", "1111222233334m8z"]
ROW = re.compile(r"discard\s+(\S+):\s+(-?[0-9.]+|nan)%\s+win rate\s+\(([0-9]+)/([0-9]+)\)")


CLOCKS = ("perf_counter", "monotonic", "time", "process_time")


@contextlib.contextmanager
def clock(steps):
    """The tool imported under an owned clock that goes on by steps[i] seconds at the i-th look (then stands still)."""
    if steps is None:
        yield
        return
    from mahjong import win_rate_demo as demo
    saved = {name: getattr(time, name) for name in CLOCKS}
    now, looks = [1000.0], [0]

    def look():
        if looks[0] < len(steps):
            now[0] += steps[looks[0]]
        looks[0] += 1
        return now[0]
    try:
        for name in CLOCKS:
            setattr(time, name, look)
        importlib.reload(demo)
        looks[0] = 0
        yield
    finally:
        for name, real in saved.items():
            setattr(time, name, real)
        importlib.reload(demo)


def tool(inputs, sample):
    """Runs the tool; returns (printed text, number of inputs used)."""
    from mahjong import win_rate_demo as demo
    from mahjong.container import distribution
    used = []

    def lines():
        for line in inputs:
            used.append(line)
            yield line
        raise Violation("the tool asks for more input than expected: %r" % (used,))

    saved = distribution.TileDistribution.sample
    own = distribution.StaticWall.__dict__.get("sample")
    try:
        if sample is not None:
            distribution.StaticWall.sample = sample(saved)
        with web.console(lines()) as text:
            demo.main()
    finally:
        if own is not None:
            distribution.StaticWall.sample = own
        elif "sample" in distribution.StaticWall.__dict__:
            del distribution.StaticWall.sample
    return text.getvalue(), len(used)


def check(ctx, hand, draws, experiments, refused=(), tape=None, default=False, steps=None):
    """experiments: list of drawn kinds per experiment (scripted), or their number (real sampler, tape of outcomes)."""
    a = api()
    counts = counts_of(hand)
    left = [4 - c for c in counts]
    drawn = []
    scripted = not isinstance(experiments, int)
    total = len(experiments) if scripted else experiments

    def scripted_sample(_original):
        def sample(wall, count):
            have = [wall.weight_of(t) for t in a.tiles]
            if have != left:
                raise Violation("the tool draws from a wall with %r" % ({H.NAME[k]: n for k, n in enumerate(have)
                                                                         if n != left[k]},))
            if count != draws:
                raise Violation("the tool draws %r tiles, asked for %d" % (count, draws))
            if len(drawn) >= total:
                raise Violation("more than %d experiments" % total)
            kinds = experiments[len(drawn)]
            drawn.append(list(kinds))
            for k in kinds:
                yield a.tiles[k]
        return sample

    def recorded_sample(original):
        def sample(wall, count):
            mine = []
            drawn.append(mine)
            for t in original(wall, count):
                mine.append(a.kind(t))
                yield t
        return sample

    inputs = list(refused) + [hand, str(draws), "" if default else str(total)]
    if scripted:
        with clock(steps):
            text, used = tool(inputs, scripted_sample)
    else:
        outcomes = list(tape)
        with owned(Source(outcomes, lambda: 122)):
            text, used = tool(inputs, recorded_sample)
        for mine in drawn:
            have = list(counts)
            for k in mine:
                have[k] += 1
            if max(have) > 4 or len(mine) != draws:
                raise Violation("impossible draws %r" % ([H.NAME[k] for k in mine],))
    ctx.traces += 1
    ctx.states += 1
    ctx.transitions += len(drawn)
    if used != len(inputs):
        raise Violation("%d of %d inputs were used" % (used, len(inputs)))
    if len(drawn) != total:
        raise Violation("%d experiments instead of %d" % (len(drawn), total))
    want = {}
    for k in range(34):
        if counts[k]:
            hits = 0
            for mine in drawn:
                have = list(counts)
                have[k] -= 1
                for d in mine:
                    have[d] += 1
                hits += wins(have)
            want[H.NAME[k]] = hits
    rows = ROW.findall(text)
    got = {}
    for tile, rate, hits, of in rows:
        tile = "5" + tile[1] if tile[0] == "0" else tile
        if tile in got:
            raise Violation("discard %s is listed twice" % tile)
        got[tile] = int(hits)
        if int(of) != total:
            raise Violation("%s of %s experiments, asked for %d" % (hits, of, total))
        if abs(float(rate) - 100.0 * int(hits) / total) > 0.0051:
            raise Violation("%s%% for %s of %d experiments" % (rate, hits, total))
    if got != want:
        raise Violation("reported %r, the experiments show %r (draws %r)" % (got, want, [[H.NAME[k] for k in m] for m in drawn][:5]))
    ctx.outcome("winning discards %d" % sum(1 for h in want.values() if h))


def possible(hand, draw):
    counts = counts_of(hand)
    for k in draw:
        counts[k] += 1
    return max(counts) <= 4


def representatives(hand, n):
    """Outcomes of one draw that make different sets of discards win."""
    seen = {}
    counts = counts_of(hand)
    for k in range(34):
        if counts[k] < 4:
            result = []
            for d in range(34):
                if counts[d]:
                    have = list(counts)
                    have[d] -= 1
                    have[k] += 1
                    result.append(wins(have))
            seen.setdefault(tuple(result), []).append(k)
    picked = [ks[0] for ks in seen.values()]
    rest = [k for ks in seen.values() for k in ks[1:]]
    return (picked + rest)[:n]


def near(hand):
    """Three kinds whose numbers among three tiles drawn decide most differently which discards win."""
    counts = counts_of(hand)
    free = [k for k in representatives(hand, 34) if counts[k] <= 2][:9]

    def results(three):
        out = set()
        for wall in itertools.combinations_with_replacement(three, 3):
            if possible(hand, wall):
                out.add(tuple(wins([c - (k == d) + wall.count(k) for k, c in enumerate(counts)])
                              for d in range(34) if counts[d]))
        return len(out)
    return max(itertools.combinations(free, 3), key=results)


def case(ctx, hand, draws, experiments, refused=(), tape=None, default=False, steps=None):
    ctx.sample([hand, draws, experiments])
    ctx.case({"hand": hand, "draws": draws, "experiments": experiments, "refused": list(refused), "tape": tape,
              "default": default, "steps": steps}, check, ctx, hand, draws, experiments, refused, tape, default, steps)


def run_shard(ctx, shard):
    kind, i, part = shard
    hand = HANDS[i]
    if kind == "one":
        case(ctx, hand, 0, [[]])
        case(ctx, hand, 0, [[]] * 7)
        for k in range(34):
            if possible(hand, [k]):
                case(ctx, hand, 1, [[k]])
                case(ctx, hand, 1, [[k]] * 40)
    elif kind == "two":
        for n, pair in enumerate(itertools.combinations_with_replacement(range(34), 2)):
            if n % 4 == part and possible(hand, pair):
                case(ctx, hand, 2, [list(pair if n % 3 else pair[::-1])])
    elif kind == "three":
        some = representatives(hand, 12)
        for triple in itertools.combinations_with_replacement(some, 3):
            if possible(hand, triple):
                case(ctx, hand, 3, [list(triple)])
    elif kind == "many":
        some = representatives(hand, 7)
        for n in range(2, part + 1):
            for word in itertools.product(some, repeat=n):
                if n == 2 or word[0] <= word[-1]:
                    case(ctx, hand, 1, [[k] for k in word])
    elif kind == "numbers":
        # the same kinds in different numbers: every two experiments that draw three tiles of three kinds
        walls = [w for w in itertools.combinations_with_replacement(near(hand), 3) if possible(hand, w)]
        for n, (first, second) in enumerate(itertools.product(walls, repeat=2)):
            if n % 3 == part and first != second:
                case(ctx, hand, 3, [list(first), list(second)])
    elif kind == "real":
        for outcome in range(0, 122, 3):
            case(ctx, hand, 1, 2, (), [outcome, (outcome * 5 + 1) % 122])
        for draws in (2, 5, 18, 60, 122):
            case(ctx, hand, draws, 2, (), [(7 * j + draws) % 122 for j in range(2 * draws)])
    elif kind == "clock":
        some = representatives(hand, 3)
        for steps in itertools.product((0, 0.4, 70000.5), repeat=4):
            case(ctx, hand, 1, [[some[j % len(some)]] for j in range(4)], (), None, False, [0] + list(steps) + [2, 0.9])
        for n in range(1, 8):
            for steps in itertools.product((0, 1.5), repeat=6):
                case(ctx, hand, 1, [[some[(j * j) % len(some)]] for j in range(n)], (), None, False, list(steps) * 2)
    elif kind == "refused":
        for n in range(3):
            for word in itertools.product(REFUSED, repeat=n):
                refused = [REFUSED[i]] + list(word)
                case(ctx, HANDS[(i + 5 * n) % len(HANDS)], 1, [[next(k for k in range(34) if possible(HANDS[(i + 5 * n) % len(HANDS)],
                                                                                           [k]))]], refused)
    else:
        case(ctx, HANDS[7], 0, [[]] * 1000, (), None, True)


def replay(ctx, case_):
    ctx.case(case_, check, ctx, case_["hand"], case_["draws"], case_["experiments"], case_["refused"], case_["tape"],
             case_["default"], case_.get("steps"))
