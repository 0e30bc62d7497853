"""C06: hand analysis has no side effects and no memory."""
import itertools
import signal

from .. import env
from ..core import HANG_SECONDS, Hang, Violation, watch
from ..impl import Api
from ..ref import hands as H

PROPERTY = "C06"
RULE = ("a scene is a fresh import of the code with shared hands, win shapes and analysers and an alphabet of calls on them; the answer of "
        "every call alone in a fresh import is the baseline; every sequence of calls up to the stated length is run in a fresh import and "
        "every answer compared with the baseline, then all hands, the melds and pairs of all tiles and the tile list; a sequence holding "
        "every triple of calls is run in one history; every interleaving of two listings, and every call at every point of a listing, is run")
BOUNDS = {"quick": "15 scenes of 8-10 calls: all sequences of 2 in fresh imports, all sequences of 3 on fresh objects in 5 scenes, every "
                   "triple in one history, all interleavings of the first 3 steps of two listings; "
                   "7 sets of all hands over 9 kinds put to the same objects and to new ones in the opposite order",
          "thorough": "all sequences of 3 in fresh imports, 4 on fresh objects, every sequence of 4 in one history, interleavings of 6 steps"}
ASSUMPTIONS = ["the order in which a listing yields its items is not claimed", "hands are as large as the shape needs, less one"]

# hands (notation, insertion order, red fives), win shapes, analysers (kind, shape number), calls
N = "normal"
SCENES = [
    # one analyser object asked about different hands
    dict(hands=[("12345m", "up", 0), ("1122m3z", "down", 0)], shapes=[(N, 1, 1)], analysers=[("heuristic", 0)],
         calls=[("step", 0, 0), ("step", 0, 1), ("useful", 0, 0), ("useful", 0, 1), ("both", 0, 1), ("batch", 0, 0), ("batch", 0, 1),
                ("match", 0, 0)], deep=True),
    # two analysers and matchers sharing one shape
    dict(hands=[("23456p", "down", 0), ("22233p", "up", 0)], shapes=[(N, 1, 1), (N, 1, 0)],
         analysers=[("heuristic", 0), ("heuristic", 1), ("heuristic", 0)],
         calls=[("step", 0, 0), ("step", 1, 0), ("both", 2, 1), ("batch", 0, 0), ("batch", 1, 1), ("list", 0, 1), ("unique", 1, 0),
                ("match", 1, 1), ("useful", 1, 0)], deep=True),
    # seven-pair shapes remember what they used only inside one search
    dict(hands=[("1122334m", "mixed", 0), ("1111223m", "up", 0)], shapes=[("pairs", 3), ("pairs", 4), (N, 1, 1)],
         analysers=[("heuristic", 0), ("heuristic", 1), ("heuristic", 2)],
         calls=[("list", 0, 0), ("list", 0, 1), ("unique", 1, 0), ("match", 1, 1), ("step", 0, 1), ("both", 1, 0), ("batch", 0, 0),
                ("useful", 2, 0)], deep=True),
    # overlapping melds, many splits
    dict(hands=[("11122233m", "dealt", 0), ("22233344m", "down", 0)], shapes=[(N, 2, 1), (N, 1, 1)], analysers=[("heuristic", 0)],
         calls=[("list", 0, 0), ("unique", 0, 0), ("list", 1, 0), ("match", 0, 1), ("unique", 1, 1), ("part", 0, 0), ("step", 0, 0),
                ("batch", 0, 1), ("str", 0, 0)]),
    # red fives in different places
    dict(hands=[("34555p", "up", 1), ("45556p", "down", 2)], shapes=[(N, 1, 1), ("pairs", 2)], analysers=[("heuristic", 0), ("heuristic", 1)],
         calls=[("list", 0, 0), ("match", 0, 1), ("both", 0, 0), ("both", 0, 1), ("batch", 0, 0), ("batch", 0, 1), ("step", 1, 0),
                ("unique", 1, 1), ("str", 0, 1)], deep=True),
    # the four-copies rule on and off
    dict(hands=[("1111m", "up", 0), ("11112m", "down", 0)], shapes=[(N, 1, 1)], analysers=[("heuristic", 0), ("heuristic", 0)],
         calls=[("both", 0, 0), ("free", 0, 0), ("both", 0, 1), ("free", 0, 1), ("both", 1, 0), ("free", 1, 1), ("batch", 0, 1),
                ("freebatch", 0, 1), ("step", 0, 0)], deep=True),
    # the exhaustive analysers beside the fast one
    dict(hands=[("11z", "up", 0), ("1z2m", "down", 0)], shapes=[(N, 0, 1), (N, 1, 0)],
         analysers=[("brute", 0), ("pattern", 0), ("heuristic", 1), ("pattern", 1)],
         calls=[("step", 0, 0), ("useful", 0, 1), ("both", 1, 1), ("step", 1, 0), ("both", 2, 0), ("both", 3, 1), ("useful", 3, 0),
                ("both", 0, 0)]),
    dict(hands=[("1235m", "down", 0), ("1156m", "up", 0)], shapes=[(N, 1, 1)], analysers=[("pattern", 0), ("heuristic", 0)],
         calls=[("both", 0, 0), ("useful", 0, 1), ("step", 0, 1), ("both", 1, 0), ("step", 1, 1), ("batch", 1, 0), ("match", 0, 1),
                ("free", 0, 0)]),
    # equal contents in different objects
    dict(hands=[("12333m", "up", 0), ("12333m", "down", 0), ("12333m", "mixed", 0)], shapes=[(N, 1, 1), (N, 1, 1)],
         analysers=[("heuristic", 0), ("heuristic", 1)],
         calls=[("list", 0, 0), ("list", 1, 1), ("batch", 0, 2), ("batch", 1, 1), ("both", 0, 0), ("both", 1, 2), ("part", 0, 2),
                ("str", 0, 1)]),
    # same kinds, different counts; many melds
    dict(hands=[("1122334455m", "up", 0), ("11122333444m", "down", 0)], shapes=[(N, 3, 1), (N, 3, 0)],
         analysers=[("heuristic", 0), ("heuristic", 1)],
         calls=[("match", 0, 1), ("list", 1, 0), ("unique", 1, 0), ("step", 1, 0), ("both", 1, 0), ("batch", 1, 0), ("step", 0, 1),
                ("useful", 0, 1)]),
    # whole hands, complete and ready, both shapes
    dict(hands=[("112233m445566p7s7s", "up", 0), ("123m456p789s1122z", "dealt", 0)], shapes=[(N, 4, 1), ("pairs", 7)],
         analysers=[("heuristic", 0), ("heuristic", 1)],
         calls=[("match", 0, 0), ("match", 1, 0), ("list", 0, 0), ("unique", 0, 0), ("batch", 0, 0), ("both", 0, 1), ("both", 1, 1),
                ("batch", 1, 1)]),
    # honours and borders between suits
    dict(hands=[("89m12p9s1z", "mixed", 0), ("8899m11p1z", "down", 0)], shapes=[(N, 2, 0), (N, 1, 1), ("pairs", 3)],
         analysers=[("heuristic", 0), ("heuristic", 1), ("heuristic", 2)],
         calls=[("both", 0, 0), ("both", 1, 0), ("batch", 1, 1), ("batch", 2, 1), ("step", 2, 0), ("useful", 2, 1), ("match", 2, 1),
                ("list", 1, 1)]),
    # partly consumed listings kept alive
    dict(hands=[("111222333m", "down", 0), ("111122223333m", "up", 0)], shapes=[(N, 3, 0), (N, 2, 1), (N, 4, 0)], analysers=[("heuristic", 1)],
         calls=[("part", 0, 0), ("part", 1, 0), ("upart", 0, 0), ("list", 0, 0), ("list", 2, 1), ("unique", 1, 0), ("match", 0, 0),
                ("batch", 0, 0), ("bpart", 0, 0), ("str", 0, 0)]),
    # hands changed by their owner between calls
    dict(hands=[("12345s", "up", 0), ("11234s", "down", 0)], shapes=[(N, 1, 1)], analysers=[("heuristic", 0)],
         calls=[("grown", 0, 0), ("grownlist", 0, 1), ("changed", 0, 0), ("changed", 0, 1), ("both", 0, 0), ("list", 0, 1), ("batch", 0, 0), ("step", 0, 1), ("match", 0, 1),
                ("str", 0, 0)]),
    # questions that cannot be answered, between others
    dict(hands=[("1356m", "up", 0), ("11m22m", "down", 0)], shapes=[(N, 1, 1), ("pairs", 2)], analysers=[("heuristic", 0), ("heuristic", 1)],
         calls=[("tiny", 0, 0), ("odd", 0, 0), ("both", 0, 0), ("step", 0, 1), ("tiny", 1, 1), ("batch", 1, 0), ("list", 0, 1),
                ("odd", 1, 1), ("match", 1, 1)], deep=True),
]
# every hand of so many tiles of these kinds is put to one analyser and one shape
CROWDS = [("123456789m", 4, (N, 1, 1)), ("123456789s", 5, (N, 1, 1)), ("789m123p159s", 5, (N, 1, 1)), ("1234567z19p", 4, (N, 0, 2)),
          ("123456789p", 4, ("pairs", 2)), ("1234567z5m0p", 5, ("pairs", 3)), ("123456789m", 6, (N, 2, 0))]
LISTINGS = {"list", "unique", "batch", "freebatch"}


class World:
    """A fresh import of the code with the objects of a scene."""

    shared = None                      # the import used when `fresh` is off

    def __init__(self, scene, fresh=True):
        if fresh or World.shared is None:
            env.forget()
            env.quiet()
            World.shared = Api()
        self.a = a = World.shared
        self.scene = scene
        from mahjong.container.distribution import TileDistribution
        self.all_tiles = TileDistribution
        self.counts = [H.parse(text) for text, _, _ in scene["hands"]]
        self.hands = [a.hand(c, order, reds) for c, (_, order, reds) in zip(self.counts, scene["hands"])]
        self.faces = [self.spelled(h) for h in self.hands]
        self.shapes = [a.win(s) for s in scene["shapes"]]
        cls = {"heuristic": a.reasoning.HeuristicPatternMatchWaiting, "pattern": a.reasoning.PatternMatchWaiting,
               "brute": a.reasoning.BruteForceWaiting}
        self.analysers = [cls[kind](self.shapes[s]) for kind, s in scene["analysers"]]
        self.units = self.tile_units()
        self.alive = []
        self.alone = False             # every question on new objects (for the baseline)

    @staticmethod
    def spelled(hand):
        return sorted("%s%s" % (t.number, t.color) for t, n in hand.items() for _ in range(n))

    def tile_units(self):
        out = []
        for t in self.a.tiles + list(self.a.reds.values()):
            for unit in (t.pair(), t.triplet(), t.flush()):
                out.append(None if unit is None else sorted((str(x), n) for x, n in unit.items()))
        return out

    # ---- canonical answers
    def names(self, tiles):
        return sorted(H.NAME[self.a.kind(t)] for t in tiles)

    def split(self, split):
        return sorted("".join(H.NAME[k] for k in unit) for unit in self.a.units(split))

    def entry(self, item):
        tile, step, tiles = item
        return [H.NAME[self.a.kind(tile)], step, self.names(tiles)]

    def listing(self, op, i, h):
        """(iterator of canonical items)"""
        hand = self.hands[h]
        if op == "list":
            return map(self.split, self.shapes[i].win_selections(hand))
        if op == "unique":
            return map(self.split, self.shapes[i].unique_win_selections(hand))
        return map(self.entry, self.analysers[i].batch_waiting_and_useful_tiles(hand, op == "batch"))

    def run(self, call):
        op, i, h = call
        hand = self.hands[h]
        if op in LISTINGS:
            return sorted(self.listing(op, i, h))
        if op == "part":
            it = self.listing("list", i, h)
        elif op == "upart":
            it = self.listing("unique", i, h)
        elif op == "bpart":
            it = self.listing("batch", i, h)
        elif op == "match":
            return bool(self.shapes[i].match(hand))
        elif op == "str":
            return str(hand)
        elif op == "changed":
            return self.changed(i, h)
        elif op in ("tiny", "odd"):
            return self.refused(op, i)
        elif op in ("grown", "grownlist"):
            # the owner draws a tile, asks, and discards it again
            extra = self.a.TileSet([self.a.tiles[22]])
            more = hand + extra
            answer = self.analysers[i].before_waiting_step(more) if op == "grown" else sorted(
                map(self.split, self.shapes[i].win_selections(more)))
            del more[self.a.tiles[22]]
            return answer
        else:
            w, rule = self.analysers[i], op != "free"
            if op == "step":
                return w.before_waiting_step(hand)
            if op == "useful":
                return self.names(w.useful_tiles(hand))
            step, tiles = w.waiting_and_useful_tiles(hand, rule)
            return [step, self.names(tiles)]
        next(it, None)
        self.alive.append(it)
        return "started"

    def refused(self, op, i):
        """A hand too small for the shape, or one that holds something else than tiles: whatever comes of it."""
        hand = self.a.TileSet([self.a.tiles[0]] if op == "tiny" else [self.a.tiles[0], self.a.tiles[1], "x"])
        w, out = self.analysers[i], []
        for ask in (lambda: w.before_waiting_step(hand), lambda: w.waiting_and_useful_tiles(hand), lambda: w.useful_tiles(hand),
                    lambda: list(w.batch_waiting_and_useful_tiles(hand)), lambda: list(w.win_pattern.win_selections(hand)),
                    lambda: w.win_pattern.match(hand)):
            try:
                out.append(repr(ask()))
            except Exception as error:
                out.append(type(error).__name__)
        return out

    def changed(self, i, h):
        """The owner puts tiles into the hand itself and takes them out again, asking after each step."""
        answers = []
        counts = list(self.counts[h])
        for k, n in ((None, 0), (18, 1), (18, -1), (22, 1), (26, 1), (22, -1), (26, -1)):
            if k is not None:
                tile = self.a.tiles[k]
                counts[k] += n
                if self.hands[h][tile] + n:
                    self.hands[h][tile] += n
                else:
                    del self.hands[h][tile]
            if self.alone:
                hand, shape = self.a.hand(counts), self.a.win(self.scene["shapes"][i])
                analyser = self.a.reasoning.HeuristicPatternMatchWaiting(shape)
            else:
                hand, shape, analyser = self.hands[h], self.shapes[i], self.analysers[i]
            step, tiles = analyser.waiting_and_useful_tiles(hand)
            answers.append([bool(shape.match(hand)), sorted(map(self.split, shape.unique_win_selections(hand))), step, self.names(tiles),
                            sorted(map(self.entry, analyser.batch_waiting_and_useful_tiles(hand, True)))])
        return answers

    def intact(self, after):
        for hand, faces in zip(self.hands, self.faces):
            if self.spelled(hand) != faces or any(n <= 0 for n in hand.values()):
                raise Violation("after %s a hand of %s holds %s" % (after, faces, dict(hand)))
        units = self.tile_units()
        if units != self.units:
            bad = next((a, b) for a, b in zip(units, self.units) if a != b)
            raise Violation("after %s a shared meld or pair changed: %s instead of %s" % (after, bad[0], bad[1]))
        if [H.NAME[self.a.kind(t)] for t in self.all_tiles.ALL_TILES] != H.NAME:
            raise Violation("after %s the list of all tiles changed" % (after,))


def baseline(scene):
    out = {}
    for call in scene["calls"]:
        w = World(scene)
        w.alone = True
        out[call] = w.run(call)
    return out


def word(ctx, scene, calls, base, fresh=True):
    w = World(scene, fresh)
    for i, call in enumerate(calls):
        got = w.run(call)
        ctx.transitions += 1
        if got != base[call]:
            raise Violation("%s answers %r after %s, alone %r" % (call, got, calls[max(0, i - 3):i], base[call]))
        w.intact(calls[max(0, i - 3):i + 1])
    ctx.traces += 1
    ctx.states += 1


def de_bruijn(k, n):
    """Cyclic sequence over range(k) holding every word of length n."""
    a, out = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]


def long_word(ctx, scene, order, base):
    calls = [scene["calls"][i] for i in de_bruijn(len(scene["calls"]), order)]
    w = World(scene)
    for i, call in enumerate(calls):
        got = w.run(call)
        del w.alive[:-3]
        ctx.transitions += 1
        if got != base[call]:
            raise Violation("%s answers %r after %d calls, the last %s; alone %r" % (call, got, i, calls[max(0, i - 4):i], base[call]))
        if i % 7 == 0:
            w.intact(calls[max(0, i - 7):i + 1])
    w.intact("the history")
    ctx.traces += 1
    ctx.states += 1


def crowd_hands(crowd):
    kinds = [k for k, n in enumerate(H.parse(crowd[0])) if n]
    for picked in itertools.combinations_with_replacement(kinds, crowd[1]):
        counts = [0] * 34
        for k in picked:
            counts[k] += 1
        if max(counts) <= 4:
            yield counts


def crowd_answers(crowd, hands, shared):
    """{hand: answer}; on the same objects for all, or on new ones for each."""
    w = World(dict(hands=[], shapes=[crowd[2]], analysers=[("heuristic", 0)], calls=[]))
    shape, analyser, out = w.shapes[0], w.analysers[0], {}
    for counts in hands:
        if not shared:
            shape = w.a.win(crowd[2])
            analyser = w.a.reasoning.HeuristicPatternMatchWaiting(shape)
        hand = w.a.hand(counts)
        answer = [bool(shape.match(hand)), sorted(map(w.split, shape.unique_win_selections(hand))), analyser.before_waiting_step(hand)]
        if len(counts) and sum(counts) % 3 != 2 or crowd[2][0] == "pairs":
            step, tiles = analyser.waiting_and_useful_tiles(hand)
            answer += [step, w.names(tiles)]
        else:
            answer.append(sorted(map(w.entry, analyser.batch_waiting_and_useful_tiles(hand, True))))
        out[tuple(counts)] = answer
    return out


def crowded(ctx, number):
    """All hands on the same objects, in order; each on its own objects, in the opposite order."""
    crowd = CROWDS[number]
    hands = list(crowd_hands(crowd))
    together, alone = crowd_answers(crowd, hands, True), crowd_answers(crowd, hands[::-1], False)
    ctx.states += len(hands)
    ctx.transitions += 2 * len(hands)
    ctx.traces += 2
    for counts in hands:
        if together[tuple(counts)] != alone[tuple(counts)]:
            raise Violation("%s: %r on objects that were asked about the hands before it, %r on new ones"
                            % (H.text(counts), together[tuple(counts)], alone[tuple(counts)]))


def listings(scene):
    return [c for c in scene["calls"] if c[0] in LISTINGS] + [("unique", c[1], c[2]) for c in scene["calls"] if c[0] == "list"]


def interleave(ctx, scene, one, two, schedule, base, fresh=True):
    w = World(scene, fresh)
    its, got = [w.listing(*one), w.listing(*two)], [[], []]
    for turn in schedule:
        item = next(its[turn], None)
        if item is not None:
            got[turn].append(item)
        ctx.transitions += 1
    for turn in (0, 1):
        for item in its[turn]:
            got[turn].append(item)
    for turn, call in ((0, one), (1, two)):
        if sorted(got[turn]) != base[call]:
            raise Violation("listing %s yields %r when advanced alternately with %s, alone %r" % (
                call, sorted(got[turn]), (two, one)[turn], base[call]))
    w.intact((one, two))
    ctx.traces += 1
    ctx.states += 1


def amid(ctx, scene, one, call, points, base, fresh=True):
    """`call` is made at the given points of listing `one`."""
    w = World(scene, fresh)
    it, got, at = w.listing(*one), [], 0
    while True:
        if at in points:
            answer = w.run(call)
            ctx.transitions += 1
            if answer != base[call]:
                raise Violation("%s answers %r inside listing %s, alone %r" % (call, answer, one, base[call]))
        item = next(it, None)
        if item is None:
            break
        got.append(item)
        at += 1
    if sorted(got) != base[one]:
        raise Violation("listing %s yields %r around %s, alone %r" % (one, sorted(got), call, base[one]))
    w.intact((one, call))
    ctx.traces += 1
    ctx.states += 1


def schedules(n, m):
    for places in itertools.combinations(range(n + m), n):
        yield [0 if i in places else 1 for i in range(n + m)]


def shards(tier):
    out = []
    for s, scene in enumerate(SCENES):
        for first in range(len(scene["calls"])):
            out.append(("words", s, first, 3 if tier == "thorough" else 2))
            if scene.get("deep"):
                out.append(("triples", s, first, 3 if tier == "quick" else 4))
        out.append(("long", s, None, 3 if tier == "quick" else 4))
        for i in range(len(listings(scene))):
            out.append(("interleave", s, i, 3 if tier == "quick" else 6))
            out.append(("amid", s, i, None))
    out += [("crowd", i, None, None) for i in range(len(CROWDS))]
    return out


def probe(ctx, shard, case, f, *args):
    """Runs in the shared import; when something is wrong, once more in a fresh one, else names the whole shard."""
    try:
        watch()
        f(ctx, *args, False)
        signal.alarm(0)
    except (Exception, Hang) as error:
        signal.alarm(0)
        before = len(ctx.violations)
        ctx.case(case, f, ctx, *args)
        if len(ctx.violations) == before:
            ctx.case({"kind": "shard", "shard": list(shard)}, fail, "in a longer history: %s" % (error,))


def fail(what):
    raise Violation(what)


def run_shard(ctx, shard):
    kind, s, i, extra = shard
    if kind == "crowd":
        return ctx.case({"kind": kind, "crowd": s}, crowded, ctx, s)
    scene = SCENES[s]
    base = full_baseline(scene)
    calls = scene["calls"]
    if kind == "words":
        for rest in itertools.product(calls, repeat=extra - 1):
            w = [calls[i]] + list(rest)
            ctx.case({"kind": kind, "scene": s, "calls": w}, word, ctx, scene, w, base)
    elif kind == "triples":
        for rest in itertools.product(calls, repeat=extra - 1):
            w = [calls[i]] + list(rest)
            probe(ctx, shard, {"kind": "words", "scene": s, "calls": w}, word, scene, w, base)
    elif kind == "long":
        ctx.case({"kind": kind, "scene": s, "order": extra}, long_word, ctx, scene, extra, base)
    elif kind == "interleave":
        one = listings(scene)[i]
        for two in listings(scene)[i:]:
            n, m = min(len(base[one]) + 1, extra), min(len(base[two]) + 1, extra)
            for schedule in schedules(n, m):
                probe(ctx, shard, {"kind": kind, "scene": s, "one": one, "two": two, "schedule": schedule},
                      interleave, scene, one, two, schedule, base)
    else:
        one = listings(scene)[i]
        n = len(base[one])
        for call in calls:
            for points in [[p] for p in range(min(n, 6) + 1)] + [list(range(n + 1))]:
                probe(ctx, shard, {"kind": kind, "scene": s, "one": one, "call": call, "points": points},
                      amid, scene, one, call, points, base)
    ctx.sample({"scene": s, "kind": kind})


def full_baseline(scene):
    base = baseline(scene)
    for call in listings(scene):
        if call not in base:
            base[call] = World(scene).run(call)
    return base


def replay(ctx, case_):
    if case_["kind"] == "shard":
        return run_shard(ctx, tuple(case_["shard"]))
    if case_["kind"] == "crowd":
        return crowded(ctx, case_["crowd"])
    scene = SCENES[case_["scene"]]
    base = full_baseline(scene)
    if case_["kind"] == "words":
        word(ctx, scene, [tuple(c) for c in case_["calls"]], base)
    elif case_["kind"] == "long":
        long_word(ctx, scene, case_["order"], base)
    elif case_["kind"] == "interleave":
        interleave(ctx, scene, tuple(case_["one"]), tuple(case_["two"]), case_["schedule"], base)
    else:
        amid(ctx, scene, tuple(case_["one"]), tuple(case_["call"]), case_["points"], base)
