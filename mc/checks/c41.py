"""C41: work done by several threads gives what it gives alone."""
import contextlib
import functools
import xml.etree.ElementTree as ET

from .. import env, impl, reports, switch
from ..core import Violation
from ..ref import explore
from .c15 import basic, line
from .c21 import scratch

PROPERTY = "C41"
TECHNIQUE = ("stateless model checking: two threads of the real code under a controlled scheduler, every schedule with one switch "
             "away from a running thread at the stated places, and with two of them inside the same function")
RULE = ("for every pair of jobs, the first is interrupted before every line it reaches (the stated passes), the second runs to its "
        "end, and the first goes on; and with two switches: the second is interrupted too, in the same function. "
        "Each job must give what it gives alone in a freshly loaded program")
BOUNDS = {"quick": "the 2 jobs of each of 14 kinds in both orders, and 10 mixed pairs; each line, told apart by where its function is called from, at its "
                   "first, second and last pass (mixed and lazy: first and last); two switches at first passes, at the same or the following line",
          "thorough": "each line at its first 12 passes and its last; two switches at the first two and the last pass, at any "
                       "two lines of a function"}
ASSUMPTIONS = ["threads are switched between lines of the repository's code, never inside libraries",
               "each thread has its own analyser, trackers and builders; records and the report maker are shared",
               "the answers of the hand analysis inside reports are replaced by the reference's"]


# ------------------------------------------------------------------------------------------------ jobs
@functools.lru_cache(None)
def game(which):
    n = (4, 3)[which]
    sc = basic(n, names=["ann", "bob", "cid", "dan"][:n] if which else ["eve", "fay", "gus", "hal"])
    return sc, line(sc)


def document(which):
    return explore.document(*game(which))


def record(which):
    from mahjong.record.reader import TenhouRecord
    return TenhouRecord(document(which))


def tiles(which):
    from mahjong.container.set import TileSet
    from mahjong.container.utils import tile_set_from_string
    text = ("1340m7z", "5s055p22z")[which]

    def body():
        hand = tile_set_from_string(text)
        more = hand + TileSet(t for t in hand)
        less = more - tile_set_from_string(text[:1] + "m")
        one = sorted(hand)[0]
        return [str(t) for t in sorted(hand)], str(more), str(less), len(more), str(one.next()), \
            str(one.triplet()), str(one.pair()), str(one.flush())
    return body


HANDS = ("34555m", "33345m")


def hand_of(text):
    from mahjong.container.utils import tile_set_from_string
    return tile_set_from_string(text)


def matching(which):
    from mahjong.container.pattern.win import NormalTypeWin, UniquePairs
    hand = hand_of(HANDS[which])

    def body():
        shape = NormalTypeWin(1, 1)
        splits = sorted(sorted(map(str, split)) for split in shape.unique_win_selections(hand))
        return shape.match(hand), UniquePairs(1).match(hand), splits
    return body


def waiting(which):
    from mahjong.container.pattern.win import NormalTypeWin
    from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting
    hand = hand_of(("2378m", "1155z")[which])

    def body():
        own = HeuristicPatternMatchWaiting(NormalTypeWin(1, 1))
        step, useful = own.waiting_and_useful_tiles(hand)
        return own.before_waiting_step(hand), step, sorted(map(str, useful))
    return body


def batch(which):
    from mahjong.container.pattern.win import UniquePairs
    from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting
    hand = hand_of(("1122m5p", "33z67s9p")[which])

    def body():
        own = HeuristicPatternMatchWaiting(UniquePairs(2))
        return sorted((str(t), step, sorted(map(str, useful))) for t, step, useful in own.batch_waiting_and_useful_tiles(hand))
    return body


def reading(which):
    root = document(which)

    def body():
        from mahjong.record.reader import TenhouRecord
        return told(TenhouRecord(root))
    return body


def told(r):
    return str(r), [str(g) for g in r.game_list], [str(p) for p in r.players], r.end_score, r.end_point, str(r.game_type), \
        [[e.timestamp for e in g.events] for g in r.game_list], [g.seeds for g in r.game_list]


def sheets(which):
    r = record(which)
    return lambda: (r.to_paifu(), [str(e) for e in r.events])


def freeze(c):
    value = lambda v: sorted(v) if isinstance(v, list) and v and all(isinstance(x, str) for x in v) else repr(v)
    return c.timestamp, c.event and c.event.name, c.prop.scope.name, c.sub_scope_id, c.property.name, c.update_method.name, \
        value(c.value), value(c.state)


def converting(which):
    r = record(which)

    def body():
        from mahjong.record.universe.tenhou import to_commands
        return [freeze(c) for c in to_commands(r)]
    return body


def lazily(which):
    r = record(which)

    def body():
        from mahjong.record.universe.tenhou import to_command_records
        return [tuple(map(str, c)) for c in to_command_records(r, raw=True)]
    return body


def commands(which, n):
    from mahjong.record.universe.tenhou import to_commands
    return to_commands(record(which))[:n]


def replaying(which):
    cs = commands(which, 16)

    def body():
        from mahjong.record.universe.executor import GameExecutor
        return [sorted((str(k), v) for k, v in s.flatten().items() if v != "null") for s in GameExecutor(strict_mode=True).execute(cs)]
    return body


def saving(which):
    cs = commands(which, 6)

    def body():
        from mahjong.record.universe.command import GameCommand
        table = GameCommand.clean(GameCommand.to_dataframe(cs))
        return [[str(x) for x in row] for row in table.values.tolist()]
    return body


def tracking(which):
    r = record(which)

    def body():
        from mahjong.record.state import DiscardTiles, DoraIndicators, GameStateCollection, InvisibleTiles, PlayerHand, PlayerMeld
        p = r.players[which + 1]
        start = GameStateCollection(hand=PlayerHand(p), melds=PlayerMeld(p), discards=DiscardTiles(p), dora=DoraIndicators(),
                                    unseen=InvisibleTiles(len(r.players)))
        out = []
        for g in r.game_list:
            out += [{k: sorted(v, key=str) for k, v in vars(s.value) .items()} for s in map(values, start.with_key_events(g.events))]
        return out
    return body


def values(state):
    from argparse import Namespace

    class Seen:
        value = Namespace(**{k: [str(x) for x in v.value] for k, v in vars(state.value).items()})
    return Seen


def reporting(which):
    r = record(which)
    checker = reports.checker()

    def body():
        return str(checker.parse(r, which + 1))
    return body


def listing(which):
    root = document(which)
    name = "log%d.mjlog" % which
    ET.ElementTree(root).write(name, encoding="utf-8")

    def body():
        from mahjong.record.util_functions import light_dataframe_from_file
        return light_dataframe_from_file(name, abstract=False).astype(str).values.tolist()
    return body


def building(which):
    made = ("a", "b")[which]

    def body():
        from mahjong.record.const import doras, initial_tiles
        from mahjong.record.utils.builder import Builder
        from mahjong.record.utils.value.gametype import GameType
        from mahjong.record.utils.value.meld import meld_from
        b = Builder(lambda **kw: sorted(kw.items()))
        out = []
        with b.when(x=made, y=1):
            out.append(b(z=2))
            with b.when(x=which):
                out.append(b(y=made))
            out.append(b())
        out.append(b())
        out.append((doras(["4m", "5z"][which:]), sorted(initial_tiles((4, 3)[which], True)), str(GameType((169, 177)[which]))))
        meld = meld_from(explore.element("N", {"who": str(which), "m": str((10314, 42057)[which])}))
        return out, str(meld)
    return body


JOBS = {"tiles": tiles, "matching": matching, "waiting": waiting, "batch": batch, "reading": reading, "sheets": sheets,
        "converting": converting, "lazily": lazily, "replaying": replaying, "saving": saving, "tracking": tracking,
        "reporting": reporting, "listing": listing, "building": building}
MIXED = [("converting", "replaying"), ("replaying", "converting"), ("converting", "building"), ("reading", "converting"),
         ("reporting", "tracking"), ("sheets", "reading"), ("tiles", "waiting"), ("saving", "converting"),
         ("converting", "reporting"), ("reporting", "converting")]
DIRS = {"waiting": ("container", "tile"), "batch": ("container", "tile"), "matching": ("container", "tile"),
        "tiles": ("container", "tile")}


def counts(kind):
    roots = tuple(env.REPO + "/mahjong/%s/" % d for d in DIRS.get(kind, ()))
    return (lambda path: path.startswith(roots)) if roots else (lambda path: True)


PARTS = 4


def shards(tier):
    deep = tier != "quick"
    passes = (12, 2, None) if deep else (2, 1, 2)
    out = []
    for kind in JOBS:
        for first in (0, 1):
            for part in range(PARTS):
                out.append(("pair", kind, first, kind, 1 - first, (1, 0, 0) if kind == "lazily" and not deep else passes, part))
    for a, b in MIXED:
        for part in range(PARTS):
            out.append(("pair", a, 0, b, 1, (4, 0, 0) if deep else (1, 0, 0), part))
    return out


def weight(shard):
    return 5 if shard[1] in ("replaying", "waiting", "batch", "converting", "lazily") else 1


def reload():
    """The program freshly loaded."""
    env.forget()
    env.bind()
    reports._checker = None
    impl._api = None


@contextlib.contextmanager
def answers(*kinds):
    if "reporting" not in kinds:
        yield
    else:
        with reports.known_answers():
            yield


def one(ctx, jobs, want, schedule):
    run = switch.Run(jobs, schedule)
    ctx.traces += 1
    ctx.transitions += run.turns
    for i, (b, w) in enumerate(zip(run.bodies, want)):
        if b.error is not None:
            raise Violation("thread %d fails beside the other: %s %s" % (i, type(b.error).__name__, b.error))
        if b.result != w:
            raise Violation("thread %d gives %s beside the other, alone %s" % ((i,) + difference(b.result, w)))


def difference(got, want):
    """The first place where two answers differ."""
    if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)) and len(got) == len(want):
        for g, w in zip(got, want):
            if g != w:
                return difference(g, w)
    if isinstance(got, str) and isinstance(want, str) and len(got) > 100:
        at = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        return "...%r" % got[at:at + 80], "...%r" % want[at:at + 80]
    return repr(got)[:300], repr(want)[:300]


def run_pair(ctx, shard, only=None):
    _, a, first, b, second, passes, part = shard
    with scratch():
        want = []
        for kind, which in ((a, first), (b, second)):
            reload()
            with answers(kind):
                want.append(JOBS[kind](which)())
        reload()
        with answers(a, b):
            make = [JOBS[a](first), JOBS[b](second)]
            filters = both(counts(a), counts(b))
            for body in make:
                body()
            if only is not None:
                return one(ctx, make, want, only)
            routes = [switch.course(body, filters) for body in make]
            plans = schedules(routes, *passes)
            for plan in plans[part::PARTS]:
                ctx.states += 1
                ctx.case({"shard": list(shard), "schedule": plan}, one, ctx, make, want, plan)
            ctx.outcome("%s beside %s" % (a, b))
            ctx.count("lines", len(routes[0]))
            ctx.sample({"jobs": [a, b], "lines": [len(r) for r in routes], "schedules": len(plans)})


def schedules(routes, passes, twice, near):
    """One switch: thread 0 is left at a place of its course.  Two: thread 1 is left as well, at the same line or one of the next
    `near` - 1 lines of the same function (None: any), called from the same place."""
    plans = [[(0, place), (1, None)] for place in switch.places(routes[0], passes)]
    inside = {}
    for place in switch.places(routes[1], twice, near is None) if twice else ():
        inside.setdefault(place[:2] + place[3:4], []).append(place)
    for place in switch.places(routes[0], twice, near is None) if twice else ():
        options = inside.get(place[:2] + place[3:4], [])
        if near is not None:
            lines = sorted({o[2] for o in options if o[2] >= place[2]})[:near]
            options = [o for o in options if o[2] in lines]
        plans += [[(0, place), (1, other), (0, None)] for other in options]
    return plans


def both(f, g):
    return lambda path: f(path) or g(path)


def run_shard(ctx, shard):
    run_pair(ctx, shard)


def replay(ctx, case):
    shard = case["shard"]
    ctx.case(case, run_pair, ctx, shard, [tuple(x) for x in case["schedule"]])
