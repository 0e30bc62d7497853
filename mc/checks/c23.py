"""C23: conversions of different records do not disturb each other."""
import functools
import itertools
import xml.etree.ElementTree as ET

from .. import env
from ..core import Violation
from ..ref import decks, explore
from ..ref.table import Game
from . import c20
from .c15 import basic, line

PROPERTY = "C23"
RULE = ("schedules over several lazy conversions: every schedule with the stated number of switches at command level for two "
        "conversions, every event-level interleaving of short ones, every abandonment point, three conversions in rotation, up to 8 open at once, "
        "and other uses of a record (listing, report sections, tables) inserted at every point; each conversion is compared "
        "with its own run in a freshly loaded program, each record with its snapshot")
BOUNDS = {"quick": "6 records of 9..40 events; 2 switches at command level, 3 switches at event level, 5 uses at every event",
          "thorough": "3 switches at command level on coarser points, 4 at event level"}
ASSUMPTIONS = ["one thread; conversions are advanced as generators"]


@functools.lru_cache(None)
def material():
    """name -> (scenario, path): short records that differ in everything a conversion keeps in mind."""
    out = {}
    four = basic(4, names=["ann", "bob", "cid", "dan"])
    out["four"] = (four, line(four))
    three = basic(3, names=["xi", "yu", "zo"])
    out["three"] = (three, line(three))
    names = [sc.name for sc in decks.scenarios("small")]
    for pick in (1, 4, 7, len(names) - 1):
        sc = decks.scenarios("small")[pick]
        out[names[pick]] = (sc, line(sc))
    # rounds that only one kind of game can have, each after the first round of all
    for name, n, go, numbers in (("two winds, west", 4, 169, (11,)), ("one wind, south", 4, 161, (7,)),
                                 ("three, two winds", 3, 185, (9,)), ("three, one wind", 3, 177, (5,))):
        sc = basic(n, names=["a", "b", "c", "d"][:n], start=(numbers[0], 0, 0))
        sc.go = go
        out[name] = (sc, line(sc))
    return out



TIER = ["quick"]


def keys():
    return list(material())


def shards(tier):
    n = len(keys())
    out = []
    for a, b in itertools.product(range(n), repeat=2):
        if a < 3 or b < 2 or a == b:
            out.append(("commands", a, b, 2))
        out.append(("events", a, b, 3 if tier == "quick" else 4))
    out += [("abandon", a, None, None) for a in range(n)]
    out += [("rotate", a, None, None) for a in range(n)]
    out += [("uses", a, u, None) for a in range(n) for u in range(len(USES))]
    out += [("again", a, None, None) for a in range(n)]
    out += [("many", a, most, None) for a in range(n) for most in ((4, 8) if tier == "quick" else (4, 8, 12, 40))]
    if tier == "thorough":
        out += [("commands", a, b, 3) for a in range(3) for b in range(3)]
    return out


def record_of(name):
    from mahjong.record.reader import TenhouRecord
    sc, path = material()[name]
    return TenhouRecord(explore.document(sc, path))


def freeze(c):
    return c.timestamp, c.event and c.event.name, c.prop.scope.name, c.sub_scope_id, c.property.name, c.update_method.name, \
        norm(c.value), norm(c.state)


def norm(v):
    return sorted(v) if isinstance(v, list) and v and all(isinstance(x, str) for x in v) else repr(v)


def snapshot(record):
    return [(e.tag, dict(e.attrib), e.timestamp, len(list(e._wrapped_xml_event)) if hasattr(e, "_wrapped_xml_event") else 0)
            for e in record.events], [[e.timestamp for e in g.events] for g in record.game_list], str(record), \
        [str(g) for g in record.game_list], [str(p) for p in record.players], list(record.end_score), list(record.end_point)


_alone = {}


def alone(name):
    """The commands of the record converted alone in a freshly loaded program."""
    if name not in _alone:
        env.forget()
        env.bind()
        from mahjong.record.universe.tenhou import to_commands
        _alone[name] = [freeze(c) for c in to_commands(record_of(name))]
        env.forget()
        env.bind()
    return _alone[name]


def prepare(names):
    for n in names:
        alone(n)


class Run:
    """One lazy conversion, compared command by command with its run alone."""

    def __init__(self, ctx, name, record=None, strict=False):
        from mahjong.record.universe.tenhou import to_command_iter
        self.ctx, self.name, self.want = ctx, name, alone(name)
        self.record = record or record_of(name)
        self.iter = to_command_iter(self.record, strict)
        self.at = 0

    def advance(self, n):
        """n commands, or up to the end when None."""
        while n is None or n > 0:
            try:
                c = next(self.iter)
            except StopIteration:
                if self.at != len(self.want):
                    raise Violation("the conversion of %s ended after %d of %d commands" % (self.name, self.at, len(self.want)))
                if n is not None:
                    raise Violation("the conversion of %s ended too early" % self.name)
                return
            got = freeze(c)
            if self.at >= len(self.want) or got != self.want[self.at]:
                raise Violation("command %d of %s is %r, alone %r"
                                % (self.at, self.name, got, self.want[self.at] if self.at < len(self.want) else None))
            self.at += 1
            self.ctx.transitions += 1
            if n is not None:
                n -= 1


def boundaries(name):
    """Command counts at the ends of events."""
    want = alone(name)
    stamps = [w[0] for w in want]
    return [0] + [i for i in range(1, len(want)) if stamps[i] != stamps[i - 1]] + [len(want)]


def schedule(ctx, a, b, cuts, same):
    """Runs a and b alternately: a up to cuts[0], b up to cuts[1], a up to cuts[2], ... then both to the end."""
    ctx.traces += 1
    ctx.states += 1
    record = record_of(a)
    before = snapshot(record)
    first = Run(ctx, a, record)
    second = Run(ctx, b, record if same else None)
    runs = [first, second]
    for i, cut in enumerate(cuts):
        run = runs[i % 2]
        run.advance(cut - run.at)
    for run in (runs[len(cuts) % 2], runs[1 - len(cuts) % 2]):
        run.advance(None)
    if snapshot(record) != before:
        raise Violation("the record %s changed" % a)


def schedules(ctx, a, b, switches, points):
    pa, pb = points(a), points(b)
    for cut in itertools.product(*[pa if i % 2 == 0 else pb for i in range(switches)]):
        if any(cut[i] <= cut[i - 2] for i in range(2, len(cut))) or cut[0] == 0 or len(cut) > 1 and cut[1] == 0:
            continue
        for same in (False, True) if a == b else (False,):
            ctx.sample([a, b, cut])
            ctx.case({"kind": "schedule", "records": [a, b], "cuts": list(cut), "same": same}, schedule, ctx, a, b, cut, same)


def thin(points, most):
    step = max(1, -(-len(points) // most))
    return sorted(set(points[::step]) | {points[0], points[-1]})


# ------------------------------------------------------------------------------------------------ uses of a record
def u_commands(record):
    from mahjong.record.universe.tenhou import to_commands
    to_commands(record)


def u_raw(record):
    from mahjong.record.universe.tenhou import to_command_records
    list(to_command_records(record, raw=True))


def u_partial(record):
    from mahjong.record.universe.tenhou import to_command_records
    for _ in zip(range(11), to_command_records(record)):
        pass


def u_paifu(record):
    record.to_paifu()


def u_replay(record):
    from mahjong.record.universe.executor import GameExecutor
    from mahjong.record.universe.tenhou import to_command_iter
    for _ in zip(range(40), GameExecutor(strict_mode=True).execute(to_command_iter(record, True))):
        pass


def u_listing(record):
    str(record), repr(record), [(str(g), repr(g), g.game_index()) for g in record.game_list]
    [str(e) for e in record.events]


def u_tracking(record):
    from mahjong.record.state import DiscardTiles, InvisibleTiles, PlayerHand, PlayerMeld
    for p in record.players:
        for cls in (PlayerHand, PlayerMeld, DiscardTiles):
            cls(p).passed_events(record.game_list[0].events).value
    InvisibleTiles(len(record.players)).passed_events(record.game_list[0].events).value


def u_report(record):
    from mahjong.tenhou_record_check import game_reason_list
    game_reason_list(record.game_list[-1], record.players[-1], record)


USES = [u_commands, u_raw, u_partial, u_paifu, u_replay, u_listing, u_tracking]


def used(ctx, a, b, use, at):
    """At command `at` of the conversion of a, another record (or the same) is used otherwise."""
    ctx.traces += 1
    ctx.states += 1
    run = Run(ctx, a)
    other = run.record if b == a else record_of(b)
    before = [snapshot(r) for r in (run.record, other)]
    run.advance(at)
    use(other)
    run.advance(None)
    if [snapshot(r) for r in (run.record, other)] != before:
        raise Violation("%s changed a record" % use.__name__)


def abandoned(ctx, a, b, at, how):
    """A conversion of a is given up after `at` commands, then b is converted."""
    ctx.traces += 1
    ctx.states += 1
    run = Run(ctx, a)
    run.advance(at)
    if how == "close":
        run.iter.close()
    elif how == "drop":
        del run.iter
    elif how == "throw":
        try:
            run.iter.throw(KeyboardInterrupt())
        except KeyboardInterrupt:
            pass
    after = Run(ctx, b)
    after.advance(None)
    Run(ctx, a).advance(None)


def failed(ctx, a, b, event, what):
    """A conversion that raises in the middle (a damaged record) must not disturb the next one."""
    from mahjong.record.universe.tenhou import to_commands
    ctx.traces += 1
    ctx.states += 1
    record = record_of(a)
    target = record.events[event]
    old = dict(target.attrib)
    try:
        for k in list(target.attrib):
            target.attrib[k] = what
        try:
            to_commands(record)
        except Exception:
            pass
    finally:
        target.attrib.clear()
        target.attrib.update(old)
    Run(ctx, b).advance(None)
    Run(ctx, a, record).advance(None)


def rotate(ctx, names, step):
    """Three conversions advanced in turn, `step` commands each."""
    ctx.traces += len(names)
    ctx.states += 1
    runs = [Run(ctx, n) for n in names]
    while any(r.at < len(r.want) for r in runs):
        for r in runs:
            r.advance(min(step, len(r.want) - r.at))
    for r in runs:
        r.advance(None)


def many(ctx, ks, a, count, first, how):
    """`count` conversions are begun one after another, some commands each, and then finished."""
    ctx.traces += count
    ctx.states += 1
    runs = []
    for i in range(count):
        run = Run(ctx, ks[(a + i * (1 + a % 3)) % len(ks)])
        run.advance(first + i)
        runs.append(run)
    if how == "one given up":
        del runs[a % count]
    if how == "in turn":
        while any(r.at < len(r.want) for r in runs):
            for r in runs:
                r.advance(min(4, len(r.want) - r.at))
    for r in runs[::-1] if how == "last first" else runs:
        r.advance(None)


def run_shard(ctx, shard):
    kind, a, b, c = shard
    TIER[0] = ctx.tier
    ks = keys()
    prepare(ks)
    if kind == "commands":
        most = (25 if TIER[0] == 'quick' else 60) if c == 2 else 14
        schedules(ctx, ks[a], ks[b], c, lambda n: thin(list(range(1, len(alone(n)) + 1)), most))
    elif kind == "events":
        schedules(ctx, ks[a], ks[b], c, lambda n: thin(boundaries(n), 6)[1:])
    elif kind == "abandon":
        for at in range(0, len(alone(ks[a]))):
            for j, b in enumerate(ks):
                how = ("leave", "close", "drop", "throw")[(at + j) % 4]
                ctx.case({"kind": "abandon", "records": [ks[a], b], "at": at, "how": how}, abandoned, ctx, ks[a], b, at, how)
        for event in range(len(record_of(ks[a]).events)):
            for what in ("", "x", "1"):
                b = ks[(event + a) % len(ks)]
                ctx.case({"kind": "failed", "records": [ks[a], b], "event": event, "what": what}, failed, ctx, ks[a], b, event,
                         what)
    elif kind == "rotate":
        for names in itertools.permutations(ks, 3):
            if names[0] == ks[a]:
                for step in (1, 3, 8, 34):
                    ctx.case({"kind": "rotate", "records": list(names), "step": step}, rotate, ctx, names, step)
    elif kind == "uses":
        for at in thin(boundaries(ks[a]), 8)[1:]:
            for other in ks:
                ctx.case({"kind": "use", "records": [ks[a], other], "use": b, "at": at}, used, ctx, ks[a], other, USES[b], at)
    elif kind == "many":
        for first in (1, 5):
            for how in ("in order", "last first", "in turn", "one given up"):
                ctx.case({"kind": "many", "first": a, "count": b, "begin": first, "how": how}, many, ctx, ks, a, b, first, how)
    else:
        for n in (ks[a], ks[(a + 1) % len(ks)]):
            ctx.case({"kind": "report", "record": n}, reported, ctx, n)


def reported(ctx, name):
    """The same record object, used in every way again and again."""
    record = record_of(name)
    before = snapshot(record)
    ctx.states += 1
    for use in USES + [u_report]:
        for strict in (False, True):
            Run(ctx, name, record, strict).advance(None)
        use(record)
        ctx.traces += 1
        if snapshot(record) != before:
            raise Violation("%s changed the record" % use.__name__)
    Run(ctx, name, record).advance(None)


def replay(ctx, case):
    prepare(keys())
    kind = case["kind"]
    if kind == "schedule":
        ctx.case(case, schedule, ctx, case["records"][0], case["records"][1], case["cuts"], case["same"])
    elif kind == "abandon":
        ctx.case(case, abandoned, ctx, case["records"][0], case["records"][1], case["at"], case["how"])
    elif kind == "failed":
        ctx.case(case, failed, ctx, case["records"][0], case["records"][1], case["event"], case["what"])
    elif kind == "rotate":
        ctx.case(case, rotate, ctx, case["records"], case["step"])
    elif kind == "many":
        ctx.case(case, many, ctx, keys(), case["first"], case["count"], case["begin"], case["how"])
    elif kind == "use":
        ctx.case(case, used, ctx, case["records"][0], case["records"][1], USES[case["use"]], case["at"])
    else:
        ctx.case(case, reported, ctx, case["record"])
