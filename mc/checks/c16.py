"""C16: tracked hands, melds and discards match the table after every event."""
from ..core import Violation
from ..ref import decks, explore
from ..ref.table import Game

PROPERTY = "C16"
RULE = ("the game tree of the reference table (three and four seats, every call, riichi, win and draw) is walked with a "
        "budget of deviations from the default line; the trackers of all seats are advanced along every edge and "
        "compared with the model state; on the way back every earlier state must still hold its value")
BOUNDS = {"quick": "19 scenarios (16 with two short deals, 2 whole rounds to the last tile), up to 9 draws per deal, every history with at most 2 deviations (selected "
                   "discards) / 1 deviation (any discard); chunked feeding at every split point of histories with at most 1 deviation",
          "thorough": "any discard as deviation with 2 deviations, 3 deviations on the small decks"}
ASSUMPTIONS = ["rounds are cut after the stated number of draws and then end like an exhausted wall"]



def plan(tier):
    size = "small" if tier == "quick" else "large"
    return size, explore.packed(decks.scenarios(size), {None: 2}, 12)


def shards(tier):
    size, bundles = plan(tier)
    out = [("tree", size, b) for b in bundles]
    if tier == "quick":
        out += [("tree", "large", b) for b in explore.packed(decks.scenarios("large"), {None: 1}, 200)]
    if tier == "thorough":
        small = decks.scenarios("small")
        deep = {sc.name: 3 for sc in small if sc.script or "first" in sc.name or "ready" in sc.name and sc.n == 3}
        out += [("tree", "small", b) for b in explore.packed([sc for sc in small], {**deep, None: 0}, 4)]
    out += [("chunks", "small", b) for b in explore.packed(decks.scenarios("small"), {None: 1}, 60)]
    return out


def make_event(tag, attrib, index):
    from mahjong.record.utils.event import TenhouEvent
    return TenhouEvent(explore.element(tag, attrib), context=None, timestamp=index)


def players(sc):
    from mahjong.record.player import TenhouPlayer
    return [TenhouPlayer(i, "p%d" % i, 0, 1500, "M") for i in range(sc.n)]


def trackers(sc):
    from mahjong.record.state import PlayerHand, PlayerMeld, DiscardTiles
    people = players(sc)
    return tuple(cls(p) for cls in (PlayerHand, PlayerMeld, DiscardTiles) for p in people)


def meld_key(meld):
    own, taken = sorted(meld.self_tiles), sorted(meld.borrowed_tiles)
    return tuple(own), tuple(taken), meld.from_who if taken else None


def model_key(meld):
    own, taken = sorted(meld.own), sorted(meld.taken)
    return tuple(own), tuple(taken), meld.source if taken else None


def observed(states, n):
    return ([sorted(s.value) for s in states[:n]] + [[meld_key(m) for m in s.value] for s in states[n:2 * n]]
            + [list(s.value) for s in states[2 * n:]])


def expected(model, n):
    return ([sorted(h) for h in model.hands] + [[model_key(m) for m in ms] for ms in model.melds]
            + [list(d) for d in model.discards])


WHAT = ("hand", "melds", "discards")


def compare(got, want, n, history):
    if got != want:
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                raise Violation("%s of seat %d is %r, on the table %r" % (WHAT[i // n], i % n, a, b), history=history)


class Token:
    __slots__ = ("states", "value", "index", "parent", "tag", "attrib")

    def __init__(self, states, value, index, parent, move):
        self.states, self.value, self.index, self.parent = states, value, index, parent
        self.tag, self.attrib = (move.tag, move.attrib) if move else (None, None)

    def history(self):
        out, t = [], self
        while t is not None and t.tag:
            out.append((t.tag, t.attrib))
            t = t.parent
        return out[::-1]


def explore_tree(ctx, sc, shard):
    game, n = Game(sc), sc.n

    def enter(token, move, fresh):
        if token is None:
            token = Token(trackers(sc), None, 0, None, None)
        event = make_event(move.tag, move.attrib, token.index)
        new = Token(tuple(s.scan(event) for s in token.states), expected(move.state, n), token.index + 1, token, move)
        if fresh:
            ctx.states += 1
            ctx.transitions += 1
            ctx.outcome(move.info["ev"] + (":" + move.info["kind"] if move.info["ev"] == "call" else ""))
        compare(observed(new.states, n), new.value, n, new.history)
        return new

    def leave(token):
        if token is not None and observed(token.states, n) != token.value:
            raise Violation("an earlier state changed afterwards", history=token.history())

    try:
        explore.walk(game, shard, enter, leave)
    except Violation as v:
        h = v.detail.get("history")
        v.detail["history"] = h() if callable(h) else h
        raise
    ctx.traces += 1


def chunks(ctx, sc, path):
    """with_events, passed_events in two chunks at every split, and all trackers in one collection."""
    from mahjong.record.state import GameStateCollection
    n = sc.n
    events = [make_event(m.tag, m.attrib, i) for i, m in enumerate(path)]
    wanted = [expected(m.state, n) for m in path]
    start = trackers(sc)
    columns = [list(s.with_events(events)) for s in start]
    ctx.traces += 1
    ctx.sample([m.tag for m in path])
    ctx.transitions += len(events) * 3
    for i, want in enumerate(wanted):
        compare(observed([c[i] for c in columns], n), want, n, "with_events, event %d" % i)
    names = ["s%d" % i for i in range(len(start))]
    group = GameStateCollection(**dict(zip(names, start)))
    for i, e in enumerate(events):
        group = group.scan(e)
        compare(observed([getattr(group.value, name) for name in names], n), wanted[i], n, "collection, event %d" % i)
    for cut in range(len(events) + 1):
        head = [s.passed_events(events[:cut]) for s in start]
        if cut:
            compare(observed(head, n), wanted[cut - 1], n, "passed_events of the first %d events" % cut)
        tail = [s.passed_events(events[cut:]) for s in head]
        compare(observed(tail, n), wanted[-1], n, "passed_events in chunks cut at %d" % cut)
    compare(observed(start, n), [[]] * (3 * n), n, "the initial trackers")


def run_shard(ctx, shard):
    kind, size, bundle = shard
    scenarios = decks.scenarios(size)
    for part in bundle:
        sc = scenarios[part[0]]
        if kind == "tree":
            ctx.case({"kind": kind, "size": size, "part": list(part)}, explore_tree, ctx, sc, part)
        else:
            game = Game(sc)
            for path in explore.histories(game, part):
                ctx.case({"kind": kind, "size": size, "scenario": part[0], "moves": explore.choices_of(path)},
                         chunks, ctx, sc, path)


def replay(ctx, case):
    scenarios = decks.scenarios(case["size"])
    if case["kind"] == "tree":
        sc = scenarios[case["part"][0]]
        ctx.case(case, explore_tree, ctx, sc, tuple(case["part"]))
    else:
        sc = scenarios[case["scenario"]]
        ctx.case(case, chunks, ctx, sc, explore.find(Game(sc), case["moves"]))
