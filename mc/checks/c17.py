"""C17: unseen tiles and dora indicators match the table after every event."""
from ..core import Violation
from ..ref import decks, explore
from ..ref.table import Game
from .c16 import make_event, Token

PROPERTY = "C17"
RULE = ("the game tree of the reference table is walked with a budget of deviations; the unseen-tiles and dora-indicator "
        "trackers are advanced along every edge and compared with what lies open on the model's table; on the way back "
        "every earlier state must still hold its value")
BOUNDS = {"quick": "19 scenarios (16 with two short deals, 2 whole rounds to the last tile), up to 9 draws per deal, every history with at most 2 deviations (selected "
                   "discards) / 1 deviation (any discard, including tile number 0); chunked feeding at every split point of histories "
                   "with at most 1 deviation; every single tile as first indicator, discard and new indicator",
          "thorough": "any discard as deviation with 2 deviations, 3 deviations on the scripted decks"}
ASSUMPTIONS = ["rounds are cut after the stated number of draws and then end like an exhausted wall"]


def shards(tier):
    size = "small" if tier == "quick" else "large"
    out = [("tree", size, b) for b in explore.packed(decks.scenarios(size), {None: 2}, 12)]
    if tier == "quick":
        out += [("tree", "large", b) for b in explore.packed(decks.scenarios("large"), {None: 1}, 200)]
    else:
        small = decks.scenarios("small")
        deep = {sc.name: 3 for sc in small if sc.script or "first" in sc.name or "ready" in sc.name and sc.n == 3}
        out += [("tree", "small", b) for b in explore.packed(small, {**deep, None: 0}, 4)]
    out += [("chunks", "small", b) for b in explore.packed(decks.scenarios("small"), {None: 1}, 60)]
    out += [("single", n, ()) for n in (3, 4)]
    return out


def all_tiles(n):
    return [t for t in range(136) if n == 4 or t // 4 == 0 or t // 4 >= 8]


def trackers(sc):
    from mahjong.record.state import InvisibleTiles, DoraIndicators
    return InvisibleTiles(sc.n), DoraIndicators()


def observed(states):
    return sorted(states[0].value), list(states[1].value)


def expected(model, tiles):
    return [t for t in tiles if t not in model.visible], list(model.indicators)


def compare(got, want, history):
    if got[0] != want[0]:
        extra, lost = sorted(set(got[0]) - set(want[0])), sorted(set(want[0]) - set(got[0]))
        raise Violation("unseen tiles differ: %r wrongly unseen, %r wrongly seen" % (extra, lost), history=history)
    if got[1] != want[1]:
        raise Violation("dora indicators %r, on the table %r" % (got[1], want[1]), history=history)


def explore_tree(ctx, sc, shard):
    game, tiles = Game(sc), all_tiles(sc.n)

    def enter(token, move, fresh):
        if token is None:
            start = trackers(sc)
            compare(observed(start), (tiles, []), None)
            token = Token(start, None, 0, None, None)
        event = make_event(move.tag, move.attrib, token.index)
        new = Token(tuple(s.scan(event) for s in token.states), expected(move.state, tiles), token.index + 1, token, move)
        if fresh:
            ctx.states += 1
            ctx.transitions += 1
            ctx.outcome(move.info["ev"] + (":" + move.info["kind"] if move.info["ev"] == "call" else ""))
        compare(observed(new.states), new.value, new.history)
        return new

    def leave(token):
        if token is not None and observed(token.states) != token.value:
            raise Violation("an earlier state changed afterwards", history=token.history())

    try:
        explore.walk(game, shard, enter, leave)
    except Violation as v:
        h = v.detail.get("history")
        v.detail["history"] = h() if callable(h) else h
        raise
    ctx.traces += 1


def chunks(ctx, sc, path):
    events = [make_event(m.tag, m.attrib, i) for i, m in enumerate(path)]
    tiles = all_tiles(sc.n)
    wanted = [expected(m.state, tiles) for m in path]
    start = trackers(sc)
    columns = [list(s.with_events(events)) for s in start]
    ctx.traces += 1
    ctx.transitions += len(events) * 2
    for i, want in enumerate(wanted):
        compare(observed([c[i] for c in columns]), want, "with_events, event %d" % i)
    for cut in range(len(events) + 1):
        head = [s.passed_events(events[:cut]) for s in start]
        if cut:
            compare(observed(head), wanted[cut - 1], "passed_events of the first %d events" % cut)
        tail = [s.passed_events(events[cut:]) for s in head]
        compare(observed(tail), wanted[-1], "passed_events in chunks cut at %d" % cut)
    compare(observed(start), (tiles, []), "the initial trackers")


def single(ctx, n, tile):
    """Each tile as the first indicator, as a discard and as a new indicator, two deals in a row."""
    tiles = all_tiles(n)
    others = [t for t in tiles if t != tile]
    a, b, c = others[5], others[50], others[-1]
    init = {"seed": "0,0,0,1,2,%d" % tile, "ten": "250,250,250,250", "oya": "0"}
    init.update({"hai%d" % p: "" if p >= n else ",".join(str(t) for t in others[10 + 13 * p:23 + 13 * p]) for p in range(4)})
    for seat in range(n):
        for order in (0, 1):
            states = trackers(type("S", (), {"n": n}))
            seen, dora = [], []
            events = [("INIT", init, [tile], [tile]),
                      ("%s%d" % ("DEFG"[seat], a), {}, [a], []), ("DORA", {"hai": str(b)}, [b], [b]),
                      ("INIT", dict(init, seed="1,0,0,1,2,%d" % c), [c], [c])]
            tail = [("%s%d" % ("DEFG"[seat], tile), {}, [tile], []), ("DORA", {"hai": str(tile)}, [tile], [tile])]
            events.append(tail[order])
            for i, (tag, attrib, shown, turned) in enumerate(events):
                if tag == "INIT":
                    seen, dora = [], []
                seen, dora = seen + shown, dora + turned
                states = tuple(s.scan(make_event(tag, attrib, i)) for s in states)
                ctx.transitions += 1
                compare(observed(states), ([t for t in tiles if t not in seen], dora), (tag, attrib))
    ctx.states += 1


def run_shard(ctx, shard):
    kind, size, bundle = shard
    if kind == "single":
        for tile in all_tiles(size):
            ctx.case({"kind": kind, "n": size, "tile": tile}, single, ctx, size, tile)
        return
    scenarios = decks.scenarios(size)
    for part in bundle:
        sc = scenarios[part[0]]
        if kind == "tree":
            ctx.case({"kind": kind, "size": size, "part": list(part)}, explore_tree, ctx, sc, part)
        else:
            for path in explore.histories(Game(sc), part):
                ctx.sample([m.tag for m in path])
                ctx.case({"kind": kind, "size": size, "scenario": part[0], "moves": explore.choices_of(path)},
                         chunks, ctx, sc, path)


def replay(ctx, case):
    if case["kind"] == "single":
        ctx.case(case, single, ctx, case["n"], case["tile"])
        return
    scenarios = decks.scenarios(case["size"])
    if case["kind"] == "tree":
        ctx.case(case, explore_tree, ctx, scenarios[case["part"][0]], tuple(case["part"]))
    else:
        sc = scenarios[case["scenario"]]
        ctx.case(case, chunks, ctx, sc, explore.find(Game(sc), case["moves"]))
