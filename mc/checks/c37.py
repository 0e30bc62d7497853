"""C37: every event is recognised for what it is and attributed to its player."""
from itertools import product

from ..core import Violation
from ..ref import decks, explore
from ..ref.table import Game, face
from .c16 import make_event, meld_key, trackers
from .c17 import trackers as table_trackers

PROPERTY = "C37"
RULE = ("every draw and discard tag, and every event of the histories of the reference table, is put to every question about "
        "events: what it is, whose it is, which tile it shows; every tracker's key events are compared with the events after which "
        "its value changes; and every small state machine is run as a tracker over every event sequence")
BOUNDS = {"quick": "all 136 tiles x 4 seats drawn and discarded, put to four players; 19 scenarios with 2 deviations (events); all histories "
                   "with 1 deviation (records, key events); all trackers with at most 3 states over 2 kinds of events, sequences up to 4",
          "thorough": "any discard as deviation with 2 deviations (events), all histories with 2 deviations (records, key events); "
                      "sequences up to 6"}
ASSUMPTIONS = ["answers are read as true or false; which object stands for true is free",
               "a tracker may call more events key events than change its value"]
WHO = {"draw": "is_draw", "discard": "is_discard", "call": "is_open_hand", "reach1": "is_reach", "reach2": "is_reach",
       "win": "is_win"}
WHAT = {"init": "is_game_init", "call": "is_open_hand", "dora": "is_dora_indicator_event", "reach1": "is_richii",
        "reach2": "is_richii", "win": "is_somebody_win_game", "drawn": "is_nobody_win_game"}
CHOICES = ("discard", "call", "win")


def shards(tier):
    size = "small" if tier == "quick" else "large"
    out = [("tiles", who) for who in range(4)]
    out += [("rounds", size, b) for b in explore.packed(decks.scenarios(size), {None: 2}, 20)]
    out += [("records", b) for b in explore.packed(decks.scenarios("small"), {None: 1 if tier == "quick" else 2}, 30)]
    out += [("machines", n, 4 if tier == "quick" else 6) for n in (1, 2, 3)]
    return out


def people(n=4):
    from mahjong.record.player import TenhouPlayer
    return [TenhouPlayer(i, "p%d" % i, 0, 1500, "M") for i in range(n)]


def same(got, want, about):
    if got != want:
        raise Violation("%s: %r, expected %r" % (about, got, want))


def shown(change):
    return None if change is None else ("%s" % change["tile"], change["player"])


def questions(event, info, players, about):
    from mahjong.record import reader
    from mahjong.record.utils import event as E
    ev, who, tile = info["ev"], info.get("who"), info.get("tile")
    for name in sorted(set(WHAT.values())):
        same(bool(getattr(E, name)(event)), WHAT.get(ev) == name, "%s: %s" % (about, name))
    same(bool(reader.is_game_end(event)), ev in ("win", "drawn"), "%s: is_game_end" % about)
    for p in players:
        mine = p.index == who
        for name in sorted(set(WHO.values())):
            same(bool(getattr(p, name)(event)), mine and WHO.get(ev) == name, "%s: %s of seat %d" % (about, name, p.index))
        same(bool(p.is_player_choice(event)), mine and ev in CHOICES, "%s: is_player_choice of seat %d" % (about, p.index))
        if mine and ev == "draw":
            same(p.draw_tile_index(event), tile, "%s: drawn tile" % about)
        if mine and ev == "discard":
            same(p.discard_tile_index(event), tile, "%s: discarded tile" % about)
        if mine and ev == "call":
            same(meld_key(p.opened_hand_type(event)), (tuple(info["own"]), tuple(info["taken"]),
                 info["source"] if info["taken"] else None), "%s: the call" % about)
    for kind, value, change in (("draw", E.draw_value, E.draw_tile_change), ("discard", E.discard_value, E.discard_tile_change)):
        same(value(event), tile if ev == kind else None, "%s: %s_value" % (about, kind))
        same(shown(change(event)), (face(tile), who) if ev == kind else None, "%s: %s_tile_change" % (about, kind))


def look(tag, attrib, info, players):
    about = "event %s %r" % (tag, attrib)
    event = make_event(tag, attrib, 7)
    questions(event, info, players, about)
    questions(explore.element(tag, attrib), info, players, about + " (plain element)")
    carried(event, tag, attrib, info, 7, about)


def carried(event, tag, attrib, info, position, about):
    ev = info["ev"]
    same((event.tag, dict(event.attrib), dict(event.meta_attribute), event.timestamp), (tag, attrib, attrib, position),
         "%s: tag, attributes and position" % about)
    none = "nobody"
    same(getattr(event, "player_index_", none), info["who"] if ev in ("draw", "discard") else none, "%s: player_index_" % about)
    for name, kind in (("see_tiles_", "draw"), ("show_tiles_", "discard")):
        tiles = getattr(event, name, none)
        same([str(t) for t in tiles] if tiles != none else none, [face(info["tile"])] if ev == kind else none, "%s: %s" % (about, name))


def tiles(ctx, who):
    players = people()
    for t in range(136):
        for tag, ev in (("TUVW"[who], "draw"), ("DEFG"[who], "discard")):
            ctx.case({"mode": "tiles", "who": who, "tile": t}, look, "%s%d" % (tag, t), {}, {"ev": ev, "who": who, "tile": t}, players)
            ctx.states += 1
            ctx.transitions += 4


def rounds(ctx, size, bundle):
    for part in bundle:
        sc = decks.scenarios(size)[part[0]]
        seen, players = set(), people(sc.n)

        def enter(token, move, fresh):
            key = (move.tag, tuple(sorted(move.attrib.items())))
            if fresh and key not in seen:
                seen.add(key)
                ctx.states += 1
                ctx.transitions += sc.n
                ctx.outcome(move.info["ev"])
                look(move.tag, move.attrib, move.info, players)
            return token
        ctx.case({"mode": "rounds", "size": size, "part": list(part)}, explore.walk, Game(sc), part, enter)
        ctx.traces += 1


# ------------------------------------------------------------------------------------------------ whole records
def snapshot(state):
    value = state.value
    if hasattr(value, "__dict__") and not isinstance(value, (list, set)):
        return {k: snapshot(v) for k, v in vars(value).items()}
    return [repr(meld_key(v)) if hasattr(v, "self_tiles") else v for v in (sorted(value) if isinstance(value, set) else value)]


def key_events(start, events, name):
    """Values change at key events only, and the walk over the key events visits exactly those values."""
    whole = [snapshot(s) for s in start.with_events(events)]
    before, states, wanted = snapshot(start), start, []
    for i, event in enumerate(events):
        key = bool(states.is_key_event(event))
        if not key:
            same(whole[i], before, "%s changes at event %d %s, which is not a key event" % (name, i, event.tag))
        else:
            wanted.append(whole[i])
        before, states = whole[i], states.scan(event)
    same([snapshot(s) for s in start.with_key_events(events)], wanted, "%s at its key events" % name)
    same(snapshot(start.passed_events(iter(events))), whole[-1] if events else snapshot(start), "%s after all events" % name)


def record(ctx, sc, path):
    from mahjong.record.reader import TenhouRecord
    from mahjong.record.state import GameStateCollection
    log = explore.events_of(sc, path)
    read = TenhouRecord(explore.document(sc, path))
    same(len(read.events), len(log), "the number of events")
    place = {}
    for game in read.game_list:
        for event in game.events:
            place[event.timestamp] = game
    for i, (event, (tag, attrib, info, _)) in enumerate(zip(read.events, log)):
        about = "event %d %s" % (i, tag)
        questions(event, info, read.players, about)
        carried(event, tag, attrib, info, i, about)
        if event.context_ is not place.get(i, read):
            raise Violation("%s belongs to %r" % (about, type(event.context_).__name__))
    ctx.traces += 1
    ctx.states += len(log)
    ctx.transitions += len(log) * sc.n
    first = trackers(sc) + table_trackers(sc)
    whole = [e for game in read.game_list for e in game.events]
    for rounds in [game.events for game in read.game_list[1:]] + [whole]:
        for start in first:
            key_events(start, rounds, type(start).__name__)
    key_events(GameStateCollection(**{"t%d" % i: s for i, s in enumerate(first)}), whole, "the collection")


def records(ctx, bundle):
    for part in bundle:
        sc = decks.scenarios("small")[part[0]]
        for path in explore.histories(Game(sc), part):
            ctx.case({"mode": "records", "scenario": part[0], "moves": explore.choices_of(path)}, record, ctx, sc, path)


# ------------------------------------------------------------------------------------------------ any tracker
class Kind:
    """An event of a made-up log."""
    def __init__(self, number):
        self.number, self.tag, self.attrib = number, "X%d" % number, {}


def machine_class():
    from mahjong.record.state import GameState

    class Machine(GameState):
        def __init__(self, nodes, at):
            self.nodes, self.at = nodes, at

        def scan(self, event):
            return self.nodes[self.at][1][self.at][event.number]

        @property
        def value(self):
            return self.at
    return Machine


def build(n, table):
    """The n states of a machine, linked: staying in a state gives the very same object."""
    Machine = machine_class()
    nodes = []
    made = [Machine(nodes, i) for i in range(n)]
    links = [[made[table[i][k]] for k in range(2)] for i in range(n)]
    nodes.extend((m, links) for m in made)
    return made


def machine(ctx, n, table, longest):
    from mahjong.record.state import GameStateCollection
    made = build(n, table)
    kinds = [Kind(0), Kind(1)]
    for length in range(longest + 1):
        for word in product((0, 1), repeat=length):
            events = [kinds[k] for k in word]
            at, trace, moves = 0, [], []
            for k in word:
                to = table[at][k]
                trace.append(to)
                if to != at:
                    moves.append(to)
                at = to
            about = "machine %r, events %r" % (table, word)
            same([s.value for s in made[0].with_events(events)], trace, about + ": with_events")
            same([s.value for s in made[0].with_key_events(events)], moves, about + ": with_key_events")
            same(made[0].passed_events(iter(events)).value, at, about + ": passed_events")
            both = GameStateCollection(a=made[0], b=made[-1])
            other = n - 1
            for k in word:
                other = table[other][k]
            end = both.passed_events(events).value
            same((end.a.value, end.b.value), (at, other), about + ": a collection after them")
            ctx.states += 1
            ctx.transitions += length
    ctx.traces += 1


def run_shard(ctx, shard):
    if shard[0] == "tiles":
        tiles(ctx, shard[1])
    elif shard[0] == "rounds":
        rounds(ctx, *shard[1:])
    elif shard[0] == "records":
        records(ctx, shard[1])
    else:
        n, longest = shard[1:]
        for flat in product(range(n), repeat=2 * n):
            table = [flat[2 * i:2 * i + 2] for i in range(n)]
            ctx.case({"mode": "machines", "n": n, "table": [list(t) for t in table], "longest": longest}, machine, ctx, n, table,
                     longest)


def replay(ctx, case):
    if case["mode"] == "tiles":
        tiles(ctx, case["who"])
    elif case["mode"] == "rounds":
        rounds(ctx, case["size"], [case["part"]])
    elif case["mode"] == "records":
        sc = decks.scenarios("small")[case["scenario"]]
        ctx.case(case, record, ctx, sc, explore.find(Game(sc), case["moves"]))
    else:
        ctx.case(case, machine, ctx, case["n"], case["table"], case["longest"])
