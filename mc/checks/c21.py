"""C21: commands survive being saved and loaded."""
import contextlib
import numbers
import os
import shutil
import tempfile

from ..core import Violation
from ..ref import decks, explore
from ..ref.table import Game
from . import c20
from .c19 import commands_of

PROPERTY = "C21"
RULE = ("every command of the product property x seat x update x value x kind x position is converted to a plain record, a raw "
        "record, a table row and a CSV line and back; every ordered pair of a 60-letter command alphabet and every triple of "
        "a smaller one shares a CSV file (column types depend on what shares the file); every record within the deviation "
        "budget with awkward names likewise")
BOUNDS = {"quick": "all properties, 4 seats, 5 updates, 45 texts; files of 1 and 2 commands, 3 from 9 letters; records with one "
                   "deviation in memory, default lines and every 6th through files",
          "thorough": "files of 3 from 20 letters; every record with one deviation through files"}
ASSUMPTIONS = ["an empty text and a missing one are the same cell of a CSV file", "texts hold no bare carriage return (the CSV "
               "writer of this Python does not quote it) and no NUL", "a whole number may come back as the equal decimal one "
               "(a table column has one type)"]

TEXTS = ["NA", "N/A", "n/a", "null", "NULL", "nan", "NaN", "-nan", "None", "none", "True", "true", "False", "1", "007", "1.0",
         "1e5", "-0", "inf", "-inf", "Infinity", "#N/A", "#NA", "<NA>", " ", " a", "a ", "a,b", '"', '""', 'a"b', "'", "a\nb",
         "\n", "\t", ";", "=1+1", "[1]", "{}", "\\", "\\n", "日本語", "𠮷é", "all", "PlayerView.name", "0x10", "1_000",
         "2020-01-01", "Unnamed: 0", "<b>&amp;", "%41", "x" * 300]
EVENTS = [None, "record_init", "game_init", "draw", "discard", "open_hand", "new_dora", "richii", "connect_change",
          "game_finish", "record_finish"]
VALUES = dict(c20.VALUES, float=[0.0, -3.5, 1500.0, 2030, 1e-7, 12345.678], index=[0, 3, -1], rank=[1, 4],
              score=[0, 25000, -800, 10 ** 9], str=TEXTS,
              tiles=[[], ["1m", "0s"], ["1z"] * 4], melds=[[], [["1m", "2m", "3m"], ["5z"] * 4]],
              bool=[True, False])


def values_of(name):
    if name == "extra_level":
        return VALUES["float"]
    if name == "discard_from_hand":
        return [[], [True, False]]
    if name == "faans":
        return [[], ["立直", "場風 東"]] + [[t] for t in TEXTS]
    return VALUES[c20.KINDS.get(name, "bool")]


PROPERTIES = [("record", n) for n in c20.RECORD] + [("game", n) for n in c20.GAME] \
    + [("player", n) for n in c20.PLAYER + ["extra_level"]]


def shards(tier):
    out = [("grid", i) for i in range(len(PROPERTIES))]
    out += [("pairs", i) for i in range(len(letters()))]
    out += [("triples", i, 9 if tier == "quick" else 20) for i in range(9 if tier == "quick" else 20)]
    every = 6 if tier == "quick" else 1
    out += [("records", "small", b, every) for b in explore.packed(decks.scenarios("small"), {None: 1}, 30)]
    return out


def build(spec):
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe.format import EventType, Update
    scope, seat, name, update, value, state, event, stamp = spec
    return GameCommand(prop=c20.views()[scope][name], update=Update[update], sub_scope=seat, value=value, state=state,
                       timestamp=stamp, event=EventType[event] if event else None)


def letters():
    """An alphabet mixing seats, kinds, missing parts and every value type."""
    out = [("player", i % 4, "name", "REPLACE", t, t, "record_init", i) for i, t in enumerate(TEXTS)]
    out += [("record", "all", "seed", "REPLACE", "mt19937ar-sha512-n288-base64,ab==", None, None, None),
            ("game", "all", "wind", "REPLACE", 0, 0, "game_init", 4), ("player", 0, "hand", "ADD", ["0m"], ["0m"], "draw", 5),
            ("player", 3, "hand", "RESET_DEFAULT", None, [], "game_init", 5),
            ("player", 1, "score", "ADD", -100, None, "game_finish", 0),
            ("player", 1, "final_point", "REPLACE", -3.5, -3.5, "record_finish", 9),
            ("player", 2, "in_richii", "REPLACE", True, True, "richii", 7),
            ("game", "all", "nobody_win", "REPLACE", False, False, None, 7),
            ("player", 2, "extra_level", "REPLACE", 2030, 2030, "record_init", 0)]
    return out


def check_same(a, b, how):
    x, y = a.to_raw_record(), b.to_raw_record()
    if x != y or not alike(x.value, y.value) or not alike(x.state, y.state) or a.property is not b.property \
            or type(x.sub_scope_id) is not type(y.sub_scope_id):
        raise Violation("%s: %r came back as %r" % (how, x, y))


def alike(a, b):
    if isinstance(a, numbers.Number) and isinstance(b, numbers.Number):
        return isinstance(a, bool) == isinstance(b, bool)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(alike, a, b))
    return type(a) is type(b)


def in_memory(ctx, commands):
    from mahjong.record.universe.command import GameCommand
    ctx.states += len(commands)
    ctx.transitions += 4 * len(commands)
    ctx.traces += 1
    for c in commands:
        check_same(c, GameCommand.from_record(c.to_record()), "plain record")
        check_same(c, GameCommand.from_raw_record(c.to_raw_record()), "raw record")
    if len(commands) > 40:
        return
    for raw in (False, True):
        rows = list(GameCommand.to_dataframe(commands, raw=raw).itertuples())
        if len(rows) != len(commands):
            raise Violation("%d rows for %d commands" % (len(rows), len(commands)))
        for c, row in zip(commands, rows):
            if raw:
                check_same(c, GameCommand.from_raw_record(row), "raw table row")
            else:
                check_same(c, GameCommand.from_record(row), "table row")


def through_file(ctx, commands, index=True):
    from mahjong.record.universe.command import GameCommand
    ctx.states += len(commands)
    ctx.transitions += len(commands)
    ctx.traces += 1
    with scratch():
        GameCommand.to_dataframe(commands).to_csv("commands.csv", index=index)
        compare_file(commands, "commands.csv")


def compare_file(commands, path):
    from mahjong.record.universe.command import GameCommand
    rows = list(GameCommand.read_clean_csv(path).itertuples())
    if len(rows) != len(commands):
        raise Violation("%d rows read for %d commands" % (len(rows), len(commands)))
    for c, row in zip(commands, rows):
        check_same(c, GameCommand.from_raw_record(row), "CSV")


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    folder = tempfile.mkdtemp(prefix="mc-")
    os.chdir(folder)
    try:
        yield folder
    finally:
        os.chdir(old)
        shutil.rmtree(folder, ignore_errors=True)


def grid(ctx, number):
    scope, name = PROPERTIES[number]
    every = []
    for seat in range(4) if scope == "player" else ("all",):
        for u, update in enumerate(("REPLACE", "ADD", "REMOVE", "RESET_DEFAULT", "ASSERT_EQUAL_OR_SET")):
            for v, value in enumerate(values_of(name) if update != "RESET_DEFAULT" else [None]):
                for s, state in enumerate((None, value)):
                    for e, event in enumerate(EVENTS):
                        if s and e != (u + v) % len(EVENTS):
                            continue
                        for stamp in (None, 0, 7)[:3 if v == 0 else 1]:
                            every.append((scope, seat, name, update, value, state, event, stamp))
    for spec in every:
        ctx.sample(spec)
        ctx.case({"kind": "one", "spec": list(spec)}, memory_specs, ctx, [spec])
    for i in range(0, len(every), 97):
        ctx.case({"kind": "file", "specs": [list(s) for s in every[i:i + 97]]}, file_specs, ctx, every[i:i + 97], i % 2 == 0)
    alone = {(repr(s[4]), repr(s[5])): s for s in every}
    for spec in alone.values():
        ctx.case({"kind": "file", "specs": [list(spec)]}, file_specs, ctx, [spec])


def memory_specs(ctx, specs):
    commands = [build(s) for s in specs]
    ctx.states += len(commands)
    ctx.transitions += 2 * len(commands)
    ctx.traces += 1
    from mahjong.record.universe.command import GameCommand
    for c in commands:
        check_same(c, GameCommand.from_record(c.to_record()), "plain record")
        check_same(c, GameCommand.from_raw_record(c.to_raw_record()), "raw record")


def file_specs(ctx, specs, index=True):
    commands = [build(s) for s in specs]
    in_memory(ctx, commands)
    through_file(ctx, commands, index)


def words(ctx, first, length, size=None):
    alphabet = letters()
    if size:
        alphabet = alphabet[::max(1, len(alphabet) // size)][:size]
    for a in range(len(alphabet)):
        for b in range(len(alphabet)) if length == 3 else (None,):
            specs = [alphabet[i] for i in (first, a, b) if i is not None]
            ctx.case({"kind": "file", "specs": [list(s) for s in specs]}, file_specs, ctx, specs)


def named(sc, shift):
    """The scenario with awkward player names (a blank name means the seat is not announced)."""
    usable = [t for t in TEXTS if t.strip()]
    sc.names = [usable[(shift * 5 + 11 * p) % len(usable)] for p in range(sc.n)]
    return sc


def record(ctx, sc, path, files):
    commands = commands_of(sc, path)
    in_memory(ctx, commands)
    if files:
        through_file(ctx, commands)


def records(ctx, size, bundle, every):
    for number, part in enumerate(bundle):
        for path in explore.histories(Game(named(decks.scenarios(size)[part[0]], 0)), part):
            shift = sum(map(ord, repr(explore.choices_of(path))))
            sc = named(decks.scenarios(size)[part[0]], shift)
            choices = explore.choices_of(path)
            path = explore.find(Game(sc), choices)
            case = {"kind": "record", "size": size, "scenario": part[0], "shift": shift, "moves": choices}
            ctx.case(case, record, ctx, sc, path, shift % every == 0 or part[1:3] == (0, len(path)))


def run_shard(ctx, shard):
    kind = shard[0]
    if kind == "grid":
        grid(ctx, shard[1])
    elif kind == "pairs":
        words(ctx, shard[1], 2)
    elif kind == "triples":
        words(ctx, shard[1], 3, shard[2])
    else:
        records(ctx, *shard[1:])


def replay(ctx, case):
    kind = case["kind"]
    if kind == "one":
        ctx.case(case, memory_specs, ctx, [tuple(case["spec"])])
    elif kind == "file":
        for index in (True, False):
            ctx.case(case, file_specs, ctx, [tuple(s) for s in case["specs"]], index)
    else:
        sc = named(decks.scenarios(case["size"])[case["scenario"]], case["shift"])
        ctx.case(case, record, ctx, sc, explore.find(Game(sc), case["moves"]), True)
