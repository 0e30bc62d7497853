"""C22: tables of replayed states survive being saved and loaded."""
import itertools

from ..core import Violation
from ..ref import decks, explore, fold
from ..ref.table import Game
from . import c20, c21
from .c15 import basic, line
from .c19 import commands_of
from .c21 import scratch

PROPERTY = "C22"
RULE = ("every word of the stated length over the command alphabet, every property x value on its own and on a populated table, "
        "and records of the reference table are replayed into a table, saved, loaded and compared cell by cell with a reference "
        "fold; column identities too")
BOUNDS = {"quick": "all words of 2 over 60 commands, of 3 over 8; every property x value; default lines of 13 scenarios and every "
                   "10th history with one deviation, awkward names",
          "thorough": "words of 3 over 20 commands, every history with one deviation"}
ASSUMPTIONS = ["an empty text and a missing one are the same cell of a CSV file", "texts hold no bare carriage return and no NUL",
               "a whole number may come back as the equal decimal one", "the row number column is not part of the table"]


def shards(tier):
    n = len(alphabet())
    out = [("words", 2, i, None) for i in range(n)]
    size = 8 if tier == "quick" else 20
    out += [("words", 3, i, size) for i in range(size)]
    out += [("grid", i, None, None) for i in range(len(c21.PROPERTIES))]
    out += [("records", "small", b, 10 if tier == "quick" else 1)
            for b in explore.packed(decks.scenarios("small"), {None: 1}, 12)]
    out += [("api", n, None, None) for n in (3, 4)]
    return out


def alphabet():
    """(scope, seat, name, update, value) with a meaning in any state."""
    return [tuple(s[:5]) for s in c21.letters() if s[3] in ("REPLACE", "RESET_DEFAULT")]


def column(scope, seat, name):
    from mahjong.record.universe.format import PlayerId, ViewScope
    return ViewScope[scope], PlayerId(seat) if scope == "player" else "single", c20.views()[scope][name]


def equal(a, b):
    """b read from the file, a expected."""
    import numbers
    if isinstance(a, bool) or isinstance(a, str):
        return (isinstance(b, str) if isinstance(a, str) else not isinstance(b, (numbers.Number, str)) or isinstance(b, bool)) \
            and bool(a == b)
    if isinstance(a, numbers.Number):
        return isinstance(b, numbers.Number) and not isinstance(b, bool) and a == b
    return type(a) is type(b) and a == b


def missing(x):
    return x is None or (isinstance(x, float) and x != x)


def saved_and_loaded(ctx, commands, df, index=True):
    from mahjong.record.universe.executor import GameExecutor
    specs = [c20.spec_of(c) for c in commands]
    states, fails, broken = c20.reference(specs, False)
    assert broken is None and fails is None
    ctx.traces += 1
    ctx.states += len(states)
    ctx.transitions += len(states)
    old = set(df.columns)
    with scratch():
        df.to_csv("states.csv", index=index)
        back = GameExecutor.read_clean_csv("states.csv")
    if len(back) != len(states):
        raise Violation("%d rows read, %d states" % (len(back), len(states)))
    new = list(back.columns)
    if len(set(new)) != len(new):
        raise Violation("columns are listed twice")
    wanted = {column(*k): k for k in states[-1]}
    if old != set(wanted) | {("global", "time", "timestamp")}:
        raise Violation("columns of the table %r" % (sorted(map(str, old ^ set(wanted))),))
    lost = old - set(new)
    if lost:
        raise Violation("columns not found again: %r; there are %r" % (sorted(map(str, lost)), sorted(map(str, set(new) - old))))
    if len(new) - len(old) > int(index):
        raise Violation("additional columns %r" % (sorted(map(str, set(new) - old)),))
    for col, key in wanted.items():
        cells = back[col].tolist()
        for row, (state, cell) in enumerate(zip(states, cells)):
            if key not in state or state[key] is None:
                if not missing(cell):
                    raise Violation("row %d: %r holds %r before the property was known" % (row, key, cell))
            elif not equal(state[key], cell):
                raise Violation("row %d: %r was %r, read back %r" % (row, key, state[key], cell))
    stamps = back[("global", "time", "timestamp")].tolist()
    for row, (c, t) in enumerate(zip(commands, stamps)):
        if not (missing(t) and c.timestamp is None) and t != c.timestamp:
            raise Violation("row %d carries timestamp %r, expected %r" % (row, t, c.timestamp))


def run(ctx, specs, index=True):
    from mahjong.record.universe.executor import GameExecutor
    commands = [c20.build(s, (5 if index else 70001) * i) for i, s in enumerate(specs)]
    saved_and_loaded(ctx, commands, GameExecutor().execute_as_dataframe(commands), index)


def words(ctx, length, first, size):
    letters = alphabet()
    if size:
        letters = letters[::max(1, len(letters) // size)][:size]
    for rest in itertools.product(range(len(letters)), repeat=length - 1):
        specs = [letters[i] for i in (first,) + rest]
        ctx.sample(specs)
        index = (first + sum(rest)) % 4 != 0
        ctx.case({"kind": "words", "specs": [list(s) for s in specs], "index": index}, run, ctx, specs, index)


def grid(ctx, number):
    scope, name = c21.PROPERTIES[number]
    base = c20.population()
    for v, value in enumerate(c21.values_of(name)):
        for seat in range(4) if scope == "player" else ("all",):
            spec = (scope, seat, name, "REPLACE", value)
            if scope != "player" or seat == v % 4:
                for index in (True, False):
                    ctx.case({"kind": "words", "specs": [list(spec)], "index": index}, run, ctx, [spec], index)
            if v < 3 and (scope != "player" or seat == v % 4):
                word = base[::7] + [spec] + base[3::7]
                ctx.case({"kind": "words", "specs": [list(s) for s in word], "index": True}, run, ctx, word)


def record(ctx, sc, path):
    from mahjong.record.universe.executor import GameExecutor
    commands = commands_of(sc, path)
    saved_and_loaded(ctx, commands, GameExecutor().execute_as_dataframe(commands))


def records(ctx, size, bundle, every):
    for part in bundle:
        for path in explore.histories(Game(decks.scenarios(size)[part[0]]), part):
            choices = explore.choices_of(path)
            shift = sum(map(ord, repr(choices)))
            if shift % every and part[1:3] != (0, len(path)):
                continue
            sc = c21.named(decks.scenarios(size)[part[0]], shift)
            case = {"kind": "record", "size": size, "scenario": part[0], "shift": shift, "moves": choices}
            ctx.case(case, record, ctx, sc, explore.find(Game(sc), choices))


def api(ctx, n, shift):
    """The library entry point: commands and states of a record as two tables."""
    from mahjong.record.reader import TenhouRecord
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.util_functions import parse_dataframe_from_tenhou_record as parse
    sc = c21.named(basic(n), shift)
    path = line(sc)
    commands = commands_of(sc, path)
    make = lambda: TenhouRecord(explore.document(sc, path))
    for serialize in (True, False):
        command_df, state_df = parse(make(), for_serialize=serialize)
        only = parse(make(), return_state=False, for_serialize=serialize)
        read = GameCommand.from_record if serialize else GameCommand.from_raw_record
        for table in (command_df, only):
            rows = list(table.itertuples())
            if len(rows) != len(commands):
                raise Violation("%d rows for %d commands" % (len(rows), len(commands)))
            for c, row in zip(commands, rows):
                c21.check_same(c, read(row), "command table")
        saved_and_loaded(ctx, commands, state_df)


def run_shard(ctx, shard):
    kind, a, b, c = shard
    if kind == "words":
        words(ctx, a, b, c)
    elif kind == "grid":
        grid(ctx, a)
    elif kind == "api":
        for shift in (0, 5, 13):
            ctx.case({"kind": "api", "n": a, "shift": shift}, api, ctx, a, shift)
    else:
        records(ctx, a, b, c)


def replay(ctx, case):
    kind = case["kind"]
    if kind == "words":
        ctx.case(case, run, ctx, [tuple(s) for s in case["specs"]], case["index"])
    elif kind == "api":
        ctx.case(case, api, ctx, case["n"], case["shift"])
    else:
        sc = c21.named(decks.scenarios(case["size"])[case["scenario"]], case["shift"])
        ctx.case(case, record, ctx, sc, explore.find(Game(sc), case["moves"]))
