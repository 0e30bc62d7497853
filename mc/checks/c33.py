"""C33: every way to the commands of a record tells the same."""
from ..core import Violation
from ..ref import decks, explore
from ..ref.table import Game
from . import c20
from .c19 import commands_of
from .c21 import alike, check_same, named, scratch

PROPERTY = "C33"
RULE = ("every record of the reference table within the deviation budget is taken through every documented way: command objects, plain "
        "and raw records, both tables, the library entry points, the replay; and through the recipe of the manual (CSV file, cleaning, "
        "unstacking the states, filling forward) whose every row must be the state of a reference fold after that command")
BOUNDS = {"quick": "19 scenarios with one deviation through every way in memory (every 6th; all default lines), default lines and "
                   "every 60th through the recipe; awkward names in memory",
          "thorough": "every history with one deviation in memory, every 6th through the recipe"}
ASSUMPTIONS = ["the recipe reads the file without telling pandas what is a text, so names are plain words there"]

PLAIN = ["Aoi", "Bea Chi", "Dai", "Ema"]


def shards(tier):
    every, recipe_every = (6, 60) if tier == "quick" else (1, 6)
    return [("records", b, every, recipe_every) for b in explore.packed(decks.scenarios("small"), {None: 1}, 25)]


def raw_equal(a, b, how, where):
    if a != b or not alike(a.value, b.value) or not alike(a.state, b.state):
        raise Violation("%s: command %d is %r, the command itself %r" % (how, where, b, a))


def same_list(commands, others, how):
    others = list(others)
    if len(others) != len(commands):
        raise Violation("%s: %d entries for %d commands" % (how, len(others), len(commands)))
    for a, b in zip(commands, others):
        check_same(a, b, how)


def ways(ctx, sc, path):
    """Returns the commands."""
    from mahjong.record.reader import TenhouRecord
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe.executor import GameExecutor
    from mahjong.record.universe.tenhou import to_command_records, to_commands
    from mahjong.record import util_functions as lib
    commands = commands_of(sc, path)

    def record():
        return TenhouRecord(explore.document(sc, path))
    shared = record()
    same_list(commands, to_commands(shared), "a second record of the same log")
    same_list(commands, to_commands(shared), "the same record again")
    same_list(commands, to_commands(record(), strict=True), "strict translation")
    same_list(commands, map(GameCommand.from_record, to_command_records(record())), "plain records")
    same_list(commands, map(GameCommand.from_record, to_command_records(shared, strict=True)), "strict plain records")
    raw = list(to_command_records(record(), raw=True))
    if len(raw) != len(commands):
        raise Violation("%d raw records for %d commands" % (len(raw), len(commands)))
    for i, (c, r) in enumerate(zip(commands, raw)):
        raw_equal(c.to_raw_record(), r, "raw record", i)
    same_list(commands, map(GameCommand.from_raw_record, lib.command_to_raw_dataframe(commands).itertuples()), "raw command table")
    pairs = {}
    for serialize in (True, False):
        read = GameCommand.from_record if serialize else GameCommand.from_raw_record
        only = lib.parse_dataframe_from_tenhou_record(record(), return_state=False, for_serialize=serialize)
        both, state_df = lib.parse_dataframe_from_tenhou_record(record(), for_serialize=serialize)
        pairs[serialize] = state_df
        for table in (only, both):
            same_list(commands, map(read, table.itertuples()), "library table (for_serialize=%s)" % serialize)
    states = list(GameExecutor().execute(commands))
    if len(states) != len(commands):
        raise Violation("%d states for %d commands" % (len(states), len(commands)))
    for i, (c, s) in enumerate(zip(commands, states)):
        view = GameExecutor.state_value(s, c)
        if view[c.prop.view_property] != c.state or not alike(view[c.prop.view_property], c.state):
            raise Violation("command %d carries state %r, replayed it is %r" % (i, c.state, view[c.prop.view_property]))
    wanted = GameExecutor().execute_as_dataframe(commands)
    for serialize, df in pairs.items():
        if list(df.columns) != list(wanted.columns) or len(df) != len(wanted):
            raise Violation("the state table of the library has other columns or rows than the replay")
        for col in wanted.columns:
            for i, (a, b) in enumerate(zip(wanted[col].tolist(), df[col].tolist())):
                if a != b and not (a != a and b != b):
                    raise Violation("state table, row %d, %s: %r, replayed %r" % (i, col, b, a))
    ctx.traces += 1
    ctx.states += len(commands)
    ctx.transitions += 12 * len(commands)
    return commands


def recipe(ctx, commands):
    """The example of the manual, word for word."""
    import pandas as pd
    from mahjong.record.universe.command import GameCommand
    with scratch():
        GameCommand.to_dataframe(commands).to_csv("command_list.csv")
        df = pd.read_csv("command_list.csv")
    # clean up df, make states as python value
    df = df.apply(GameCommand.pandas_columns_clean, axis="columns")
    # extract all state changes
    column_props = ["sub_scope_id", "property"]
    df_state = df[column_props + ["state"]]
    # pivot combined column to multi-level state.
    df_state = df_state.set_index(column_props, append=True)
    df_state = df_state.unstack(level=column_props)
    # fill in all state to get exact state after each command executed.
    df_state = df_state.ffill()
    states, fails, broken = c20.reference([c20.spec_of(c) for c in commands], False)
    assert fails is None and broken is None
    if len(df_state) != len(states):
        raise Violation("the recipe gives %d rows for %d commands" % (len(df_state), len(states)))
    views = c20.views()
    columns = {("state", seat, views[scope][name]): (scope, seat, name) for scope, seat, name in states[-1]}
    if set(df_state.columns) != set(columns):
        raise Violation("the recipe gives other columns than the properties of the record: %s" % (
            sorted(map(str, set(df_state.columns) ^ set(columns)))[:6],))
    for col, key in columns.items():
        for i, (cell, state) in enumerate(zip(df_state[col].tolist(), states)):
            want = state.get(key)
            if want is None:
                if not (cell is None or cell != cell):
                    raise Violation("recipe, row %d: %s is %r before it was known" % (i, key, cell))
            elif cell != want or isinstance(cell, bool) != isinstance(want, bool) or isinstance(cell, str) != isinstance(want, str):
                raise Violation("recipe, row %d: %s is %r, replayed it is %r" % (i, key, cell, want))
    ctx.traces += 1
    ctx.transitions += len(commands)


EXTRA = [("FURITEN", {"show": "1"}), ("CHAT", {"uname": "x", "text": "%20"}), ("PROF", {}), ("x", {"who": "0", "hai": "1"})]


def with_extra(ctx, sc, path):
    """A record that also holds an element the translator does not know: every way passes over it alike."""
    from mahjong.record.reader import TenhouRecord
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe.tenhou import to_command_records, to_commands
    from mahjong.record import util_functions as lib
    import xml.etree.ElementTree as ET
    document = explore.document(sc, path)
    init = [e.tag for e in document].index("INIT")
    at = sum(explore.choices_of(path)) + len(path)
    where = init + 1 + at % (len(document) - init - 1)
    document.insert(where, ET.Element(*EXTRA[at % len(EXTRA)]))
    record = TenhouRecord(document)
    commands = to_commands(record)
    plain = commands_of(sc, path)
    if len(plain) != len(commands):
        raise Violation("an element <%s> makes %d commands of %d" % (EXTRA[at % len(EXTRA)][0], len(commands), len(plain)))
    same_list(commands, map(GameCommand.from_record, to_command_records(record)), "plain records, with an unknown element")
    same_list(commands, map(GameCommand.from_raw_record, to_command_records(record, raw=True)),
              "raw records, with an unknown element")
    for serialize in (True, False):
        read = GameCommand.from_record if serialize else GameCommand.from_raw_record
        only = lib.parse_dataframe_from_tenhou_record(record, return_state=False, for_serialize=serialize)
        same_list(commands, map(read, only.itertuples()), "library table, with an unknown element")
    ctx.traces += 1
    ctx.transitions += 5 * len(commands)


def whole(ctx, sc, path, with_recipe):
    commands = ways(ctx, sc, path)
    with_extra(ctx, sc, path)
    if with_recipe:
        recipe(ctx, commands)


def prepared(size, number, shift, with_recipe):
    sc = decks.scenarios(size)[number]
    if with_recipe:
        sc.names = PLAIN[:sc.n]
        return sc
    return named(sc, shift)


def records(ctx, bundle, every, recipe_every):
    for part in bundle:
        for path in explore.histories(Game(decks.scenarios("small")[part[0]]), part):
            choices = explore.choices_of(path)
            shift = sum((i + 1) * (c + 1) for i, c in enumerate(choices))
            default = part[1:3] == (0, len(path))
            if shift % every and not default:
                continue
            with_recipe = default or shift % recipe_every == 0
            sc = prepared("small", part[0], shift, with_recipe)
            case = {"scenario": part[0], "shift": shift, "moves": choices, "recipe": with_recipe}
            ctx.sample([sc.name, choices])
            ctx.case(case, whole, ctx, sc, explore.find(Game(sc), choices), with_recipe)


def run_shard(ctx, shard):
    records(ctx, *shard[1:])


def replay(ctx, case):
    sc = prepared("small", case["scenario"], case["shift"], case["recipe"])
    ctx.case(case, whole, ctx, sc, explore.find(Game(sc), case["moves"]), case["recipe"])
