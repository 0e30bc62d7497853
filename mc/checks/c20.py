"""C20: replaying commands is exact, immutable and strict when asked."""
import copy
import itertools

from ..core import Violation
from ..ref import decks, explore, fold
from ..ref.table import Game
from .c19 import commands_of, plain

PROPERTY = "C20"
RULE = ("every command sequence up to the stated length over small command alphabets (one per property type, two seats) is "
        "replayed in both modes and every delivered state compared with a reference fold, when delivered and again at the "
        "end; every property x update x value on a fully populated table; every legal record within the deviation budget "
        "must pass strictly, and every single corruption of an asserted hand, score or name must be caught at its place")
BOUNDS = {"quick": "sequences of up to 4 commands over 16 alphabets of 7..9 commands; one deviation from the default line for "
                   "records, at most 4 corruptions per assertion",
          "thorough": "sequences of up to 5 commands; two deviations for records"}
ASSUMPTIONS = ["a command without meaning (removing what is not there, adding to nothing) ends the sequence",
               "CLEAR is not used by any translator and not claimed"]


def views():
    from mahjong.record.universe.format import GameView, PlayerView, RecordView
    return {"game": GameView, "player": PlayerView, "record": RecordView}


def build(spec, timestamp):
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe.format import Update
    scope, seat, name, update, value = spec
    return GameCommand(prop=views()[scope][name], update=Update[update], sub_scope=seat, value=copy.deepcopy(value),
                       timestamp=timestamp)


def number_set(scope, seat, name, a, b, other):
    return [(scope, seat, name, "REPLACE", a), (scope, seat, name, "ADD", b), (scope, seat, name, "REMOVE", b),
            (scope, seat, name, "ASSERT_EQUAL_OR_SET", a), (scope, seat, name, "ASSERT_EQUAL_OR_SET", a + b)] + other


def list_set(seat, name, a, b, other=()):
    return [("player", seat, name, "REPLACE", [a, b]), ("player", seat, name, "ADD", [a]),
            ("player", seat, name, "REMOVE", [a]), ("player", seat, name, "RESET_DEFAULT", None),
            ("player", seat, name, "ASSERT_EQUAL_OR_SET", [b, a]),
            ("player", seat, name, "ASSERT_EQUAL_OR_SET", [a, b])] + list(other)


def plain_set(scope, seat, name, a, b, other):
    return [(scope, seat, name, "REPLACE", a), (scope, seat, name, "REPLACE", b),
            (scope, seat, name, "ASSERT_EQUAL_OR_SET", a), (scope, seat, name, "ASSERT_EQUAL_OR_SET", b)] + other


def alphabets():
    out = {}
    out["score"] = number_set("player", 0, "score", 25000, 1000,
                              [("player", 1, "score", "REPLACE", 25000), ("player", 1, "score", "REMOVE", 1000),
                               ("player", 0, "final_score", "REPLACE", 7)])
    out["zero score"] = number_set("player", 3, "score", 0, 0, [("player", 3, "score", "REPLACE", -100),
                                                               ("player", 3, "score", "ASSERT_EQUAL_OR_SET", -100)])
    out["round"] = number_set("player", 2, "round", 0, 1, [("player", 2, "round", "RESET_DEFAULT", None),
                                                           ("game", "all", "round", "REPLACE", 3),
                                                           ("player", 3, "round", "ADD", 1)])
    out["points"] = number_set("player", 1, "final_point", 0.5, 1.25, [("player", 1, "rank", "REPLACE", 1),
                                                                      ("player", 0, "final_point", "REPLACE", -0.5)])
    out["sticks"] = number_set("game", "all", "richii_remain_scores", 0, 1000,
                               [("game", "all", "sub_round", "REPLACE", 1), ("game", "all", "sub_round", "ADD", 1),
                                ("game", "all", "sub_round", "RESET_DEFAULT", None)])
    out["hand"] = list_set(0, "hand", "1m", "0p", [("player", 1, "hand", "REPLACE", ["1m"]),
                                                   ("player", 1, "hand", "ADD", ["0p"]),
                                                   ("player", 0, "discard_tiles", "REPLACE", ["1m"])])
    out["doubles"] = [("player", 2, "hand", "REPLACE", ["5s", "5s", "1z"]),
                      ("player", 2, "hand", "REMOVE", ["5s"]), ("player", 2, "hand", "ADD", ["5s", "1z"]),
                      ("player", 2, "hand", "ASSERT_EQUAL_OR_SET", ["1z", "5s", "5s"]),
                      ("player", 2, "hand", "ASSERT_EQUAL_OR_SET", ["5s", "1z"]),
                      ("player", 2, "hand", "ASSERT_EQUAL_OR_SET", ["1z", "1z", "5s"]),
                      ("player", 2, "hand", "ASSERT_EQUAL_OR_SET", [])]
    out["discards"] = list_set(3, "discard_tiles", "9m", "7z", [("player", 0, "discard_tiles", "ADD", ["9m"]),
                                                               ("player", 3, "discard_from_hand", "RESET_DEFAULT", None)])
    out["from hand"] = list_set(1, "discard_from_hand", True, False,
                                [("player", 1, "discard_tiles", "RESET_DEFAULT", None)])
    out["melds"] = list_set(2, "fixed_meld", ["1m", "2m", "3m"], ["5z", "5z", "5z"],
                            [("player", 2, "meld_public_tiles", "REPLACE", ["1m"]),
                             ("player", 1, "fixed_meld", "RESET_DEFAULT", None)])
    out["patterns"] = list_set(0, "faans", "立直", "ドラ", [("player", 1, "faans", "REPLACE", [])])
    out["indicators"] = [("game", "all", "dora_indicators", u, v) for u, v in (
        ("REPLACE", ["5m"]), ("ADD", ["0m"]), ("REPLACE", ["0m", "5m"]), ("ASSERT_EQUAL_OR_SET", ["5m", "0m"]),
        ("ASSERT_EQUAL_OR_SET", ["5m"]), ("REMOVE", ["5m"]))] + [("game", "all", "wind", "REPLACE", 1)]
    out["riichi"] = plain_set("player", 0, "in_richii", True, False,
                              [("player", 1, "in_richii", "REPLACE", True), ("player", 0, "disconnected", "REPLACE", True),
                               ("game", "all", "nobody_win", "REPLACE", False)])
    out["names"] = plain_set("player", 0, "name", "A", "B",
                             [("player", 1, "name", "REPLACE", "A"), ("player", 0, "name", "REPLACE", ""),
                              ("player", 0, "name", "ASSERT_EQUAL_OR_SET", ""), ("player", 0, "level", "REPLACE", "A")])
    out["unknown"] = plain_set("player", 0, "name", None, "A",
                               [("player", 0, "in_richii", "REPLACE", None), ("player", 0, "in_richii", "REPLACE", False),
                                ("player", 0, "in_richii", "ASSERT_EQUAL_OR_SET", False),
                                ("player", 1, "name", "ASSERT_EQUAL_OR_SET", None)])
    out["record"] = plain_set("record", "all", "player_count", 4, 3,
                              [("record", "all", "play_level", "REPLACE", "般"),
                               ("record", "all", "using_tiles", "REPLACE", ["1m"]),
                               ("record", "all", "using_tiles", "ADD", ["1m"])])
    return out


def shards(tier):
    depth = 4 if tier == "quick" else 5
    out = []
    for name, letters in alphabets().items():
        out += [("words", name, depth, i) for i in range(len(letters))]
    out += [("grid", scope, i, 8) for scope in ("player", "game", "record") for i in range(8)]
    out += [("records", "small", b, None) for b in
            explore.packed(decks.scenarios("small"), {None: 1 if tier == "quick" else 2}, 30)]
    out += [("two", name, 2, None) for name in alphabets()]
    return out


# ------------------------------------------------------------------------------------------------ words
def reference(specs, strict):
    """([state after each command], index of the strict failure or None, index of the meaningless command or None)"""
    states, values = [], {}
    for i, (scope, seat, name, update, value) in enumerate(specs):
        key = (scope, seat, name)
        if update == "ASSERT_EQUAL_OR_SET" and key in values and strict and not fold.agree(name, values[key], value):
            return states, i, None
        try:
            new = fold.step(values.get(key), name, update, value)
        except fold.Broken:
            return states, None, i
        values = dict(values)
        values[key] = new
        states.append(values)
    return states, None, None


def stamp(state):
    return state["global"]["time"]["timestamp"]


def same(got, want):
    return got == want and all(type(got[k]) is type(want[k]) for k in want)


def replayed(ctx, specs, strict, stamps=None):
    from mahjong.record.universe.executor import GameExecutor
    states, fails, broken = reference(specs, strict)
    if broken is not None:
        specs = specs[:broken]
    stamps = stamps or [10 * i + 3 for i in range(len(specs))]
    commands = [build(s, t) for s, t in zip(specs, stamps)]
    ctx.traces += 1
    ctx.states += len(states)
    ctx.transitions += len(specs)
    got, error = [], None
    run = GameExecutor(strict_mode=strict).execute(iter(commands))
    while True:
        try:
            state = next(run)
        except StopIteration:
            break
        except AssertionError as exc:
            error = exc
            break
        position = len(got)
        got.append(state)
        if position >= len(states):
            raise Violation("state %d delivered after the point where replay must fail" % position)
        compare_state(state, states[position], stamps[position], position)
    if fails is not None and error is None:
        raise Violation("strict replay accepted command %d, whose value differs from the state" % fails)
    if fails is None and error is not None:
        raise Violation("replay failed after %d states: %s" % (len(got), error))
    if len(got) != len(states):
        raise Violation("%d states delivered, expected %d" % (len(got), len(states)))
    for position, state in enumerate(got):
        compare_state(state, states[position], stamps[position], position, "later ")
    for c, s in zip(commands, specs):
        if c.value != s[4]:
            raise Violation("replay changed the value of a command: %r, was %r" % (c.value, s[4]))


def compare_state(state, want, when, position, note=""):
    got = plain(state)
    if not same(got, want):
        diff = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)
                or type(got.get(k)) is not type(want.get(k))}
        raise Violation("%sstate %d (got, expected): %r" % (note, position, diff))
    if stamp(state) != when:
        raise Violation("%sstate %d carries timestamp %r, its command %r" % (note, position, stamp(state), when))


def words(ctx, name, depth, first):
    letters = alphabets()[name]
    for length in range(1, depth + 1):
        for rest in itertools.product(range(len(letters)), repeat=length - 1):
            word = (first,) + rest
            _, _, broken = reference([letters[i] for i in word[:-1]], False)
            if broken is not None:
                continue
            specs = [letters[i] for i in word]
            ctx.sample(specs)
            if length < depth:      # prefixes are states of the longer words: only their strict run is separate
                if letters[word[-1]][3] != "ASSERT_EQUAL_OR_SET":
                    continue
            ctx.case({"kind": "word", "alphabet": name, "word": list(word), "strict": True}, replayed, ctx, specs, True)
            if length == depth:
                ctx.case({"kind": "word", "alphabet": name, "word": list(word), "strict": False}, replayed, ctx, specs,
                         False)
    if first == 0:
        ctx.case({"kind": "word", "alphabet": name, "word": [], "strict": True}, replayed, ctx, [], True)


# ------------------------------------------------------------------------------------------------ two executors
def two(ctx, name, depth):
    """Two replays advanced alternately, and one executor used twice."""
    letters = alphabets()[name]
    all_words = list(itertools.product(range(len(letters)), repeat=depth))
    for i, a in enumerate(all_words):
        b = all_words[(i * 7 + 3) % len(all_words)]
        ctx.case({"kind": "two", "alphabet": name, "words": [list(a), list(b)]}, alternate, ctx,
                 [letters[x] for x in a], [letters[x] for x in b])


def alternate(ctx, first, second):
    from mahjong.record.universe.executor import GameExecutor
    wanted = []
    specs = []
    for word in (first, second):
        states, _, broken = reference(word, False)
        wanted.append(states)
        specs.append(word[:broken] if broken is not None else word)
    ctx.traces += 2
    for shared in (False, True):
        executor = GameExecutor()
        runs = [(executor if shared else GameExecutor()).execute([build(s, i) for i, s in enumerate(w)]) for w in specs]
        for position in range(max(map(len, wanted), default=0)):
            for run, states in zip(runs, wanted):
                if position < len(states):
                    ctx.transitions += 1
                    compare_state(next(run), states[position], position, position)


# ------------------------------------------------------------------------------------------------ whole table
VALUES = {
    "index": [0, 3], "score": [0, 25000, -800], "tiles": [[], ["1m", "0s"], ["1z"]],
    "melds": [[], [["1m", "2m", "3m"]]], "str": ["", "x", "NA"], "bool": [True, False], "float": [0.0, -3.5],
}
KINDS = {"player_count": "index", "play_wind_count": "index", "wind": "index", "round": "index", "sub_round": "index",
         "dealer": "index", "rank": "index", "richii_remain_scores": "score", "score": "score", "final_score": "score",
         "dora_indicators": "tiles", "hand": "tiles", "discard_tiles": "tiles", "meld_public_tiles": "tiles",
         "bonus_tiles": "tiles", "using_tiles": "tiles", "faans": "tiles", "fixed_meld": "melds", "final_point": "float",
         "play_level": "str", "seed": "str", "extra_reason": "str", "name": "str", "level": "str"}
GAME = ["wind", "round", "sub_round", "dora_indicators", "richii_remain_scores", "dealer", "nobody_win", "extra_reason"]
RECORD = ["player_count", "play_level", "has_aka_dora", "speed_up", "allow_tanyao_open", "play_wind_count",
          "show_discard_shadow", "seed", "using_tiles"]
PLAYER = ["name", "level", "hand", "in_richii", "discard_tiles", "discard_from_hand", "fixed_meld", "meld_public_tiles",
          "score", "bonus_tiles", "round", "disconnected", "is_dealer", "is_win", "is_self_win", "is_discard_lose_game",
          "faans", "rank", "final_score", "final_point"]


def values_of(name):
    if name == "discard_from_hand":
        return [[], [True, False]]
    return VALUES[KINDS.get(name, "bool")]


def population():
    out = [("record", "all", n, "REPLACE", values_of(n)[1]) for n in RECORD]
    out += [("game", "all", n, "REPLACE", values_of(n)[1]) for n in GAME]
    out += [("player", p, n, "REPLACE", values_of(n)[1]) for n in PLAYER for p in range(4)]
    return out


def grid(ctx, scope, part, parts):
    base = population()
    names = {"player": PLAYER, "game": GAME, "record": RECORD}[scope]
    n = 0
    for name in names:
        for seat in range(4) if scope == "player" else ("all",):
            for update in ("REPLACE", "ADD", "REMOVE", "RESET_DEFAULT", "ASSERT_EQUAL_OR_SET"):
                for value in values_of(name) if update != "RESET_DEFAULT" else [None]:
                    n += 1
                    if n % parts != part:
                        continue
                    if update in ("ADD", "REMOVE") and KINDS.get(name, "bool") in ("bool", "str") \
                            and name != "discard_from_hand":
                        continue
                    word = base + [(scope, seat, name, update, value)]
                    if reference(word, False)[2] is not None:
                        continue
                    for strict in (False, True):
                        ctx.case({"kind": "grid", "command": [scope, seat, name, update, value], "strict": strict},
                                 replayed, ctx, word, strict)


# ------------------------------------------------------------------------------------------------ records
def spec_of(c):
    return (c.prop.scope.name, c.sub_scope_id, c.property.name, c.update_method.name, c.value)


def strictly(ctx, sc, path):
    """A legal record passes strict replay; every corruption of an assertion is caught at its place."""
    from mahjong.record.universe.executor import GameExecutor
    commands = commands_of(sc, path)
    specs = [spec_of(c) for c in commands]
    _, fails, broken = reference(specs, True)
    if fails is not None or broken is not None:
        raise Violation("command %d of a legal record contradicts the state: %s"
                        % (fails if fails is not None else broken, commands[fails if fails is not None else broken]))
    ctx.traces += 1
    ctx.transitions += len(commands)
    ctx.states += len(commands)
    n = 0
    for n, state in enumerate(GameExecutor(strict_mode=True).execute(commands), 1):
        pass
    if n != len(commands):
        raise Violation("strict replay ended after %d of %d commands" % (n, len(commands)))


def corruptions(c):
    """Values that contradict what this assertion says."""
    name, value = c.property.name, c.value
    if name == "score":
        return [value + 100, value - 100, -value if value else 100]
    if name == "hand":
        other = "1m" if value[0] != "1m" else "2m"
        return [[other] + list(value[1:]), list(value[:-1]), list(value) + [value[0]]]
    if name == "name":
        return [value + "x"]
    return []


def corrupted(ctx, commands, at, value):
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe.executor import GameExecutor
    bad = commands[at]
    wrong = GameCommand(prop=bad.property, update=bad.update_method, sub_scope=bad.sub_scope_id, value=value,
                        timestamp=bad.timestamp, event=bad.event)
    ctx.traces += 1
    ctx.transitions += at + 1
    n = 0
    try:
        for _ in GameExecutor(strict_mode=True).execute(commands[:at] + [wrong]):
            n += 1
    except AssertionError:
        if n != at:
            raise Violation("strict replay failed at command %d instead of %d" % (n, at))
    else:
        raise Violation("strict replay accepted %s %r of seat %r at command %d, the table has %r"
                        % (bad.property.name, value, bad.sub_scope_id, at, bad.value))
    last = None
    for last in GameExecutor().execute(commands[:at] + [wrong]):
        pass
    got = plain(last)[(bad.prop.scope.name, bad.sub_scope_id, bad.property.name)]
    if got != value:
        raise Violation("the differing value %r was not taken over, state has %r" % (value, got))


def corrupt_xml(ctx, sc, path, event, attr, place, delta):
    """One wrong score in the log itself must make strict replay fail."""
    from mahjong.record.reader import TenhouRecord
    from mahjong.record.universe.executor import GameExecutor
    from mahjong.record.universe.tenhou import to_commands
    root = explore.document(sc, path)
    element = list(root)[event]
    numbers = element.get(attr).split(",")
    numbers[place] = str(int(numbers[place]) + delta)
    element.set(attr, ",".join(numbers))
    ctx.traces += 1
    try:
        for _ in GameExecutor(strict_mode=True).execute(to_commands(TenhouRecord(root))):
            ctx.transitions += 1
    except AssertionError:
        return
    raise Violation("a wrong score in %s %s of event %d passed strict replay" % (element.tag, attr, event))


def records(ctx, size, bundle):
    scenarios = decks.scenarios(size)
    seen = set()
    for part in bundle:
        sc = scenarios[part[0]]
        head = len(explore.events_of(sc, []))
        for path in explore.histories(Game(sc), part):
            case = {"kind": "record", "size": size, "scenario": part[0], "moves": explore.choices_of(path)}
            ctx.case(case, strictly, ctx, sc, path)
            commands = ctx.case(case, commands_of, sc, path)
            if commands is None:
                continue
            if part[1] or part[2] < len(path):      # corruptions before the deviation belong to the default line
                start = part[2] + head
            else:
                start = 0
            known = set()
            for at, c in enumerate(commands):
                key = (c.sub_scope_id, c.property)
                if c.update_method.name == "ASSERT_EQUAL_OR_SET" and key in known and c.timestamp >= start:
                    prefix = (part[0], tuple(m.number for m in path[:c.timestamp - head + 1]), at)
                    if prefix not in seen:
                        seen.add(prefix)
                        for i, value in enumerate(corruptions(c)):
                            ctx.case(dict(case, at=at, value=i), corrupted, ctx, commands, at, value)
                known.add(key)
            inits = [i for i, m in enumerate(path) if m.tag == "INIT"]
            for i, m in enumerate(path):
                later = any(j > i for j in inits)
                if i + head < start:
                    continue
                spots = []
                if m.tag == "INIT" and i != inits[0]:
                    spots = [("ten", p) for p in range(sc.n)]
                elif m.tag in ("AGARI", "RYUUKYOKU") and "sc" in m.attrib:
                    spots = [("sc", 2 * p) for p in range(sc.n)] + [("sc", 2 * p + 1) for p in range(sc.n) if later]
                prefix = (part[0], tuple(x.number for x in path[:i + 1]), "xml", later)
                if not spots or prefix in seen:
                    continue
                seen.add(prefix)
                for attr, place in spots:
                    ctx.case(dict(case, event=i + head, attr=attr, place=place), corrupt_xml, ctx, sc, path, i + head,
                             attr, place, 1)


def run_shard(ctx, shard):
    kind, a, b, c = shard
    if kind == "words":
        words(ctx, a, b, c)
    elif kind == "grid":
        grid(ctx, a, b, c)
    elif kind == "two":
        two(ctx, a, b)
    else:
        records(ctx, a, b)


def replay(ctx, case):
    kind = case["kind"]
    if kind == "word":
        letters = alphabets()[case["alphabet"]]
        ctx.case(case, replayed, ctx, [letters[i] for i in case["word"]], case["strict"])
    elif kind == "two":
        letters = alphabets()[case["alphabet"]]
        ctx.case(case, alternate, ctx, *[[letters[i] for i in w] for w in case["words"]])
    elif kind == "grid":
        ctx.case(case, replayed, ctx, population() + [tuple(case["command"])], case["strict"])
    else:
        sc = decks.scenarios(case["size"])[case["scenario"]]
        path = explore.find(Game(sc), case["moves"])
        if "at" in case:
            commands = commands_of(sc, path)
            ctx.case(case, corrupted, ctx, commands, case["at"], corruptions(commands[case["at"]])[case["value"]])
        elif "event" in case:
            ctx.case(case, corrupt_xml, ctx, sc, path, case["event"], case["attr"], case["place"], 1)
        else:
            ctx.case(case, strictly, ctx, sc, path)
