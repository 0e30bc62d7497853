"""C38: every property has one meaning, and its rules are the first that fit."""
import itertools
from collections import OrderedDict

from ..core import Violation

PROPERTY = "C38"
RULE = ("every property of every scope is looked up by its names, its scope, its type and its rules; a rule table is built from every "
        "sequence of registrations up to the stated length (type x method), each table is asked for every type and method, and every "
        "answer compared with the reference: the first registration that covers the type, a later one for the same type and method "
        "taking the place of the earlier")
BOUNDS = {"quick": "all 38 properties x 6 methods x all pairs of 9 values; sequences of up to 3 of 24 registrations (8 types x 3 methods), "
                   "asked for 10 types x 3 methods after every registration; two tables filled in turn",
          "thorough": "sequences of up to 4 registrations"}
ASSUMPTIONS = ["asking for a rule that is not there ends in an error of any kind", "properties beyond the known ones are free to be added"]

TYPES = {"record": {"player_count": "index", "play_wind_count": "index", "play_level": "str", "seed": "str", "has_aka_dora": "bool",
                    "speed_up": "bool", "allow_tanyao_open": "bool", "show_discard_shadow": "bool", "using_tiles": "list"},
         "game": {"wind": "index", "round": "index", "sub_round": "index", "dealer": "index", "richii_remain_scores": "score",
                  "dora_indicators": "tiles", "nobody_win": "bool", "extra_reason": "str"},
         "player": {"name": "str", "level": "str", "extra_level": "float", "final_point": "float", "round": "index", "rank": "int",
                    "score": "score", "final_score": "score", "hand": "tiles", "discard_tiles": "tiles", "meld_public_tiles": "tiles",
                    "bonus_tiles": "tiles", "fixed_meld": "melds", "discard_from_hand": "list", "faans": "list", "is_dealer": "bool",
                    "is_win": "bool", "is_self_win": "bool", "is_discard_lose_game": "bool", "in_richii": "bool",
                    "disconnected": "bool"}}
PARTS = {"index": {"index"}, "score": {"score"}, "int": {"index", "score"}, "tiles": {"tiles"}, "melds": {"melds"},
         "list": {"tiles", "melds"}, "str": {"str"}, "bool": {"bool"}, "float": {"float"}}
REGISTERED = [None, "index", "score", "int", "tiles", "melds", "list", "str"]
METHODS = ["default_value", "check_equal", "ADD"]
LETTERS = list(itertools.product(REGISTERED, METHODS))
ASKED = list(PARTS) + [None]


def shards(tier):
    longest = 3 if tier == "quick" else 4
    return ([("names", scope) for scope in sorted(TYPES)] + [("rules", scope) for scope in sorted(TYPES)]
            + [("tables", longest, i) for i in range(len(LETTERS))] + [("two tables", 2, i) for i in range(len(LETTERS))]
            + [("checks", 0, 0)])


# ------------------------------------------------------------------------------------------------ names, scopes and types
def names(ctx, scope):
    from mahjong.record.universe.format import View, ViewScope, ViewType
    view = View.by_name(scope)
    if View.registered_view()[ViewScope[scope]] is not view:
        raise Violation("the properties of %s are not found by its name" % scope)
    listed = view.all_properties()
    ctx.outcome("%s: %d" % (scope, len(listed)))
    for name in TYPES[scope]:
        if [p.name for p in listed].count(name) != 1:
            raise Violation("%s property %s is listed %d times" % (scope, name, [p.name for p in listed].count(name)))
    for a, b in itertools.permutations(listed, 2):
        if a == b or a in b or hash(a) == hash(b):
            raise Violation("%s properties %s and %s are not told apart" % (scope, a, b))
        ctx.transitions += 1
    for prop in listed:
        ctx.states += 1
        if view[prop.name] is not prop or View.by_name(scope)[prop.name] is not prop:
            raise Violation("%s property %s is not found by its name" % (scope, prop.name))
        if prop.scope is not ViewScope[scope]:
            raise Violation("%s property %s has scope %s" % (scope, prop.name, prop.scope))
        fits = [name for name, typ in view.all_types() if prop in typ]
        if len(fits) != 1:
            raise Violation("%s property %s has types %r" % (scope, prop.name, fits))
        want = TYPES[scope].get(prop.name)
        if want is not None and prop.type != ViewType[want]:
            raise Violation("%s property %s has type %s, expected %s" % (scope, prop.name, prop.type, want))
    for other in sorted(TYPES):
        if other != scope:
            for mine in listed:
                if any(mine is p or mine == p for p in View.by_name(other).all_properties()):
                    raise Violation("%s is also a property of %s" % (mine, other))


# ------------------------------------------------------------------------------------------------ rules of the program
VALUES = [0, 3, "", "x", [], ["1m"], ["1m", "2m"], ["2m", "1m"], True]


def answer(function, *args, **kw):
    try:
        return ("gives", function(*args, **kw))
    except Exception:
        return ("fails",)


def rules(ctx, scope):
    import json
    from mahjong.record.universe.format import Update, View
    from mahjong.record.universe.property_manager import prop_manager
    for name, typ in sorted(TYPES[scope].items()):
        prop = View.by_name(scope)[name]

        def compare(what, got, want):
            ctx.transitions += 1
            if repr(got) != repr(want):
                raise Violation("%s of %s %s: %r, expected %r" % (what, scope, name, got, want))

        default = ("gives", 0) if typ == "index" else ("gives", []) if PARTS[typ] <= {"tiles", "melds"} else ("fails",)
        first, second = answer(prop_manager.default_value, prop=prop), answer(prop_manager.default_value, prop=prop)
        compare("default", first, default)
        if default == ("gives", []):
            first[1].append("9z")
            compare("default after another was filled", second, default)
            compare("default after one was filled", answer(prop_manager.default_value, prop=prop), default)
        for a in VALUES:
            if not isinstance(a, str) or typ == "str":
                compare("text of %r" % (a,), prop_manager.to_str(a, prop=prop), str(a) if typ == "str" else json.dumps(a))
            for b in VALUES:
                tiles = typ == "tiles"
                if not tiles or isinstance(a, list) and isinstance(b, list):
                    want = sorted(a) == sorted(b) if tiles else a == b
                    compare("equality of %r and %r" % (a, b), ("gives", bool(prop_manager.check_equal(a, b, prop=prop))), ("gives", want))
                if type(a) is type(b):
                    whole = not isinstance(a, (str, bool)) and not (isinstance(a, list) and not PARTS[typ] <= {"tiles", "melds"})
                    compare("%r with %r added" % (a, b), answer(prop_manager.call, a, b, prop=prop, method=Update.ADD), ("gives", a + b))
                    if whole and not (isinstance(a, int) and PARTS[typ] <= {"tiles", "melds"}):
                        compare("%r with %r removed" % (a, b), answer(prop_manager.call, a, b, prop=prop, method=Update.REMOVE), less(a, b))
        ctx.states += 1


def less(a, b):
    if isinstance(a, int):
        return "gives", a - b
    rest = list(a)
    for x in b:
        if x not in rest:
            return ("fails",)
        rest.remove(x)
    return "gives", rest


# ------------------------------------------------------------------------------------------------ any table
class Fake:
    """A property of a given type."""
    def __init__(self, typ):
        self.type = typ


def method(name):
    from mahjong.record.universe.format import Update
    from mahjong.record.universe.property_manager import PropertyMethod
    return Update[name] if name in Update.__members__ else PropertyMethod[name]


def wanted(word, typ, name):
    """Number of the registration that answers, or None."""
    rows = OrderedDict()
    for number, letter in enumerate(word):
        rows[letter] = number
    for (registered, its), number in rows.items():
        if its == name and (registered is None or typ is not None and PARTS[typ] <= PARTS[registered]):
            return number
    return None


class Table:
    def __init__(self, label):
        from mahjong.record.universe.format import ViewType
        from mahjong.record.universe.property_manager import PropertyTypeManager
        self.table, self.word, self.label, self.types = PropertyTypeManager(), [], label, ViewType
        self.asked = {None if t is None else t: None if t is None else Fake(ViewType[t]) for t in ASKED}

    def register(self, letter):
        typ, name = letter
        number, label = len(self.word), self.label

        def rule(*args):
            return label, number, args
        back = self.table.register(self.types[typ] if typ else None, method(name))(rule)
        self.word.append(letter)
        if back is not rule:
            raise Violation("registering does not hand the rule back", word=self.word)

    def ask(self, ctx):
        for typ, prop in self.asked.items():
            for name in METHODS:
                ctx.transitions += 1
                number = wanted(self.word, typ, name)
                ways = [answer(self.table.call, 1, "b", prop=prop, method=method(name))]
                if name != "ADD":
                    ways.append(answer(getattr(self.table, name), 1, "b", prop=prop))
                want = ("fails",) if number is None else ("gives", (self.label, number, (1, "b")))
                for got in ways:
                    if got != want:
                        raise Violation("%s for type %s gives %r, expected %r" % (name, typ, got, want), word=self.word)


def table(ctx, word):
    t = Table("t")
    for letter in word:
        t.register(letter)
    t.ask(ctx)
    ctx.states += 1
    ctx.traces += 1


def two_tables(ctx, word):
    """The same registrations dealt to two tables in turn; both are asked after each one."""
    pair = [Table("a"), Table("b")]
    for i, letter in enumerate(word):
        pair[i % 2].register(letter)
        for t in pair:
            t.ask(ctx)
    ctx.states += 1
    ctx.traces += 1


def checks(ctx):
    """Assertions registered as checks, for every type asked in every order of two registrations."""
    from mahjong.record.universe.format import ViewType

    def no_less(limit):
        def check(x):
            assert x >= limit
            return x - limit                 # what an assertion gives does not matter
        return check
    for a, b in itertools.product(REGISTERED, repeat=2):
        t = Table("t")
        for typ, limit in ((a, 1), (b, 2)):
            back = t.table.register_assertion_check(ViewType[typ] if typ else None)(no_less(limit))
            for x in range(4):
                if back(x) is not (x >= limit):
                    raise Violation("the check for at least %d answers %r to %d" % (limit, back(x), x))
        word = [(a, "is_type"), (b, "is_type")]
        for typ, prop in t.asked.items():
            number = wanted(word, typ, "is_type")
            for x in range(4):
                got = answer(t.table.is_type, x, prop=prop)
                want = ("fails",) if number is None else ("gives", x >= number + 1)
                if got != want:
                    raise Violation("checks for %s and %s: %d as type %s gives %r, expected %r" % (a, b, x, typ, got, want))
                ctx.transitions += 1
        ctx.states += 1


def run_shard(ctx, shard):
    kind = shard[0]
    if kind == "names":
        ctx.case({"mode": kind, "scope": shard[1]}, names, ctx, shard[1])
    elif kind == "rules":
        ctx.case({"mode": kind, "scope": shard[1]}, rules, ctx, shard[1])
    elif kind == "checks":
        ctx.case({"mode": kind}, checks, ctx)
    else:
        run = table if kind == "tables" else two_tables
        for n in range(shard[1]):
            for tail in itertools.product(LETTERS, repeat=n):
                word = [LETTERS[shard[2]]] + list(tail)
                ctx.case({"mode": kind, "word": [list(x) for x in word]}, run, ctx, word)


def replay(ctx, case):
    if case["mode"] in ("names", "rules"):
        ctx.case(case, globals()[case["mode"]], ctx, case["scope"])
    elif case["mode"] == "checks":
        ctx.case(case, checks, ctx)
    else:
        ctx.case(case, table if case["mode"] == "tables" else two_tables, ctx, [tuple(x) for x in case["word"]])
