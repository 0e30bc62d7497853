"""C35: translator rules are tried from the most specific to the most general."""
import itertools
import xml.etree.ElementTree as ET

from ..core import Violation

PROPERTY = "C35"
RULE = ("a translator is built from every sequence of rules up to the stated length (kind x key x yields or not), and is given every "
        "event of the alphabet and every short sequence of events; the reference picks the rule and folds its commands; commands, "
        "positions, kinds and states (which depend on the state each rule is shown) are compared, in both modes")
BOUNDS = {"quick": "20 rule letters, sequences of up to 3 rules x 15 events; 9 letters, sequences of 4; two translators side by side; "
                   "histories of 3 events under 60 rule sets; events with up to 8 attributes, up to 9 rules of one kind; every kind of event as default and own kind",
          "thorough": "sequences of up to 4 rules over all letters; histories of 4 events"}
ASSUMPTIONS = ["attributes are looked at in the order in which the event carries them", "a rule is a generator of commands"]

# kind, key, behaviour: how many commands the rule yields (with "typed": it names their kind itself)
LETTERS = [("both", ("a", "x"), 1), ("both", ("a", "y"), 1), ("both", ("a", "x"), 0), ("both", ("b", "x"), 1), ("both", ("x", "a"), 1),
           ("name", "a", 1), ("name", "a", 2), ("name", "a", 0), ("name", "b", 1), ("name", "x", 1),
           ("names", ("a", "b"), 1), ("names", ("a", "b"), 0), ("attr", "x", 1), ("attr", "x", 0), ("attr", "y", 1), ("attr", "a", 1),
           ("default", None, 1), ("default", None, 2), ("default", None, 0), ("name", "a", "if")]
FEW = [0, 2, 5, 7, 10, 12, 13, 16, 18]
EVENTS = [(tag, attrs) for tag in ("a", "b", "x") for attrs in ((), ("x",), ("y",), ("x", "y"), ("y", "x"))]
KINDS = [None, "draw", "discard"]


def shards(tier):
    out = [("words", None, n, i) for n in (1, 2, 3) for i in range(len(LETTERS))]
    if tier == "quick":
        out += [("words", "few", 4, i) for i in range(len(FEW))]
    else:
        out += [("words", None, 4, i) for i in range(len(LETTERS))]
    out += [("histories", 3 if tier == "quick" else 4, i, None) for i in range(8)]
    out += [("side by side", 2, i, None) for i in range(4)]
    out += [("wide", n, None, None) for n in range(2, 9 if tier == "quick" else 13)]
    return out + [("kinds", None, None, None)]


def element(letter):
    tag, attrs = letter
    return ET.Element(tag, {k: "1" for k in attrs})


class Rule:
    """A rule for the code under test; what it yields depends on the state it is shown."""

    def __init__(self, number, letter, kinds=None):
        self.number, self.letter = number, letter
        # default kind given by the decorator, kinds the rule itself gives its commands in turn
        self.kind, self.own = kinds or (KINDS[number % 3], [KINDS[(number + 1) % 3] if number % 2 else None])

    def function(self):
        from mahjong.record.universe.command import GameCommand
        from mahjong.record.universe.format import EventType, PlayerView, Update
        from mahjong.record.universe.translator import default_event_type

        def rule(event, ctx):
            before = ctx.get((0, PlayerView.score), None)
            count = self.letter[2]
            if count == "if":
                count = 1 if before and before > 1 else 0
            for i in range(count):
                add = before is not None
                yield GameCommand(prop=PlayerView.score, sub_scope=0, update=Update.ADD if add else Update.REPLACE,
                                  value=2 ** self.number * (i + 1), event=EventType[self.name(i)] if self.name(i) else None)
        if self.kind:
            rule = default_event_type(EventType[self.kind])(rule)
        return rule

    def name(self, i):
        return self.own[i % len(self.own)]

    def register(self, translator):
        kind, key, _ = self.letter
        f = self.function()
        if kind == "both":
            kept = translator.match_both(name=key[0], attr=key[1])(f)
        elif kind == "name":
            kept = translator.match_name(key)(f)
        elif kind == "names":
            kept = translator.match_names(list(key))(f)
        elif kind == "attr":
            kept = translator.match_attr(key)(f)
        else:
            kept = translator.default_event(f)
        if kept is not f:
            raise Violation("registering a rule by %s does not give the rule back" % kind)

    # reference
    def applies(self, level, tag, attr):
        kind, key, _ = self.letter
        return (level == "both" and kind == "both" and key == (tag, attr)
                or level == "name" and (kind == "name" and key == tag or kind == "names" and tag in key)
                or level == "attr" and kind == "attr" and key == attr
                or level == "default" and kind == "default")

    def yields(self, state):
        """[(added or set, value)]"""
        count = self.letter[2]
        if count == "if":
            count = 1 if state and state > 1 else 0
        return [2 ** self.number * (i + 1) for i in range(count)]


def stages(tag, attrs):
    return [("both", a) for a in attrs] + [("name", None)] + [("attr", a) for a in attrs] + [("default", None)]


def reference(rules, letter, state):
    """(commands as (value, kind, state after), state after)"""
    tag, attrs = letter
    for level, attr in stages(tag, attrs):
        for r in rules:
            if r.applies(level, tag, attr):
                values = r.yields(state)
                if values:
                    out, known = [], state is not None
                    for i, v in enumerate(values):
                        state = state + v if known else v
                        out.append((v, r.name(i) or r.kind, state))
                    return out, state
    return [], state


def fresh():
    from mahjong.record.universe.tenhou.xml_macher import TenhouCommandTranslator
    return TenhouCommandTranslator()


def told(commands):
    from mahjong.record.universe.format import PlayerView
    out = []
    for c in commands:
        if c.prop.view_property is not PlayerView.score or c.sub_scope_id != 0:
            raise Violation("a command of another property or seat: %s" % (c,))
        out.append((c.value, c.event.name if c.event is not None else None, c.state))
    return out


class Run:
    """One translator under test beside its reference."""

    def __init__(self, word, kinds=None):
        self.state, self.position = None, 0
        self.rules = [Rule(i, LETTERS[w], kinds) for i, w in enumerate(word)]
        self.translator = fresh()
        for r in self.rules:
            r.register(self.translator)
        self.translator.clear()

    def give(self, letter, strict):
        from mahjong.record.utils.event import TenhouEvent
        event = TenhouEvent(element(letter), context=None, timestamp=self.position)
        want, self.state = reference(self.rules, letter, self.state)
        try:
            got = self.translator(event, strict) if strict is not None else self.translator(event)
            failed = False
        except ValueError as error:
            got, failed = [], True
            if not strict:
                raise Violation("event %r: %s" % (letter, error))
        if failed != bool(strict and not want):
            raise Violation("event %r in strict mode: %s" % (letter, "refused though a rule yields commands" if failed
                                                             else "accepted though no rule yields commands"))
        if told(got) != want:
            raise Violation("event %r under %s gives (value, kind, state) %s, expected %s" % (
                letter, [r.letter for r in self.rules], told(got), want))
        for c in got:
            if c.timestamp != self.position:
                raise Violation("a command of event %d carries position %r" % (self.position, c.timestamp))
        self.position += 1


def single(ctx, word):
    for i, letter in enumerate(EVENTS):
        for strict in (None, True) if i % 2 else (False, True):
            run = Run(word)
            run.give(letter, strict)
            ctx.traces += 1
    ctx.states += len(EVENTS)
    ctx.transitions += 2 * len(EVENTS)


def history(ctx, word, letters):
    """Events one after another, then the same again after a clear."""
    run = Run(word)
    for again in range(2):
        for i, letter in enumerate(letters):
            run.give(letters[i], False)
        run.translator.clear()
        run.state, run.position = None, 0
    ctx.traces += 1
    ctx.states += len(letters)
    ctx.transitions += 2 * len(letters)


def beside(ctx, words, letters):
    """Two translators with rules of their own, fed alternately."""
    runs = [Run(w) for w in words]
    for letter in letters:
        for run in runs:
            run.give(letter, False)
    ctx.traces += 1
    ctx.states += len(letters)
    ctx.transitions += 2 * len(letters)


SETS = [w for w in itertools.combinations((0, 2, 5, 6, 10, 12, 16, 19), 3)] + [(19, 17), (12, 14, 16), (14, 12, 18), (0, 1), (1, 0, 12)]
SOME = [("a", ()), ("a", ("x",)), ("a", ("y", "x")), ("b", ("x",)), ("b", ()), ("x", ("x", "y"))]


WIDE = [(0,), (1,), (12,), (14,), (0, 1), (1, 0), (2, 1), (12, 14), (14, 12), (13, 14), (13, 16), (2, 5), (2, 12), (7, 14)]


def wide(ctx, word, letter):
    run = Run(word)
    run.give(letter, False)
    ctx.traces += 1
    ctx.states += 1
    ctx.transitions += 2


def run_wide(ctx, n):
    """Events with n attributes, the one or two with rules at every place; and n rules that yield nothing before the one that does."""
    for i, j in itertools.permutations(range(n), 2):
        attrs = ["u%d" % k for k in range(n)]
        attrs[i] = "x"
        for second in ("y", None):
            if second:
                attrs[j] = second
            for word in WIDE:
                letter = ("a", tuple(attrs))
                ctx.case({"kind": "wide", "word": list(word), "event": ["a", list(attrs)]}, wide, ctx, word, letter)
    for silent, rule in ((2, 0), (7, 5), (11, 5), (13, 12), (18, 16)):
        for place in range(n + 1):
            word = [silent] * n
            word.insert(place, rule)
            ctx.case({"kind": "wide", "word": word, "event": ["a", ["x"]]}, wide, ctx, word, ("a", ("x",)))


def kinds(ctx, word, default, own):
    run = Run(word, (default, own))
    run.give(("a", ("x",)), None)
    ctx.traces += 1
    ctx.states += 1
    ctx.transitions += 2


def run_kinds(ctx):
    """Every kind as default and as the kind of the first or the second command."""
    from mahjong.record.universe.format import EventType
    names = [None] + [e.name for e in EventType]
    for default in names:
        for name in names:
            for own in ([name], [name, None], [None, name]):
                for w in (0, 6, 12, 17):
                    ctx.case({"kind": "kinds", "word": [w], "default": default, "own": own}, kinds, ctx, [w], default, own)


def run_shard(ctx, shard):
    kind, a, b, c = shard
    if kind == "kinds":
        return run_kinds(ctx)
    if kind == "wide":
        run_wide(ctx, a)
    elif kind == "words":
        letters = FEW if a else range(len(LETTERS))
        first = FEW[c] if a else c
        for rest in itertools.product(letters, repeat=b - 1):
            word = (first,) + rest
            ctx.sample([list(map(str, LETTERS[w])) for w in word])
            ctx.case({"kind": "single", "word": list(word)}, single, ctx, word)
    elif kind == "histories":
        for word in SETS[b::8]:
            for letters in itertools.product(SOME, repeat=a):
                ctx.case({"kind": "history", "word": list(word), "events": [[t, list(x)] for t, x in letters]},
                         history, ctx, word, letters)
    else:
        for one, two in itertools.product(SETS[::7], SETS[b::12]):
            for letters in itertools.product(SOME[:4], repeat=a):
                ctx.case({"kind": "beside", "words": [list(one), list(two)], "events": [[t, list(x)] for t, x in letters]},
                         beside, ctx, [one, two], letters)


def replay(ctx, case):
    if case["kind"] == "single":
        single(ctx, case["word"])
    elif case["kind"] == "kinds":
        kinds(ctx, case["word"], case["default"], case["own"])
    elif case["kind"] == "wide":
        wide(ctx, case["word"], (case["event"][0], tuple(case["event"][1])))
    else:
        letters = [(t, tuple(x)) for t, x in case["events"]]
        if case["kind"] == "history":
            history(ctx, case["word"], letters)
        else:
            beside(ctx, case["words"], letters)
