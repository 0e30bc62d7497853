"""C36: events, calls, commands and states describe themselves truly."""
import re
import xml.etree.ElementTree as ET

from ..core import Violation
from ..ref import codes, decks, explore
from ..ref.table import DRAW_NAMES, Game, face
from .c16 import make_event
from .c19 import commands_of
from .c21 import named

PROPERTY = "C36"
RULE = ("every call code, every single-tile event and every event of the records of the reference table is described, and what the "
        "description names (seat, kind of call, tiles, source, points, reason) is compared with what happened; every command and "
        "replayed state of those records is described, and the description must name all its fields and differ from that of its "
        "neighbours")
BOUNDS = {"quick": "all call codes of all four seats; all 136 tiles x 4 seats drawn and discarded, as indicators; 19 scenarios "
                   "with 2 deviations (events); default lines and every 20th history with one deviation (commands)",
          "thorough": "any discard as deviation with 2 deviations (events), every 2nd history with one deviation (commands)"}
ASSUMPTIONS = ["only seats, kinds, tiles, points and reasons are read out of a description, in order; the words around them are free",
               "a group of several tiles with a red five is a multiset in which a red five counts as a five (C09)"]

KINDS = {"chi": "Flush", "pon": "Triplet", "ankan": "Kan", "kan": "Kan", "addkan": "AddedKan", "kita": "Kita"}
FACT = re.compile(r"(?:\d+[mpsz])+|\d+")


def shards(tier):
    out = [("codes", who, kind) for who in range(4) for kind in sorted(KINDS)]
    out += [("tiles", who) for who in range(4)]
    out += [("rounds", "small" if tier == "quick" else "large", b)
            for b in explore.packed(decks.scenarios("small" if tier == "quick" else "large"), {None: 2}, 20)]
    every = 20 if tier == "quick" else 2
    out += [("commands", every, b) for b in explore.packed(decks.scenarios("small"), {None: 1}, 40)]
    return out


def written(tiles):
    """Tiles of one suit; a tile set counts a red five as a five, so several fives may be written as one of them."""
    faces = [face(t) for t in tiles]
    return (faces[0][1], fives("".join(f[0] for f in faces))) if faces else None


def fives(digits):
    return "".join(sorted(digits.replace("0", "5"))) if len(digits) > 1 else digits


def read_tiles(text):
    """'405m' -> ('m', '045')."""
    if not re.fullmatch(r"\d+[mpsz]", text):
        raise Violation("%r is not a set of tiles" % text)
    return text[-1], fives(text[:-1])


def told(text, wanted, about):
    """The facts named in a text, in order."""
    facts = FACT.findall(text)
    want = [str(w) if not isinstance(w, tuple) else w for w in wanted]
    got = [read_tiles(f) if isinstance(w, tuple) and f[-1].isalpha() else f for f, w in zip(facts, want)]
    if len(facts) != len(want) or got != want:
        raise Violation("%s is described as %r, expected to name %r" % (about, text, want))


def call_facts(call):
    own, taken = written(call["own"]), written(call["taken"])
    return [own] + ([taken, call["source"]] if taken else [])


def drop_source(text, call):
    """Where nothing was taken there is no source to name."""
    return text if call["taken"] else text.rsplit(" ", 1)[0]


def described_call(text, call, about, who=()):
    kind = KINDS[call["kind"]]
    if not re.search(r"\b(Tenhou)?%s\b" % kind, text):
        raise Violation("%s is described as %r, expected a %s" % (about, text, kind))
    told(drop_source(text, call), list(who) + call_facts(call), about)


def one_call(call):
    from mahjong.record.utils.value.meld import meld_from
    about = "the call %r" % (call,)
    meld = meld_from(ET.Element("N", {"who": str(call["who"]), "m": str(codes.encode(call))}))
    described_call(str(meld), call, about)
    if str(meld) not in repr(meld):
        raise Violation("%s: repr %r does not tell what str tells: %r" % (about, repr(meld), str(meld)))


def check_event(tag, attrib, info, about):
    event = make_event(tag, attrib, 0)
    text = event.base_str()
    ev = info["ev"]
    if ev in ("draw", "discard"):
        told(text, [info["who"], written([info["tile"]])], about)
        if ev not in text:
            raise Violation("%s is described as %r" % (about, text))
    elif ev == "call":
        described_call(text, info, about, [info["who"]])
    elif ev in ("reach1", "reach2"):
        told(text, [info["who"]], about)
    elif ev == "dora":
        told(text, [written([info["tile"]])], about)
    elif ev == "win":
        told(text, [info["who"], info["points"], info["source"]], about)
    elif ev == "drawn":
        told(text, [], about)
        names = [name for name in DRAW_NAMES.values() if name in text]
        if names != ([DRAW_NAMES[info["reason"]]] if info["reason"] else []):
            raise Violation("%s is described as %r, expected the reason %r" % (about, text, info["reason"]))
    else:
        told(text, [], about)
    for whole in (str(event), "%s" % event, "{}".format(event)):
        if not whole.startswith(text):
            raise Violation("%s: str %r does not begin with %r" % (about, whole, text))
        rest = whole[len(text):]
        back = ET.fromstring(rest[rest.index("<"):])
        if back.tag != tag or back.attrib != attrib:
            raise Violation("%s: str %r does not carry the event" % (about, whole))
    if text not in repr(event):
        raise Violation("%s: repr %r does not tell %r" % (about, repr(event), text))
    if str([event]) != "[%r]" % event:
        raise Violation("%s shows differently in a list" % about)


def tiles(ctx, who):
    def one(t):
        for tag, info in (("%s%d" % ("TUVW"[who], t), {"ev": "draw", "who": who, "tile": t}),
                          ("%s%d" % ("DEFG"[who], t), {"ev": "discard", "who": who, "tile": t})):
            check_event(tag, {}, info, "event %s" % tag)
        check_event("DORA", {"hai": str(t)}, {"ev": "dora", "tile": t}, "new indicator %d" % t)
        ctx.states += 3
        ctx.transitions += 3
    for t in range(136):
        ctx.case({"mode": "tiles", "who": who, "tile": t}, one, t)
    for step in "12":
        ctx.case({"mode": "reach", "who": who}, check_event, "REACH", {"who": str(who), "step": step},
                 {"ev": "reach" + step, "who": who}, "riichi of seat %d" % who)


def rounds(ctx, size, bundle):
    for part in bundle:
        sc = decks.scenarios(size)[part[0]]
        seen = set()

        def enter(token, move, fresh):
            key = (move.tag, tuple(sorted(move.attrib.items())))
            if fresh and key not in seen:
                seen.add(key)
                ctx.states += 1
                ctx.transitions += 1
                ctx.outcome(move.info["ev"] + (":" + move.info["kind"] if move.info["ev"] == "call" else ""))
                check_event(move.tag, move.attrib, move.info, "event %s %r" % (move.tag, move.attrib))
            return token
        ctx.case({"mode": "rounds", "size": size, "part": list(part)}, explore.walk, Game(sc), part, enter)
        ctx.traces += 1


def check_command(c):
    raw = c.to_raw_record()
    text = str(c)
    for name, value in raw._asdict().items():
        if repr(value) not in text and str(value) not in text:
            raise Violation("command %s: %s %r is not in %r" % (c.timestamp, name, value, text))
    for other in (repr(c), str([c]), "%s" % c):
        if text not in other:
            raise Violation("command %s is written %r and %r" % (c.timestamp, text, other))
    return text


def check_growing(c, text):
    """A command is made by a rule and completed later; described at every stage it must tell what it is then."""
    from mahjong.record.universe.command import GameCommand
    raw = c.to_raw_record()._asdict()
    growing = GameCommand(prop=c.property, update=c.update_method, sub_scope=c.sub_scope_id, value=c.value)
    check_command(growing)
    for name in ("event", "state", "timestamp"):
        setattr(growing, name, raw[name])
        check_command(growing)
    if str(growing) != text:
        raise Violation("a command completed step by step is described as %r, not %r" % (str(growing), text))


def commands(sc, path):
    from mahjong.record.universe.command import GameCommand
    from mahjong.record.universe.executor import GameExecutor
    for tag, attrib, info, _ in explore.events_of(sc, path):
        check_event(tag, attrib, info, "event %s %r" % (tag, attrib))
    listed = commands_of(sc, path)
    texts = {}
    for c in listed:
        text = check_command(c)
        key = tuple(map(repr, c.to_raw_record()))
        if texts.setdefault(text, key) != key:
            raise Violation("two commands are described as %r" % text)
        again = str(GameCommand.from_raw_record(c.to_raw_record()))
        if again != text:
            raise Violation("an equal command is described as %r, not %r" % (again, text))
        check_growing(c, text)
    for c, state in zip(listed, GameExecutor().execute(listed)):
        check_state(state)
    return len(listed)


def check_state(state):
    """A replayed state reads like the plain nested mapping of its values."""
    for text in (str(state), repr(state)):
        for seat, values in state.items():
            if repr(seat) not in text:
                raise Violation("state %r does not name %r" % (text, seat))
            for view, value in values.items():
                if repr(view) not in text or repr(value) not in text:
                    raise Violation("state %r does not tell %r of %r" % (text, view, seat))


def run_commands(ctx, every, bundle):
    for part in bundle:
        for path in explore.histories(Game(decks.scenarios("small")[part[0]]), part):
            choices = explore.choices_of(path)
            shift = sum((i + 1) * (c + 1) for i, c in enumerate(choices))
            if shift % every and part[1:3] != (0, len(path)):
                continue
            sc = named(decks.scenarios("small")[part[0]], shift)
            ctx.case({"mode": "commands", "scenario": part[0], "shift": shift, "moves": choices}, one_record, ctx, sc,
                     explore.find(Game(sc), choices))


def one_record(ctx, sc, path):
    n = commands(sc, path)
    ctx.traces += 1
    ctx.states += n
    ctx.transitions += n


def run_shard(ctx, shard):
    if shard[0] == "codes":
        for call in codes.all_calls(shard[1], shard[2]):
            ctx.case({"mode": "codes", "call": dict(call)}, one_call, call)
            ctx.states += 1
            ctx.transitions += 1
        ctx.outcome("code:%s" % shard[2])
    elif shard[0] == "tiles":
        tiles(ctx, shard[1])
    elif shard[0] == "rounds":
        rounds(ctx, *shard[1:])
    else:
        run_commands(ctx, *shard[1:])


def replay(ctx, case):
    if case["mode"] == "codes":
        ctx.case(case, one_call, case["call"])
    elif case["mode"] in ("tiles", "reach"):
        tiles(ctx, case["who"])
    elif case["mode"] == "rounds":
        rounds(ctx, case["size"], [case["part"]])
    else:
        sc = named(decks.scenarios("small")[case["scenario"]], case["shift"])
        ctx.case(case, one_record, ctx, sc, explore.find(Game(sc), case["moves"]))
