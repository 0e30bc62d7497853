"""C40: a log cut short is never taken for a whole one."""
import os
import xml.etree.ElementTree as ET

from .. import reports, web
from ..core import Violation
from ..ref import decks, explore
from ..ref.table import Game, header
from .c21 import scratch
from .c29 import reader
from .c34 import FORMS, TYPES, answer, contents, check_same, log_of, page

PROPERTY = "C40"
RULE = ("every point of every history at which the writing of a log can have stopped is visited (after each event, and after each byte), and "
        "the log as it was then is given to every reader and to the report tools: all must refuse it and leave the folder as it was, "
        "while the whole log is read; runs of the report tool with every outcome of the server are explored in sequence")
BOUNDS = {"quick": "after each event of 19 scenarios with 2 deviations; after each byte (cut, and padded with zero bytes to the full length) of "
                   "five logs of three and four players (two of whole scenarios); sequences of 2 runs over 10 outcomes",
          "thorough": "any discard as deviation with 2 deviations; after each byte of a log per scenario; sequences of 3 runs"}
ASSUMPTIONS = ["refusing is any error", "the hand analysis is replaced by reference answers", "a whole log ends with the closing of its root"]
PARTS = 12
LOGS = [0, 1, 2, 100, 107]
LETTERS = [(0, ("ok", 0)), (1, ("ok", 1)), (2, ("moved", 0)), (0, ("cut", 500)), (1, ("cut", 40)), (0, ("unfinished", 0)), (1, ("error", 2)),
           (0, ("page", 0)), (2, ("page", 2)), (0, ("error", 1))]


def shards(tier):
    size = "small" if tier == "quick" else "large"
    logs = LOGS if tier == "quick" else LOGS + [100 + i for i in range(len(decks.scenarios("small"))) if 100 + i not in LOGS]
    return ([("events", size, b) for b in explore.packed(decks.scenarios(size), {None: 2}, 16)]
            + [("bytes", log, i) for log in logs for i in range(PARTS)]
            + [("runs", 2 if tier == "quick" else 3, i) for i in range(len(LETTERS))])


# ------------------------------------------------------------------------------------------------ after each event
def reads(elements):
    """Is this log taken for a whole one?"""
    from mahjong.record.reader import TenhouRecord
    root = ET.Element("mjloggm", {"ver": "2.3"})
    root.extend(elements)
    try:
        return TenhouRecord(root)
    except Exception:
        return None


def events(ctx, size, part):
    sc = decks.scenarios(size)[part[0]]
    head = [explore.element(t, a) for t, a, _ in header(sc)]
    if part[1] == 0:
        for n in range(len(head) + 1):
            if reads(head[:n]) is not None:
                raise Violation("the first %d events of the header are read as a record" % n)

    def enter(token, move, fresh):
        if token is None:
            token = head
        token = token + [explore.element(move.tag, move.attrib)]
        if fresh:
            ctx.states += 1
            ctx.transitions += 1
            whole = bool(move.state.final)
            got = reads(token)
            ctx.outcome("whole" if whole else "cut after " + move.info["ev"])
            if (got is not None) is not whole:
                raise Violation("%s is %s" % ("a whole log" if whole else "a log that ends after %d events, at <%s>" % (len(token), move.tag),
                                              "refused" if got is None else "read as %s" % got),
                                history=[(e.tag, dict(e.attrib)) for e in token[-4:]])
        return token
    explore.walk(Game(sc), part, enter)
    ctx.traces += 1


# ------------------------------------------------------------------------------------------------ after each byte
def refused(what, function, *args):
    try:
        got = function(*args)
    except Exception:
        return
    raise Violation("%s, cut short, gives %s" % (what, str(got)[:200]))


def cut(ctx, log, at):
    """The log as it was after `at` bytes, as a file and from the server."""
    from mahjong.record import reader as R, util_functions as U
    from mahjong import tenhou_record_check as tool
    _, _, log_id = log_of(log)
    status, headers, body = page(log)
    link = FORMS[at % len(FORMS)] % log_id
    with scratch() as folder:
        for tail in (b"", b"\0" * (len(body) - at)):
            name = log_id + ".xml"
            with open(name, "wb") as f:
                f.write(body[:at] + tail)
            before = contents(folder)
            refused("the file", R.from_file, name)
            refused("the event table of the file", U.light_dataframe_from_file, name)
            with web.serving(lambda url: (status, headers, body[:at] + tail)):
                refused("the log at its link", R.from_url, link.strip())
                refused("the report", reports.checker().parse, link.strip(), at % 3)
                with web.console([link, ""]):
                    refused("the report tool", tool.main)
            from ..env import quiet
            quiet()
            check_same(before, contents(folder), "reading a log cut after %d of %d bytes" % (at, len(body)))
            ctx.transitions += 5
        ctx.states += 1
    ctx.traces += 1


def whole(ctx, log):
    from mahjong.record import reader as R, util_functions as U
    _, path, log_id = log_of(log)
    status, headers, body = page(log)
    with scratch():
        name = log_id + ".xml"
        for data in (body, body + b"\n"):
            with open(name, "wb") as f:
                f.write(data)
            with web.serving(lambda url: (status, headers, data)):
                for record in (R.from_file(name), R.from_url(FORMS[0] % log_id)):
                    if len(record.events) != len(ET.fromstring(body)):
                        raise Violation("the whole log is read with %d events" % len(record.events))
            U.light_dataframe_from_file(name)
    ctx.states += 1


# ------------------------------------------------------------------------------------------------ runs of the report tool
def run(ctx, which, form, outcome, seats):
    from mahjong import tenhou_record_check as tool
    from ..env import quiet
    log_id = log_of(which)[2]
    with web.serving(answer(which, outcome)), web.console([FORMS[form] % log_id, seats]):
        try:
            tool.main()
            return True
        except (Exception, SystemExit):
            return False
        finally:
            quiet()


def runs(ctx, word):
    with scratch() as folder, reports.known_answers():
        for step, (which, outcome) in enumerate(word):
            sc, path, log_id = log_of(which)
            before = contents(folder)
            seats = "2" if step % 2 else ""
            ended = run(ctx, which, step, outcome, seats)
            ctx.outcome("%s: %s" % (outcome[0], "ended" if ended else "failed"))
            ctx.states += 1
            ctx.transitions += 1
            after = contents(folder)
            if outcome[0] in ("ok", "moved"):
                mine = sorted(f for f in after if f not in before or log_id in f)
                wanted = 1 if seats else sc.n
                if not ended or len([f for f in mine if before.get(f) is None or log_id in f]) < wanted:
                    raise Violation("the log was delivered, reports: %r" % (mine,))
                for f in mine:
                    count = len(list(reader(after[f].decode("utf-8")).root.find("p")))
                    if not count:
                        raise Violation("%s is no report" % f)
                check_same({f: before[f] for f in before if f not in mine}, {f: after[f] for f in after if f not in mine},
                           "a run that saves %r" % (mine,))
            else:
                if ended:
                    raise Violation("the tool ends as if it had read a log (%r)" % (outcome,))
                check_same(before, after, "a run without a log (%r)" % (outcome,))
    ctx.traces += 1


def run_shard(ctx, shard):
    import itertools
    kind, a, b = shard
    if kind == "events":
        for part in b:
            ctx.case({"mode": kind, "size": a, "part": list(part)}, events, ctx, a, part)
    elif kind == "bytes":
        if b == 0:
            ctx.case({"mode": "whole", "log": a}, whole, ctx, a)
        for at in range(b, len(page(a)[2]), PARTS):
            ctx.case({"mode": kind, "log": a, "at": at}, cut, ctx, a, at)
    else:
        for rest in itertools.product(LETTERS, repeat=a - 1):
            word = [LETTERS[b]] + list(rest)
            ctx.case({"mode": kind, "word": [[w, list(o)] for w, o in word]}, runs, ctx, word)


def replay(ctx, case):
    if case["mode"] == "events":
        ctx.case(case, events, ctx, case["size"], tuple(case["part"]))
    elif case["mode"] == "bytes":
        ctx.case(case, cut, ctx, case["log"], case["at"])
    elif case["mode"] == "whole":
        ctx.case(case, whole, ctx, case["log"])
    else:
        ctx.case(case, runs, ctx, [(w, tuple(o)) for w, o in case["word"]])
