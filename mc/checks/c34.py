"""C34: the extractor saves the commands of the log it was asked for, or nothing."""
import itertools
import os

from .. import web
from ..core import Violation
from ..ref import decks, explore
from ..ref.table import Game
from .c15 import basic, line
from .c19 import commands_of
from .c21 import compare_file, named, scratch

PROPERTY = "C34"
RULE = ("the log server is owned: a run of the tool takes a link and one outcome of the server (the log in several transport forms, "
        "a redirection, the log cut after any byte, no answer, other pages); every cut of several logs and every sequence of runs up "
        "to the stated length in one working directory are explored, and after each run the directory must hold exactly what the "
        "reference holds: one complete command file per log that was delivered; logs with any one attribute damaged "
        "or lost are delivered before and after a good run, and a run that fails on one must leave every file as it was")
BOUNDS = {"quick": "all cuts of three logs (three and four players); every attribute of every event of two logs damaged in 4 ways; sequences of 3 runs over 9 letters; 17 name sets x 2, 5 link forms, "
                   "5 transport forms",
          "thorough": "sequences of 4 runs; all cuts of eight logs"}
ASSUMPTIONS = ["a failing run may end with any exception or message", "the shell command that waits for a key is not run"]

IDS = ["2019012600gm-0089-0000-100908f0", "2018020105gm-00a9-0000-95d6ac02"]
FORMS = ["http://tenhou.net/0/?log=%s&tw=0", "https://tenhou.net/0/?log=%s", "http://tenhou.net/3/?tw=2&log=%s",
         "http://tenhou.net/0/?log=%s&tw=3&ts=5", "  http://tenhou.net/0/?log=%s \t"]
TYPES = ["text/xml; charset=utf-8", "text/xml", "application/xml", "text/plain; charset=US-ASCII", None]
HTML = b"<!DOCTYPE html><html><head><title>404</title></head><body><p>not found<br></body></html>"
CUTS = 48
SPOILED = 8


def shards(tier):
    logs = 3 if tier == "quick" else 8
    out = [("cuts", log, i) for log in range(logs) for i in range(CUTS // 6)]
    out += [("spoiled", log, i) for log in range(2 if tier == "quick" else 6) for i in range(SPOILED)]
    out += [("sequences", 3 if tier == "quick" else 4, i) for i in range(len(LETTERS))]
    out += [("forms", n, i) for n in (3, 4) for i in range(5)]
    return out


def log_of(which):
    """(scenario, path, id) of a numbered log; from 100 on the default lines of the scenarios."""
    if which >= 100:
        sc = decks.scenarios("small")[which - 100]
        return sc, line(sc), "2011%02d0112gm-0001-0000-%08x" % (which % 12 + 1, which * 7777)
    sc = named(basic(4 if which % 3 != 1 else 3), which * 3)
    if which >= 3:
        sc.name = "basic %d" % which
    return sc, line(sc), IDS[which % 2] if which < 2 else "2010%02d0112gm-0001-0000-%08x" % (which, which * 77777)


_pages, _commands = {}, {}


def page(which, content_type=TYPES[0]):
    if which not in _pages:
        sc, path, _ = log_of(which)
        _pages[which] = explore.document(sc, path)
        _commands[which] = commands_of(sc, path)
    return web.page(_pages[which], content_type)


def commands(which):
    page(which)
    return _commands[which]


def unfinished(which):
    import xml.etree.ElementTree as ET
    root = ET.fromstring(page(which)[2])
    del root[-1]
    return web.page(root)


def spoiled(which, value):
    """The log with one attribute of one event damaged or lost (or an event without attributes made unreadable)."""
    import xml.etree.ElementTree as ET
    root = ET.fromstring(page(which)[2])
    spots = spots_of(root)
    number, attr, how = spots[value]
    if attr is None:
        root[number].tag = root[number].tag[0] + ("999" if how else "")
    elif how == "lost":
        del root[number].attrib[attr]
    else:
        root[number].attrib[attr] = how
    return web.page(root)


def spots_of(root):
    spots = []
    for number, event in enumerate(root):
        spots += [(number, attr, how) for attr in sorted(event.attrib) for how in ("x", "", "lost", "99999")]
        if not event.attrib:
            spots += [(number, None, how) for how in (True, False)]
    return spots


def answer(which, outcome):
    """What the server says; outcome is (kind, parameter)."""
    import requests
    kind, value = outcome
    if kind == "ok":
        return lambda url: page(which, TYPES[value])
    if kind == "moved":
        def moved(url):
            if "moved" not in url:
                return 302, {"Location": "http://e.mjv.jp/moved/log"}, b""
            return page(which)
        return moved
    if kind == "cut":
        status, headers, body = page(which)
        return lambda url: (status, headers, body[:value])
    if kind == "error":
        return lambda url: [requests.exceptions.ConnectTimeout("t"), requests.exceptions.ReadTimeout("t"),
                            requests.exceptions.ConnectionError("c"), requests.exceptions.ChunkedEncodingError("k")][value]
    if kind == "page":
        return lambda url: [(404, {"Content-Type": "text/html"}, HTML), (200, {"Content-Type": "text/html"}, HTML),
                            (200, {"Content-Type": "text/xml"}, b"<mjloggm ver=\"2.3\"/>"), (200, {}, b""),
                            (503, {"Content-Type": "text/plain"}, b"busy")][value]
    if kind == "spoiled":
        return lambda url: spoiled(which, value)
    assert kind == "unfinished"
    return lambda url: unfinished(which)


def delivers(which, outcome):
    if outcome[0] in ("ok", "moved"):
        return True
    return outcome[0] == "cut" and outcome[1] >= len(page(which)[2].rstrip())


def run(which, form, outcome):
    from mahjong import universe_paifu_convert as tool
    log_id = log_of(which)[2]
    with web.serving(answer(which, outcome)) as server, web.console([FORMS[form] % log_id]):
        try:
            tool.main()
            ended = True
        except (Exception, SystemExit):
            ended = False
    if not server.asked or log_id not in server.asked[0]:
        raise Violation("asked the server for %r, the log is %s" % (server.asked, log_id))
    return ended


def contents(folder):
    out = {}
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name), "rb") as f:
            out[name] = f.read()
    return out


def check_saved(folder, name, which, before):
    """After a run that delivered a log: its file holds its commands, nothing else has changed."""
    after = contents(folder)
    if name not in after:
        raise Violation("the log was delivered, but %s is not there: %r" % (name, sorted(after)))
    check_same(dict(before, **{name: after[name]}), after, "a run that saves %s" % name)
    compare_file(commands(which), name)


def check_same(before, after, what):
    if sorted(before) != sorted(after):
        raise Violation("%s: the directory held %r, now %r" % (what, sorted(before), sorted(after)))
    changed = [name for name in before if before[name] != after[name]]
    if changed:
        raise Violation("%s: the contents of %r changed" % (what, changed))


def sequence(ctx, runs):
    """Runs of the tool one after another in one directory."""
    with scratch() as folder:
        for which, form, outcome in runs:
            before = contents(folder)
            ended = run(which, form, outcome)
            name = "%s_command.csv" % log_of(which)[2]
            if outcome[0] == "spoiled":
                # a damaged log may be more than the tool notices; noticing it must leave everything as it was
                if not ended:
                    check_same(before, contents(folder), "a run that failed on a damaged log")
            elif delivers(which, outcome):
                if not ended:
                    raise Violation("log %d was delivered (%r), the tool failed" % (which, outcome))
                check_saved(folder, name, which, before)
            else:
                check_same(before, contents(folder), "a run without a log (%r)" % (outcome,))
            ctx.outcome("%s: %s" % (outcome[0], "ended" if ended else "failed"))
            ctx.states += 1
            ctx.transitions += 1
    ctx.traces += 1


LETTERS = [(0, 0, ("ok", 0)), (1, 1, ("ok", 1)), (0, 2, ("moved", 0)), (0, 0, ("cut", 500)), (1, 0, ("cut", 300)), (1, 3, ("error", 1)),
           (0, 4, ("page", 0)), (1, 0, ("unfinished", 0)), (2, 0, ("ok", 4))]


def run_case(ctx, runs):
    ctx.sample([[w, f, list(o)] for w, f, o in runs])
    ctx.case({"runs": [[w, f, list(o)] for w, f, o in runs]}, sequence, ctx, runs)


def run_shard(ctx, shard):
    kind, a, b = shard
    if kind == "cuts":
        size = len(page(a)[2])
        for cut in range(b, size + 1, CUTS // 6):
            run_case(ctx, [(a, cut % 5, ("cut", cut))])
    elif kind == "spoiled":
        import xml.etree.ElementTree as ET
        good = (a, 0, ("ok", 0))
        for value in range(b, len(spots_of(ET.fromstring(page(a)[2]))), SPOILED):
            run_case(ctx, [(a, b % 5, ("spoiled", value)), good, (a, 0, ("spoiled", value)), good])
    elif kind == "sequences":
        for rest in itertools.product(LETTERS, repeat=a - 1):
            run_case(ctx, (LETTERS[b],) + rest)
    else:
        for which in range(3 if a == 3 else 4, 54, 3):
            run_case(ctx, [(which, b, ("ok", (which + b) % 5)), (which, (b + 1) % 5, ("ok", 0))])
        if a == 3:
            for kind, n in (("error", 4), ("page", 5)):
                for value in range(n):
                    run_case(ctx, [(b % 3, b, (kind, value))])


def replay(ctx, case):
    ctx.case(case, sequence, ctx, [(w, f, tuple(o)) for w, f, o in case["runs"]])
