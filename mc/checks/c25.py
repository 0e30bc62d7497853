"""C25: the plain event table reproduces the log."""
import itertools
import os
import xml.etree.ElementTree as ET

from ..core import Violation
from ..ref import decks, explore
from ..ref.table import Game
from .c21 import scratch

PROPERTY = "C25"
RULE = ("every log over the event alphabet up to the stated length, and every record of the reference table within the deviation "
        "budget, is written to a file and listed in both modes; rows are compared with the events one by one")
BOUNDS = {"quick": "14 event letters, logs of up to 3 events; 7 letters, logs of 4; every attribute subset of the named events; 20 file "
                   "names; records with one deviation",
          "thorough": "logs of up to 4 over all letters; records with two deviations"}
ASSUMPTIONS = ["the log id of a file is its name without folder and last extension", "rows of one event may stand in any order"]

LETTERS = [("T53", {}), ("D0", {}), ("U135", {}), ("G7", {}), ("REACH", {"who": "1", "step": "1"}), ("DORA", {"hai": "16"}),
           ("N", {"who": "0", "m": "4567"}), ("BYE", {"who": "3"}), ("X", {}), ("UN", {"n0": "%41 ,\"'<&\n", "dan": "1,2,3,4", "n1": ""}),
           ("D1", {"a": "1", "tag": "T5", "index": "9"}), ("Tx", {"D5": "D5"}), ("AGARI", {"ba": "0,0", "owari": "1,2,-3.5"}),
           ("d12", {"attr": "value", "value": "NA"})]
FILES = ["2018020105gm-00a9-0000-95d6ac02.xml", "a.xml", "a.b.xml", "x", "2010.mjlog", "T5.xml", "sub/dir.d/log.xml", "ab cd.xml",
         "NA.xml", "007.xml", "日本.xml", "a&tw=1.xml", ".xml", "a.", "./b.xml", "sub/../c.xml", "0.0.xml", "-.xml", "%41.xml", "a;b.XML"]


def shards(tier):
    n = len(LETTERS)
    out = [("words", None, length, first) for length in (1, 2, 3) for first in range(n)]
    out += [("words", 7 if tier == "quick" else None, 4, first) for first in range(7 if tier == "quick" else n)]
    out += [("files", None, None, None), ("attributes", None, None, None)]
    out += [("records", "small", b, None)
            for b in explore.packed(decks.scenarios("small"), {None: 1 if tier == "quick" else 2}, 60)]
    return out


def split(tag):
    i = len(tag)
    while i and tag[i - 1] in "0123456789":
        i -= 1
    if 0 < i < len(tag) and all("a" <= c.lower() <= "z" for c in tag[:i]):
        return tag[:i], tag[i:]
    return tag, None


def wanted(events, abstract):
    """[(position, tag, {attribute: value})] that must be listed."""
    out = []
    for i, (tag, attrib) in enumerate(events):
        letter, number = split(tag)
        if number is not None and abstract:
            continue
        cells = {"<tag>": letter, **attrib}
        if number is not None:
            cells["<tag_extra>"] = number
        out.append((i, letter, cells))
    return out


def listed(ctx, events, path="log.xml"):
    from mahjong.record.util_functions import light_dataframe_from_file
    ctx.traces += 2
    ctx.states += 1
    ctx.transitions += 2 * len(events)
    root = ET.Element("mjloggm", {"ver": "2.3"})
    for tag, attrib in events:
        root.append(ET.Element(tag, attrib))
    log_id = path.split("/")[-1]
    if "." in log_id[1:]:
        log_id = log_id[:log_id.rindex(".")]
    with scratch():
        if os.path.dirname(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
        ET.ElementTree(root).write(path, encoding="utf-8", xml_declaration=True)
        events = [(e.tag, dict(e.attrib)) for e in ET.parse(path).getroot()]
        for abstract in (True, False):
            df = light_dataframe_from_file(path, abstract=abstract)
            compare(df, wanted(events, abstract), log_id, "abstract" if abstract else "full")
        compare(light_dataframe_from_file(path), wanted(events, True), log_id, "default")


def compare(df, want, log_id, mode):
    if "log_id" not in df.columns:
        raise Violation("%s: no log id" % mode)
    if not len(df):
        if want:
            raise Violation("%s: nothing listed, expected %d events" % (mode, len(want)))
        return
    got = []
    rows = zip(df["index"].tolist(), df["tag"].tolist(), df["attr"].tolist(), df["value"].tolist(), df["log_id"].tolist())
    for position, tag, attr, value, log in rows:
        if log != log_id:
            raise Violation("%s: a row carries log id %r, expected %r" % (mode, log, log_id))
        if not got or got[-1][0] != position or got[-1][1] != tag:
            got.append((position, tag, {}))
        if attr in got[-1][2]:
            raise Violation("%s: %r of event %d is listed twice" % (mode, attr, position))
        got[-1][2][attr] = value
    if got != want:
        for a, b in itertools.zip_longest(got, want):
            if a != b:
                raise Violation("%s: listed %r, in the log %r" % (mode, a, b))


def words(ctx, size, length, first):
    letters = LETTERS[::2][:size] if size else LETTERS
    for rest in itertools.product(range(len(letters)), repeat=length - 1):
        word = (first,) + rest
        events = [letters[i] for i in word]
        ctx.sample([t for t, _ in events])
        ctx.case({"kind": "log", "events": [[t, a] for t, a in events], "path": "log.xml"}, listed, ctx, events)


def run_shard(ctx, shard):
    kind, a, b, c = shard
    if kind == "words":
        words(ctx, a, b, c)
    elif kind == "files":
        for path in FILES:
            for events in ([], LETTERS[:5], LETTERS[4:], LETTERS[:1]):
                ctx.case({"kind": "log", "events": [[t, x] for t, x in events], "path": path}, listed, ctx, events, path)
    elif kind == "attributes":
        for tag in ("INIT", "T1", "N", "AGARI", "RYUUKYOKU"):
            names = ["who", "hai", "ten", "n0", "v", "tag"]
            for r in range(len(names) + 1):
                for chosen in itertools.combinations(names, r):
                    events = [(tag, {k: "%s %d" % (k, i) for i, k in enumerate(chosen)}), ("E5", {})]
                    ctx.case({"kind": "log", "events": [[t, x] for t, x in events], "path": "l.xml"}, listed, ctx, events, "l.xml")
        for number in range(136):
            events = [(letter + str(number), {}) for letter in "TDUEVFWG"]
            ctx.case({"kind": "log", "events": [[t, x] for t, x in events], "path": "l.xml"}, listed, ctx, events, "l.xml")
    else:
        for part in b:
            sc = decks.scenarios(a)[part[0]]
            for path in explore.histories(Game(sc), part):
                events = [(t, dict(x)) for t, x, _, _ in explore.events_of(sc, path)]
                ctx.case({"kind": "record", "size": a, "scenario": part[0], "moves": explore.choices_of(path)}, listed, ctx, events)


def replay(ctx, case):
    if case["kind"] == "log":
        ctx.case(case, listed, ctx, [(t, a) for t, a in case["events"]], case["path"])
    else:
        sc = decks.scenarios(case["size"])[case["scenario"]]
        path = explore.find(Game(sc), case["moves"])
        ctx.case(case, listed, ctx, [(t, dict(x)) for t, x, _, _ in explore.events_of(sc, path)])
