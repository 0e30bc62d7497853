"""C29: reports are safe to open and to save whatever the names are."""
import builtins
import contextlib
import io
import itertools
import os
import re

from .. import reports, web
from ..core import Violation
from ..ref import decks, explore, report as R
from ..ref.table import RANKS, Game, Scenario
from .c15 import game_name
from .c21 import scratch
from .c28 import titles

PROPERTY = "C29"
RULE = ("every name over an alphabet of letters, markup, template, quoting and path pieces up to the stated length is given to every "
        "seat of a record with wins; the report is read back as HTML: its elements must be those of a report with plain names, its "
        "texts and link the ones given; the suggested file name is checked, and the command-line tool is run with every answer in a "
        "scratch folder where it must leave exactly one file per chosen player")
BOUNDS = {"quick": "names of up to 2 of 38 pieces and 3 of 9, in rotating seats; 24 links; three and four players",
          "thorough": "names of up to 3 of 20 pieces"}
ASSUMPTIONS = ["anything but letters, digits and hyphens may be replaced in file names", "the hand analysis is replaced by reference "
               "answers"]

PIECES = ["a", "<", ">", "&", '"', "'", "/", "\\", "..", "%", "{", "}", "\n", "\t", ":", "*", "?", "|", " ", "é", "日", "\u202e", ".",
          "{{7*7}}", "{% raw %}", "<script>alert(1)</script>", "</td></tr></table>", "&lt;", "<!--", "-->", "]]>", "=", "`",
          "javascript:", "</style>", "#", "&#60;b&#62;", "_0"]
FEW = ["a", "<b>", "&", '"', "/", "..", "{{7*7}}", "'", "\\"]
ID = "2018020105gm-00a9-0000-95d6ac02"
LINKS = ["http://tenhou.net/0/?log=" + ID, "https://tenhou.net/0/?log=%s&tw=1" % ID, "http://tenhou.net/0/?tw=2&log=" + ID,
         "http://tenhou.net/0/?log=%s\"><script>x</script>" % ID, "http://tenhou.net/0/?log=%s&x='onclick='y" % ID,
         "http://tenhou.net/0/?log=..%2F..%2Fx", "http://tenhou.net/0/?log=/x", "http://tenhou.net/0/?log=a\\b",
         "http://tenhou.net/0/?log=a%00b", "http://tenhou.net/0/?log=<b>", "http://tenhou.net/0/?log={{7*7}}",
         "http://tenhou.net/0/?log=a&lt;b", "http://tenhou.net/0/?log=%E6%97%A5", "http://tenhou.net/0/?log=C:x",
         "http://tenhou.net/0/?log=a*b?c|d", "http://tenhou.net/0/?log=a%0Ab", "http://tenhou.net/0/?log=..", "http://tenhou.net/0/?log=.",
         "http://tenhou.net/0/?log=a&lt;=1&gt", "http://tenhou.net/0/?log=x#</a>", "http://tenhou.net/0/?log=%22%3E", "http://e.mjv.jp/?log=1",
         "http://tenhou.net/0/?log=a b", "http://tenhou.net/0/?log=a'b"]

_paths = {}


def base(n):
    """(scenario, path) with wins by several seats."""
    if n not in _paths:
        deals = [decks.opposed()] if n == 4 else [decks.sanma_ready()]
        sc = Scenario("names", n, 169 if n == 4 else 185, deals, 6)
        game, best = Game(sc), None
        for shard in explore.shards([sc], {None: 1}):
            for path in explore.histories(game, shard):
                rank = (sum(1 for m in path if m.info["ev"] == "win"), sum(1 for m in path if m.info["ev"] == "discard"))
                if best is None or rank > best[0]:
                    best = rank, path
        _paths[n] = deals, best[1]
    return _paths[n]


def named(n, names):
    deals, path = base(n)
    return Scenario("names", n, 169 if n == 4 else 185, deals, 6, names=list(names)), path


def server(root):
    """The record is what the log server answers."""
    answer = web.page(root)
    return web.serving(lambda url: answer)


@contextlib.contextmanager
def guarded(folder):
    """Files are only opened for writing inside the folder; anything else is a violation (and does not happen)."""
    real = builtins.open

    def guard(file, mode="r", *args, **kw):
        if any(c in mode for c in "wax+") and not isinstance(file, int):
            where = os.path.realpath(os.path.abspath(os.fspath(file)))
            if os.path.dirname(where) != os.path.realpath(folder):
                raise Violation("a report would be saved as %r" % (os.fspath(file),))
        return real(file, mode, *args, **kw)
    builtins.open = io.open = guard
    try:
        yield
    finally:
        builtins.open = io.open = real


_plain = {}


def plain_tags(n, who):
    if (n, who) not in _plain:
        sc, path = named(n, ["A", "B", "C", "D"][:n])
        with server(explore.document(sc, path)):
            html = reports.checker().parse(LINKS[0], who)
        _plain[n, who] = tags(html)
    return _plain[n, who]


def reader(html):
    start, end = html.find("<style"), html.find("</style>")
    r = R.Reader()
    r.feed(html[:start] + html[end + 8:])
    r.close()
    return r


def tags(html):
    return reader(html).tags


def player_text(sc, i):
    return "%s %s R%.2f" % (sc.names[i], RANKS[sc.dan[i]], float(sc.rate[i]))


def texts(html, sc, path, who, link):
    r = reader(html)
    if r.tags != plain_tags(sc.n, who):
        raise Violation("the elements of the report are not those of one with plain names: %s" % sorted(
            set(r.tags) ^ set(plain_tags(sc.n, who))))
    paragraphs = list(r.root.find("p"))
    got = [p.text() for p in paragraphs[:2]]
    finals, points = path[-1].state.final
    ranking = sorted(range(sc.n), key=lambda p: (-finals[p], p))
    about = "%s %s" % (game_name(sc), ",".join("%d位:%s(%.1f)" % (i + 1, sc.names[p], points[p]) for i, p in enumerate(ranking)))
    want = [player_text(sc, who), about]
    if want[0] not in got[0] or got[0].replace(want[0], "", 1).strip() != "Player:":
        raise Violation("the player is shown as %r, is %r" % (got[0], want[0]))
    if not got[1].startswith(want[1]) or got[1][len(want[1]):].strip() != "Link":
        raise Violation("the record is described as %r, is %r" % (got[1], want[1]))
    anchors = list(r.root.find("a"))
    if [a.attrs.get("href") for a in anchors] != [link] or set(anchors[0].attrs) != {"href"}:
        raise Violation("the link is %r, given was %r" % ([a.attrs for a in anchors], link))
    spans = [s.text() for s in r.root.find("span") if s.attrs.get("class") == "game-caption"]
    if spans != titles(sc, path):
        raise Violation("the rounds are headed %r, expected %r" % (spans, titles(sc, path)))


def pattern(text):
    return "".join(re.escape(c) if c.isalnum() or c == "-" else ".?" for c in text)


def file_name(name, log_id, sc, who):
    if not isinstance(name, str) or not name or name in (".", "..") or os.path.basename(name) != name \
            or any(c in name for c in "/\\\0:*?\"<>|\n\r\t"):
        raise Violation("%r is no plain file name" % (name,))
    if len(name.encode()) > 255:
        raise Violation("%r is too long" % (name,))
    if not re.search(pattern(log_id) + ".*" + pattern(sc.names[who]) + ".*" + str(who), name, re.S):
        raise Violation("%r does not hold id %r, name %r and seat %d" % (name, log_id, sc.names[who], who))


def check(ctx, names, seats, link):
    sc, path = named(len(names), names)
    with reports.known_answers(), server(explore.document(sc, path)):
        seen = {}
        for who in seats:
            result = reports.checker().parse(link, who, generate_filename=True)
            name, html = result
            texts(html, sc, path, who, link)
            file_name(name, log_id(link), sc, who)
            if name.lower() in seen:
                raise Violation("seats %d and %d share the report %r" % (seen[name.lower()], who, name))
            seen[name.lower()] = who
            ctx.states += 1
            ctx.traces += 1
            ctx.transitions += 1


def log_id(link):
    """Reference reading of a link."""
    from urllib.parse import unquote_plus
    query = link.split("?", 1)[1].split("#")[0]
    for part in query.split("&"):
        key, _, value = part.partition("=")
        if key == "log":
            return unquote_plus(value)


def tool(ctx, names, link, answer):
    """The command-line tool, from a link to files."""
    from mahjong import tenhou_record_check as module
    sc, path = named(len(names), names)
    replies = [" " + link + " ", answer]
    chosen = [int(answer) - 1] if answer in [str(i + 1) for i in range(sc.n)] else list(range(sc.n))
    with scratch() as folder:
        with reports.known_answers(), server(explore.document(sc, path)), \
                web.console(replies), guarded(folder):
            try:
                module.main()
            finally:
                from ..env import quiet
                quiet()
        files = sorted(os.listdir(folder))
        if len(files) != len(chosen):
            raise Violation("%d files for %d players: %r" % (len(files), len(chosen), files))
        left = list(files)
        for who in chosen:
            mine = None
            for f in left:
                with open(os.path.join(folder, f), encoding="utf-8", newline="") as fh:
                    html = fh.read()
                if player_text(sc, who) in reader(html).root.first("p").text() and f.endswith("%d.html" % who):
                    mine = f
                    texts(html, sc, path, who, link)
                    file_name(f, log_id(link), sc, who)
            if mine is None:
                raise Violation("no file of seat %d among %r" % (who, files))
            left.remove(mine)
    ctx.traces += 1
    ctx.states += len(chosen)
    ctx.transitions += 1


def words(tier):
    out = [""] + PIECES + [a + b for a in PIECES for b in PIECES]
    three = FEW if tier == "quick" else PIECES[:20]
    return out + ["".join(w) for w in itertools.product(three, repeat=3)]


PARTS = 32


def shards(tier):
    return [("words", i) for i in range(PARTS)] + [("links", i) for i in range(len(LINKS))] + [("tool", i) for i in range(8)] \
        + [("same", 0)]


def case(ctx, kind, names, *rest):
    f = {"check": check, "tool": tool}[kind]
    ctx.case({"kind": kind, "names": list(names), "rest": list(rest)}, f, ctx, list(names), *rest)
    ctx.sample(list(names))


def run_shard(ctx, shard):
    kind, i = shard
    every = words(ctx.tier)
    if kind == "words":
        mine = every[i::PARTS]
        for j, word in enumerate(mine):
            n = 3 if j % 4 == 3 else 4
            names = [word, "B", mine[(j * 7 + 3) % len(mine)], word][:n]
            shift = j % n
            names = names[-shift:] + names[:-shift] if shift else names
            case(ctx, "check", names, [shift], LINKS[0])
    elif kind == "links":
        for n in (3, 4):
            case(ctx, "check", ["a", "<b>", "../x", "日本"][:n], list(range(n)), LINKS[i])
    elif kind == "tool":
        singles = [""] + PIECES
        for j, word in enumerate(singles[i::8]):
            n = 3 + (i + j) % 2
            for answer in ("", "1", str(n), "x", "²", "-1", "1.0") if j % 2 else ("0", "2", "9", "all", str(n + 1), "①", "10", "1 2"):
                case(ctx, "tool", [word, "A", word + "/", word][:n], LINKS[(i + 8 * j) % len(LINKS)], answer)
    else:
        for word in [""] + PIECES:
            for n in (3, 4):
                case(ctx, "check", [word] * n, list(range(n)), LINKS[1])


def replay(ctx, case_):
    {"check": check, "tool": tool}[case_["kind"]](ctx, case_["names"], *case_["rest"])
