"""Shared by C27 (judgements), C28 (coverage) and C29 (names): runs the report and compares it with the reference."""
import base64
import contextlib
import hashlib
import re

from .core import Violation
from .impl import api
from .ref import hands as H, report as R
from .ref.pictures import SHOWS
from .ref.table import face

_checker = None


def checker():
    global _checker
    if _checker is None:
        from mahjong.record.checker import TenhouChecker
        _checker = TenhouChecker()
    return _checker


def produce(root, who):
    """Report of one player of a log (an XML element)."""
    from mahjong.record.reader import TenhouRecord
    return checker().parse(TenhouRecord(root), who)


def sections(html):
    try:
        return R.sections(R.read(html))
    except (AssertionError, KeyError, ValueError, IndexError, StopIteration) as error:
        raise Violation("the report cannot be read: %s %s" % (type(error).__name__, error))


_shown = {}
STYLE = re.compile(r"\.pic(\w+)\s*\{[^}]*?url\(\s*[\"']?data:image/png;base64,([^\"')]*)")


def styles(html):
    """Face -> the tile its picture was drawn for (None for an unknown picture)."""
    end = html.find("</style>")
    text = html[:end]
    if text not in _shown:
        if len(_shown) > 4:
            _shown.clear()
        _shown[text] = {name: SHOWS.get(hashlib.sha256(base64.b64decode(data)).hexdigest()[:16])
                        for name, data in STYLE.findall(text)}
    return _shown[text]


def pictures(html, want):
    """Every tile named anywhere in the rows is drawn with its own picture."""
    drawn = styles(html)
    for section in want:
        for row in section:
            for tile in list(row.hand) + [t for m in row.melds for t in m]:
                name = face(tile)
                if name not in drawn:
                    raise Violation("%s has no picture in the report" % name)
                if drawn[name] != name:
                    raise Violation("%s is drawn as %s" % (name, drawn[name]))


@contextlib.contextmanager
def known_answers():
    """The hand analysis is replaced by reference answers (C03-C05 decide whether the real one gives them)."""
    a = api()
    cls = a.reasoning.HeuristicPatternMatchWaiting

    def shape_of(self):
        pattern = self.win_pattern
        if isinstance(pattern, a.UniquePairs):
            return "pairs", pattern.need_units()
        return "normal", (pattern.need_count() - 2) // 3

    def tiles(kinds):
        return {a.tiles[k] for k in kinds}

    def both(self, hand, ignore_4counts=True):
        step, kinds = R.cached_useful(shape_of(self), a.counts(hand))
        return step, tiles(kinds)

    def batch(self, hand, ignore_4counts=True):
        shape, counts = shape_of(self), a.counts(hand)
        step, _ = R.cached_useful(shape, counts)
        for tile in list(hand):
            k = a.kind(tile)
            counts[k] -= 1
            after, kinds = R.cached_useful(shape, counts)
            counts[k] += 1
            if after == step:
                yield tile, step, tiles(kinds)

    new = {"waiting_and_useful_tiles": both, "batch_waiting_and_useful_tiles": batch,
           "useful_tiles": lambda self, hand, ignore_4counts=True: both(self, hand)[1],
           "before_waiting_step": lambda self, hand, ignore_4counts=True: both(self, hand)[0]}
    saved = {name: cls.__dict__[name] for name in new if name in cls.__dict__}
    try:
        for name, f in new.items():
            setattr(cls, name, f)
        yield
    finally:
        for name in new:
            if name in saved:
                setattr(cls, name, saved[name])
            else:
                delattr(cls, name)


def faces(tiles):
    return sorted(face(t) for t in tiles)


def coverage(got, want, titles=None):
    """got: sections of a report; want: [[Row]]."""
    if len(got) != len(want):
        raise Violation("%d rounds in the report, %d in the log" % (len(got), len(want)))
    for i, ((title, rows), expected) in enumerate(zip(got, want)):
        if titles is not None and title != titles[i]:
            raise Violation("round %d is headed %r, expected %r" % (i, title, titles[i]))
        if len(rows) != len(expected):
            raise Violation("round %d: %d rows for %d discards" % (i, len(rows), len(expected)))
        for j, (row, w) in enumerate(zip(rows, expected)):
            where = "round %d, row %d: " % (i, j)
            if row["number"] != str(j + 1):
                raise Violation(where + "numbered %s" % row["number"])
            if sorted(row["hand"]) != faces(w.hand):
                raise Violation(where + "shows hand %s, held is %s" % (sorted(row["hand"]), faces(w.hand)))
            melds = sorted(sorted(m) for m in row["melds"])
            if melds != sorted(faces(m) for m in w.melds):
                raise Violation(where + "shows melds %s, on the table are %s" % (melds, [faces(m) for m in w.melds]))
            if row["choice"] != [face(w.tile)]:
                raise Violation(where + "shows discard %s, discarded was %s" % (row["choice"], face(w.tile)))
            if row["color"] != ((0, 0, 255) if w.riichi else (255, 0, 0)):
                raise Violation(where + "coloured %s %s riichi" % (row["color"], "after" if w.riichi else "before"))


def names(kinds):
    return [H.NAME[k] for k in sorted(kinds)]


def judge(where, row, w):
    """One row of a report against the reference judgement."""
    j = R.Judgement(w)
    what = "%s%s, discard %s: " % (where, faces(w.hand), face(w.tile))
    if row["told"].get("Actual") != (j.choice[0], j.choice[2]):
        raise Violation(what + "the choice is said to leave (steps, tiles) %s, really %s" % (
            row["told"].get("Actual"), (j.choice[0], j.choice[2])))
    best = [R.kind_of(p) for p in row["expected"]]
    if sorted(best) != sorted(j.best):
        raise Violation(what + "expected choices %s, the best are %s" % (names(best), names(j.best)))
    if row["told"].get("Expected") != (j.top[0], -j.top[1]):
        raise Violation(what + "expected (steps, tiles) %s, really %s" % (row["told"].get("Expected"), (j.top[0], -j.top[1])))
    listing(what + "overall: ", row["overall"], j.overall, j.best)
    for shape, title in zip(range(2), ("Normal-Type Reasoning", "Seven-Pair Reasoning")):
        listed = row["shapes"].get(title, [])
        if shape < len(j.per_shape):
            report = j.per_shape[shape]
            least = min(e[0] for e in report.values())
            listing(what + title + ": ", listed, report, {k for k, e in report.items() if e[0] == least})
        elif listed:
            raise Violation(what + "%s lists %s for an open hand" % (title, listed))
    right = w.tile // 4 in j.best
    if not 0 <= row["shade"] <= 1 or (row["shade"] == 0) != right:
        raise Violation(what + "shaded %r, the choice is %s" % (row["shade"], "a best one" if right else "not a best one"))
    return j


def listing(what, listed, report, needed):
    seen = set()
    for k, step, kinds, count in listed:
        if k in seen:
            raise Violation(what + "discard %s is listed twice" % H.NAME[k])
        seen.add(k)
        if k not in report:
            raise Violation(what + "discard %s is not in the hand" % H.NAME[k])
        if (step, kinds, count) != report[k]:
            raise Violation(what + "discard %s is said to leave %s, really %s" % (
                H.NAME[k], (step, names(kinds), count), (report[k][0], names(report[k][1]), report[k][2])))
    if not needed <= seen:
        raise Violation(what + "%s are not listed" % names(needed - seen))
