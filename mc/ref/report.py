"""Reference for the efficiency report: what every row has to say, and a reader for the report itself."""
from html.parser import HTMLParser

from . import dist, hands as H
from .table import face

POOL = {4: frozenset(range(136)), 3: frozenset(t for t in range(136) if not 1 <= t // 4 <= 7)}
_dist = None


def distance():
    global _dist
    if _dist is None:
        _dist = dist.Distance(4, 1)
    return _dist


class Row:
    """One discard: hand before it, melds as lists of tile numbers, tile numbers visible on the table."""
    __slots__ = ("hand", "melds", "visible", "tile", "riichi", "n", "kitas")

    def __init__(self, hand, melds, visible, tile, riichi, n, kitas=0):
        self.hand, self.melds, self.visible, self.tile = frozenset(hand), melds, frozenset(visible), tile
        self.riichi, self.n, self.kitas = riichi, n, kitas


def rows_of(sc, path, who):
    """[[Row]] per round of a history of the reference table."""
    sections, before, riichi = [], None, False
    for m in path:
        ev = m.info["ev"]
        if ev == "init":
            sections.append([])
            riichi = False
        elif ev == "reach1":
            riichi = True
        elif ev == "discard" and m.info["who"] == who:
            melds = [sorted(meld.own | meld.taken) for meld in before.melds[who]]
            kitas = sum(1 for meld in before.melds[who] if meld.kind == "kita")
            sections[-1].append(Row(before.hands[who], melds, before.visible, m.info["tile"], riichi, sc.n, kitas))
        before = m.state
    return sections


def shapes_of(row):
    fixed = len(row.melds) - row.kitas
    return [("normal", 4 - fixed)] + ([("pairs", 7)] if not fixed else [])


def useful(shape, counts):
    """(step, useful kinds) of the hand."""
    if shape[0] == "pairs":
        missing, better = dist.pairs_useful(counts, shape[1])
    else:
        missing, better = distance().useful(counts, shape[1], 1)
    return missing - 1, frozenset(better)


_memo = {}


def cached_useful(shape, counts):
    key = shape, tuple(counts)
    if key not in _memo:
        if len(_memo) > 400000:
            _memo.clear()
        _memo[key] = useful(shape, counts)
    return _memo[key]


class Judgement:
    """kinds -> (step, useful kinds, count): overall and per shape; best kinds; the choice."""

    def __init__(self, row):
        unseen = [0] * 34
        for t in POOL[row.n] - row.visible - row.hand:
            unseen[t // 4] += 1
        self.unseen = unseen
        counts = [0] * 34
        for t in row.hand:
            counts[t // 4] += 1
        self.per_shape, self.overall = [], {}
        for shape in shapes_of(row):
            report = {}
            for k in range(34):
                if counts[k]:
                    counts[k] -= 1
                    step, kinds = cached_useful(shape, counts)
                    counts[k] += 1
                    report[k] = self.entry(step, kinds)
            self.per_shape.append(report)
        for k in self.per_shape[0]:
            entries = [r[k] for r in self.per_shape]
            step = min(e[0] for e in entries)
            self.overall[k] = self.entry(step, frozenset().union(*[e[1] for e in entries if e[0] == step]))
        self.top = min((e[0], -e[2]) for e in self.overall.values())
        self.best = {k for k, e in self.overall.items() if (e[0], -e[2]) == self.top}
        self.choice = self.overall[row.tile // 4]

    def entry(self, step, kinds):
        return step, kinds, sum(self.unseen[k] for k in kinds)


# ------------------------------------------------------------------------------------------------ reading a report
class Node:
    __slots__ = ("tag", "attrs", "children")

    def __init__(self, tag, attrs):
        self.tag, self.attrs, self.children = tag, attrs, []

    def find(self, tag, deep=True):
        for c in self.children:
            if isinstance(c, Node):
                if c.tag == tag:
                    yield c
                if deep:
                    yield from c.find(tag)

    def text(self):
        return "".join(c if isinstance(c, str) else c.text() for c in self.children)

    def words(self):
        return self.text().split()

    def first(self, tag):
        return next(self.find(tag))


VOID = {"meta", "hr", "br", "img", "link", "input"}


class Reader(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = Node("root", {})
        self.stack = [self.root]
        self.tags = []

    def handle_starttag(self, tag, attrs):
        node = Node(tag, dict(attrs))
        self.stack[-1].children.append(node)
        self.tags.append(tag)
        if tag not in VOID:
            self.stack.append(node)

    def handle_endtag(self, tag):
        for i in range(len(self.stack) - 1, 0, -1):
            if self.stack[i].tag == tag:
                del self.stack[i:]
                return

    def handle_data(self, data):
        self.stack[-1].children.append(data)


def read(html):
    """Tree of the body."""
    start = html.find("<style")
    end = html.find("</style>")
    reader = Reader()
    reader.feed(html[:start] + html[end + 8:] if 0 <= start < end else html)
    reader.close()
    return reader.root


def pictures(node):
    """Faces of the tile pictures below a node, in order."""
    out = []
    for c in node.children:
        if isinstance(c, Node):
            if c.tag == "div":
                for name in (c.attrs.get("class") or "").split():
                    if name.startswith("pic"):
                        out.append(name[3:])
            out += pictures(c)
    return out


def kind_of(name):
    return H.INDEX[("5" if name[0] == "0" else name[0]) + name[1:]]


def groups(node):
    """Pictures of a cell as groups ended by a non-breaking space."""
    out, now = [], []
    for c in node.children:
        if isinstance(c, Node):
            for name in (c.attrs.get("class") or "").split():
                if name.startswith("pic"):
                    now.append(name[3:])
        elif "\xa0" in c:
            out.append(now)
            now = []
    return out, now


def alternatives(nodes):
    """[(kind, step, frozenset of kinds, count)] of reasoning entries among these nodes (not deeper sections)."""
    out = []
    for c in nodes:
        if isinstance(c, Node) and c.tag == "div" and "reasoning-tile" in (c.attrs.get("class") or ""):
            parts = [d for d in c.children if isinstance(d, Node) and d.tag == "div"]
            discard = pictures(parts[0])
            step, count = numbers(parts[0])
            assert len(discard) == 1, discard
            expect = [kind_of(p) for p in pictures(parts[1])]
            assert len(set(expect)) == len(expect), expect
            out.append((kind_of(discard[0]), step, frozenset(expect), count))
    return out


def numbers(node):
    words = node.words()
    return int(words[words.index("Steps") + 1]), int(words[words.index("Tiles") + 1])


def sections(root):
    """[(title, [row dict])] of a report."""
    out = []
    for details in root.find("details"):
        titles = [s for s in details.find("span") if s.attrs.get("class") == "game-caption"]
        if not titles:
            continue
        table = details.first("table")
        rows = []
        for tr in [t for t in table.children if isinstance(t, Node) and t.tag == "tr"]:
            cells = [c for c in tr.children if isinstance(c, Node) and c.tag == "td"]
            if not cells:
                continue
            color = tr.attrs["style"].split("rgba(")[1].split(")")[0].split(",")
            melds, hand = groups(cells[1])
            outer = next(c for c in cells[4].children if isinstance(c, Node) and c.tag == "details")
            told = {}
            for line in outer.first("summary").find("tr"):
                tds = [c for c in line.children if isinstance(c, Node) and c.tag == "td"]
                told[tds[0].text().strip()] = numbers(tds[1])
            inner = [c for c in outer.children if isinstance(c, Node) and c.tag == "details"]
            rows.append({
                "number": cells[0].text().strip(), "hand": hand, "melds": melds, "choice": pictures(cells[2]),
                "expected": pictures(cells[3]), "told": told, "overall": alternatives(outer.children),
                "shapes": {d.first("summary").text().strip(): alternatives(d.children) for d in inner},
                "color": tuple(int(x) for x in color[:3]), "shade": float(color[3])})
        out.append((titles[0].text(), rows))
    return out
