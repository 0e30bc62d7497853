"""Reference distances from hands to wins.

For each group of kinds (a suit: nine kinds with runs, the honours: seven kinds without) a table gives, for every
count vector 0..4, the least number of tiles to add so that the group contains m melds and p pairs.  Groups are
combined by minimising over how the melds and pairs are shared out.  The tables are built by dynamic programming
from the list of all winning multisets; the code under test is not used.
"""
INF = 99
MAX_M, MAX_P = 4, 2


def unit_vectors(size, runs):
    melds = []
    for k in range(size):
        v = [0] * size
        v[k] = 3
        melds.append(tuple(v))
        if runs and k + 2 < size:
            v = [0] * size
            v[k] = v[k + 1] = v[k + 2] = 1
            melds.append(tuple(v))
    pairs = []
    for k in range(size):
        v = [0] * size
        v[k] = 2
        pairs.append(tuple(v))
    return melds, pairs


def wins(size, runs, m, p, cap):
    """All distinct vectors that are a sum of m melds and p pairs, with entries <= cap."""
    melds, pairs = unit_vectors(size, runs)
    level = {(0,) * size}
    for units, times in ((melds, m), (pairs, p)):
        for _ in range(times):
            level = {tuple(a + b for a, b in zip(v, u)) for v in level for u in units}
            level = {v for v in level if max(v) <= cap}
    return level


class GroupTable:
    """tables[(m, p)][index(v)] for v in 0..4 ** size, under the four-copies rule."""

    def __init__(self, size, runs, shapes, rule=True):
        import numpy
        self.size = size
        self.weights = [5 ** (size - 1 - i) for i in range(size)]
        self.tables = {}
        self.runs, self.rule, self.lists = runs, rule, {}
        for m, p in shapes:
            table = numpy.full((5,) * size, INF, dtype=numpy.int8)
            for w in wins(size, runs, m, p, 4 if rule else 99):
                spot = tuple(min(x, 4) for x in w)
                over = sum(max(0, x - 4) for x in w)
                table[spot] = min(table[spot], over)
            for axis in range(size):
                view = numpy.moveaxis(table, axis, 0)
                for i in range(1, 5):                       # extra tiles cost nothing
                    numpy.minimum(view[i], view[i - 1], out=view[i])
                for i in range(3, -1, -1):                  # a missing tile costs one
                    numpy.minimum(view[i], view[i + 1] + 1, out=view[i])
            self.tables[(m, p)] = table.tobytes()

    def row(self, counts, shapes):
        """Least additions for each shape; counts above four (rule off only) are worked out directly."""
        if max(counts) <= 4:
            spot = self.index(counts)
            return [self.tables[c][spot] for c in shapes]
        out = []
        for c in shapes:
            if c not in self.lists:
                self.lists[c] = list(wins(self.size, self.runs, c[0], c[1], 99))
            best = INF
            for w in self.lists[c]:
                cost = 0
                for have, want in zip(counts, w):
                    if want > have:
                        cost += want - have
                if cost < best:
                    best = cost
            out.append(best)
        return out

    def index(self, counts):
        return sum(c * w for c, w in zip(counts, self.weights))


class Distance:
    """Distance oracle for the shapes (m melds, p pairs) with m <= max_m and p <= max_p."""

    def __init__(self, max_m=MAX_M, max_p=1, rule=True):
        self.max_m, self.max_p, self.most = max_m, max_p, 4 if rule else 5
        self.cells = [(m, p) for m in range(max_m + 1) for p in range(max_p + 1)]
        suit = GroupTable(9, True, self.cells, rule)
        honour = GroupTable(7, False, self.cells, rule)
        self.groups = [(suit, 0, 9), (suit, 9, 9), (suit, 18, 9), (honour, 27, 7)]

    def group_rows(self, hand):
        rows = []
        for table, start, size in self.groups:
            rows.append(table.row(hand[start:start + size], self.cells))
        return rows

    def combine(self, rows, m, p):
        width = self.max_p + 1
        acc = rows[0]
        for row in rows[1:]:
            nxt = [INF] * len(acc)
            for m1 in range(m + 1):
                for p1 in range(p + 1):
                    base = acc[m1 * width + p1]
                    if base >= INF:
                        continue
                    for m2 in range(m - m1 + 1):
                        for p2 in range(p - p1 + 1):
                            cost = base + row[m2 * width + p2]
                            at = (m1 + m2) * width + p1 + p2
                            if cost < nxt[at]:
                                nxt[at] = cost
            acc = nxt
        return acc[m * width + p]

    def missing(self, hand, m, p):
        return self.combine(self.group_rows(hand), m, p)

    def useful(self, hand, m, p):
        """(missing, kinds whose draw lowers it)"""
        rows = self.group_rows(hand)
        base = self.combine(rows, m, p)
        better = []
        if base:
            hand = list(hand)
            for g, (table, start, size) in enumerate(self.groups):
                for k in range(start, start + size):
                    if hand[k] >= self.most:
                        continue
                    hand[k] += 1
                    changed = rows[:g] + [table.row(hand[start:start + size], self.cells)] + rows[g + 1:]
                    if self.combine(changed, m, p) < base:
                        better.append(k)
                    hand[k] -= 1
        return base, better


def pairs_missing(hand, n):
    costs = sorted(max(0, 2 - c) for c in hand)
    return sum(costs[:n])


def pairs_useful(hand, n):
    base = pairs_missing(hand, n)
    better = []
    if base:
        for k in range(34):
            if hand[k] < 4:
                more = list(hand)
                more[k] += 1
                if pairs_missing(more, n) < base:
                    better.append(k)
    return base, better
