"""Reference model of hands, units and wins over count vectors (34 kinds: m p s 1-9, z 1-7).

Nothing here uses the code under test.
"""
from functools import lru_cache
from itertools import combinations

KINDS = [(n, c) for c in "mps" for n in range(1, 10)] + [(n, "z") for n in range(1, 8)]
NAME = ["%d%s" % k for k in KINDS]
INDEX = {n: i for i, n in enumerate(NAME)}
GROUPS = [(0, 9), (9, 9), (18, 9), (27, 7)]


def group_of(kind):
    return min(kind // 9, 3)


def runs_from(kind):
    """Kinds of the run starting at kind, or None."""
    if kind < 27 and kind % 9 <= 6:
        return (kind, kind + 1, kind + 2)
    return None


MELDS = [(k, k, k) for k in range(34)] + [runs_from(k) for k in range(34) if runs_from(k)]
MELDS.sort()
PAIRS = [(k, k) for k in range(34)]


def need(shape):
    return shape[1] * 3 + shape[2] * 2 if shape[0] == "normal" else shape[1] * 2


def splits(hand, melds, pairs):
    """Every multiset of `melds` melds and `pairs` pairs contained in the hand, as sorted tuples of units."""
    found = set()
    hand = list(hand)
    meld_units = [u for u in MELDS if all(hand[k] for k in u)]
    pair_units = [u for u in PAIRS if hand[u[0]] >= 2]

    def take(unit):
        for k in unit:
            hand[k] -= 1
        if min(hand[k] for k in unit) < 0:
            give(unit)
            return False
        return True

    def give(unit):
        for k in unit:
            hand[k] += 1

    def choose(chosen, melds_left, start_m, pairs_left, start_p):
        if melds_left:
            for i in range(start_m, len(meld_units)):
                if take(meld_units[i]):
                    choose(chosen + [meld_units[i]], melds_left - 1, i, pairs_left, start_p)
                    give(meld_units[i])
        elif pairs_left:
            for i in range(start_p, len(pair_units)):
                if take(pair_units[i]):
                    choose(chosen + [pair_units[i]], 0, start_m, pairs_left - 1, i)
                    give(pair_units[i])
        else:
            found.add(tuple(sorted(chosen)))

    choose([], melds, 0, pairs, 0)
    return found


def unique_pair_splits(hand, n):
    kinds = [k for k in range(34) if hand[k] >= 2]
    return {tuple((k, k) for k in c) for c in combinations(kinds, n)}


def shape_splits(hand, shape):
    if shape[0] == "normal":
        return splits(hand, shape[1], shape[2])
    return unique_pair_splits(hand, shape[1])


# ---------------------------------------------------------------- enumeration of hands
@lru_cache(None)
def count_vectors(width, total, cap=4):
    """All vectors of `width` counts 0..cap with the given total."""
    if width == 0:
        return ((),) if total == 0 else ()
    if total < 0 or total > width * cap:
        return ()
    result = []
    for first in range(min(cap, total), -1, -1):
        for rest in count_vectors(width - 1, total - first, cap):
            result.append((first,) + rest)
    return tuple(result)


def spread(kinds, counts):
    """Full vector from counts over the listed kinds."""
    hand = [0] * 34
    for k, c in zip(kinds, counts):
        hand[k] = c
    return hand


def text(hand):
    out = []
    for start, size in GROUPS:
        part = "".join(str(KINDS[k][0]) * hand[k] for k in range(start, start + size))
        if part:
            out.append(part + KINDS[start][1])
    return "".join(out)


def parse(token):
    hand = [0] * 34
    digits = ""
    for ch in token:
        if ch.isdigit():
            digits += ch
        else:
            for d in digits:
                hand[INDEX["%s%s" % ("5" if d == "0" else d, ch)]] += 1
            digits = ""
    return hand
