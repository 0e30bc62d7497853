"""Bounded spaces of hands shared by C01-C05.

A domain is (name, kinds, totals, cap): every way to put `total` tiles on the listed kinds, at most `cap` each.
"""
from itertools import product

from .ref import hands as H

SUIT = {"m": tuple(range(0, 9)), "p": tuple(range(9, 18)), "s": tuple(range(18, 27))}
HONOUR = tuple(range(27, 34))
ALL = tuple(range(34))


def kinds(text):
    """'8m9m1p' -> kinds"""
    return tuple(H.INDEX[text[i:i + 2]] for i in range(0, len(text), 2))


BORDERS = {
    "m-p": kinds("7m8m9m1p2p3p"),
    "p-s": kinds("7p8p9p1s2s3s"),
    "s-z": kinds("7s8s9s1z2z3z"),
    "wrap": kinds("8m9m1m2m9s1s"),
    "same-number": kinds("3m3p3s4m4p4s"),
    "edges": kinds("1m9m1p9p1s9s"),
    "honours+": kinds("1z4z5z7z9s1m"),
    "fives": kinds("4m5m6m5p6p5s"),
    "gaps": kinds("1m3m5m7m9m5p"),
}
SPARSE = {
    "sparse1": kinds("1m4m7m1p4p7p1s4s7s1z"),
    "sparse2": kinds("2m3m6m7m9p9s1z5z7z5p"),
    "sparse3": kinds("1m2m9m1p9p1s8s9s6z7z"),
}


# whole hands put together from one block per suit and one of honours
RICH = ("", "1", "9", "11", "13", "23", "55", "99", "123", "789", "444", "1234", "2234", "5555", "12345", "22345", "55789", "33345",
        "111222", "223344", "345678", "3334555", "2345678", "23456777", "1112345678999")
RICH_Z = ("", "1", "77", "12", "111", "555", "1122", "1111", "66777", "123", "1234567")
FEW = ("", "9", "13", "55", "23", "444", "2234", "12345", "55789", "223344", "3334555", "1112345678999")
FEW_Z = ("", "1", "77", "111", "1122")
BLOCKS = {"rich": (RICH, RICH, RICH, RICH_Z), "few": (FEW, FEW, FEW, FEW_Z), "fewer": (FEW[::2], FEW[1::2], FEW[::3], FEW_Z)}
_assembled = {}


def assembled(name, total):
    """Every hand of `total` tiles made of one block per group, in the order of the product."""
    if (name, total) not in _assembled:
        groups = [[tuple(map(int, word)) for word in words] for words in BLOCKS[name]]
        out = []
        for parts in product(*groups):
            if sum(map(len, parts)) == total:
                hand = [0] * 34
                for g, part in enumerate(parts):
                    for digit in part:
                        hand[9 * g + digit - 1] += 1
                out.append(tuple(hand))
        _assembled[name, total] = out
    return _assembled[name, total]


def vectors(domain_kinds, total, cap):
    if domain_kinds[0] == "blocks":
        return assembled(domain_kinds[1], total)
    return H.count_vectors(len(domain_kinds), total, cap)


def chunks(n, size):
    return [(i, min(i + size, n)) for i in range(0, n, size)]


class Space:
    """A list of (label, kinds, total, cap, shape, options); sharded by slices of the vector list."""

    def __init__(self, chunk):
        self.chunk = chunk
        self.items = []

    def add(self, label, domain_kinds, total, shape, cap=4, **options):
        self.items.append((label, tuple(domain_kinds), total, cap, tuple(shape), tuple(sorted(options.items()))))

    def shards(self):
        out = []
        for item in self.items:
            n = len(vectors(item[1], item[2], item[3]))
            size = dict(item[5]).get("chunk", self.chunk)
            out.extend(item + (a, b) for a, b in chunks(n, size))
        return out


def each(shard):
    """Yields full count vectors of one shard."""
    _, domain_kinds, total, cap, _, _, a, b = shard
    for counts in vectors(domain_kinds, total, cap)[a:b]:
        yield list(counts) if domain_kinds[0] == "blocks" else H.spread(domain_kinds, counts)
