"""C08: tile notation reads and writes the same tiles."""
from itertools import permutations, product
from ..core import Violation
from ..impl import api
from ..ref import hands as H

PROPERTY = "C08"
RULE = ("reading: every text over the alphabet up to the length bound is a run of the reference scanner automaton "
        "(states and transitions counted), compared with tiles_from_string; writing: every multiset of a kind "
        "alphabet in every order of insertion of its kinds is written, compared with the canonical text and read back")
BOUNDS = {
    "quick": "texts of up to 6 characters over an 11-letter alphabet, up to 7 over an 8-letter one and up to 5 over one "
             "with full-width, Arabic and superscript digits; "
             "sets of up to 5 tiles over 8 kinds, all insertion orders of up to 5 distinct kinds, two kinds with up to 9 copies each",
    "thorough": "texts of up to 7 and 8 characters; sets of up to 6 tiles over 9 kinds",
}
ASSUMPTIONS = ["sets that mix red and plain fives of one suit are only required to read back equal"]

WIDE = "0158 9mpszx"
NARROW = "01579mpz "
TRICKY = "57mz\uff15\u0665\u00b2\uff4dM\n"        # digits and letters of other alphabets are no tile notation


def scan(text):
    """Reference scanner: digits are collected; a letter closes the group."""
    out, digits = [], ""
    for ch in text:
        if ch in "0123456789":
            digits += ch
            continue
        if ch in "mps":
            out += [(int(d), ch) for d in digits]
        elif ch == "z":
            tail = ""
            for d in reversed(digits):
                if d not in "1234567":
                    break
                tail = d + tail
            out += [(int(d), "z") for d in tail]
        digits = ""
    return out


def shards(tier):
    out = []
    deep = tier == "thorough"
    for alphabet, longest in ((WIDE, 7 if deep else 6), (NARROW, 8 if deep else 7), (TRICKY, 6 if deep else 5)):
        for head in product(alphabet, repeat=2):
            out.append(("read", alphabet, "".join(head), longest - 2))
        out.append(("short", alphabet, "", 1))
    for total in range(0, 7 if deep else 6):
        out.append(("write", "full", "", total))
    out.append(("write", "reds", "", 4))
    out.append(("lists", "", "", 0))
    out.append(("many", "", "", 12 if deep else 9))
    return out


def weight(shard):
    return shard[3]


def read(ctx, text):
    from mahjong.container import utils
    got = [(t.number, t.color) for t in utils.tiles_from_string(text)]
    expected = scan(text)
    ctx.traces += 1
    if got != expected:
        raise Violation("read %r, reference %r" % (got, expected), text=text)
    for t in utils.tiles_from_string(text):
        red = isinstance(t, api().AkaTile)
        if red != (t.number == 0):
            raise Violation("%s read as red=%r" % (t, red), text=text)


def read_set(ctx, text):
    from mahjong.container import utils
    tiles = utils.tile_set_from_string(text)
    expected = [0] * 34
    for n, c in scan(text):
        expected[H.INDEX["%d%s" % (n or 5, c)]] += 1
    ctx.traces += 1
    if api().counts(tiles) != expected:
        raise Violation("set read from %r is %s" % (text, tiles))


def write(ctx, items):
    """items: list of (name, count) in insertion order."""
    a = api()
    from mahjong.container import utils
    tiles = []
    for name, n in items:
        tile = a.AkaTile(0, name[1]) if name[0] == "0" else a.Tile(int(name[0]), name[1])
        tiles += [tile] * n
    made = a.TileSet(tiles)
    text = str(made)
    ctx.traces += 1
    suits = {}
    for name, n in items:
        suits.setdefault(name[1], []).append((int(name[0]) or 5, name[0], n))
    kinds = [(c, v) for c in suits for v, _, _ in suits[c]]
    if len(kinds) == len(set(kinds)):
        expected = "".join("".join(d * n for _, d, n in sorted(suits[c])) + c for c in "mpsz" if c in suits)
        if text != expected:
            raise Violation("written %r, canonical %r" % (text, expected), items=items)
    back = utils.tile_set_from_string(text)
    if back != made or len(back) != len(made) or a.counts(back) != a.counts(made):
        raise Violation("%r reads back as %r" % (text, str(back)), items=items)


def run_shard(ctx, shard):
    kind, alphabet, head, n = shard
    if kind == "read":
        for tail in product(alphabet, repeat=n):
            text = head + "".join(tail)
            ctx.states += 1
            ctx.transitions += len(text)
            ctx.case({"text": text}, read, ctx, text)
            if n == 2:
                ctx.case({"text": text, "set": 1}, read_set, ctx, text)
        ctx.sample({"text": text, "tiles": scan(text)})
    elif kind == "short":
        for size in (0, 1, 2, 3, 4):
            for chars in product(alphabet, repeat=size):
                text = "".join(chars)
                ctx.states += 1
                ctx.transitions += size
                ctx.case({"text": text}, read, ctx, text)
                ctx.case({"text": text, "set": 1}, read_set, ctx, text)
    elif kind == "write":
        names = ["1m", "5m", "9m", "2p", "0p", "3s", "1z", "7z"] if alphabet == "full" else \
            ["0m", "5m", "0s", "5s", "6s", "4m"]
        for counts in H.count_vectors(len(names), n):
            items = [(x, c) for x, c in zip(names, counts) if c]
            orders = permutations(items) if len(items) <= 5 else (items, items[::-1])
            for order in orders:
                ctx.states += 1
                ctx.transitions += len(order)
                ctx.outcome("%d kinds" % len(order))
                ctx.case({"items": list(order)}, write, ctx, list(order))
        ctx.sample({"items": items})
    elif kind == "many":
        # more copies of a kind than a wall holds
        for counts in product(range(n + 1), repeat=2):
            for names in (("5p", "2s"), ("0m", "9p"), ("7z", "1m")):
                items = [(x, c) for x, c in zip(names, counts) if c]
                ctx.states += 1
                ctx.transitions += len(items)
                ctx.case({"items": items}, write, ctx, items)
        for c in (10, 40, 136):
            ctx.case({"items": [("3p", c)]}, write, ctx, [("3p", c)])
    else:
        # every kind written alone and next to every other kind
        names = ["%d%s" % k for k in H.KINDS] + ["0m", "0p", "0s"]
        for x, y in product(names, repeat=2):
            if x == y or {x[0], y[0]} == {"0", "5"} and x[1] == y[1]:
                continue
            ctx.states += 1
            ctx.transitions += 2
            ctx.case({"items": [(x, 1), (y, 2)]}, write, ctx, [(x, 1), (y, 2)])
            ctx.case({"text": x + y}, read, ctx, x + y)


def replay(ctx, case):
    if "items" in case:
        write(ctx, [tuple(i) for i in case["items"]])
    elif case.get("set"):
        read_set(ctx, case["text"])
    else:
        read(ctx, case["text"])
