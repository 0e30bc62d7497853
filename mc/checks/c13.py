"""C13: category numbering is a bijection for every shape."""
import math
from itertools import product
from ..core import Violation

PROPERTY = "C13"
RULE = ("every category shape up to the bound is enumerated; the model lists its categories in order (states), one "
        "transition per successor; category(), index() and len() of the implementation are compared at every position, "
        "and positions past the end must be rejected")
BOUNDS = {"quick": "radices 1..4 (first also unbounded), up to 3 radices; concatenations of up to 3 of 8 parts, "
                   "concatenations nested to depth 2 (up to 2 parts at the top); named variants one level deep",
          "thorough": "up to 4 radices, concatenations of up to 4 parts, nesting to depth 3"}
ASSUMPTIONS = ["a shape without an end has no length; it is walked for the first 40 positions, and "
               "around every power of two and three up to the hundredth",
               "declared names are checked for plain categories and for concatenations of plain categories"]

WALK = 40
PARTS = [("sub", (1,)), ("sub", (2,)), ("sub", (3, 2)), ("sub", (2, 1, 2)), ("sub", (4,)), ("sub", (2, 3))]
OPEN_PARTS = [("sub", (-1,)), ("sub", (-1, 2))]


def size(shape):
    if shape[0] == "sub":
        n = 1
        for r in shape[1]:
            if r == -1:
                return math.inf
            n *= r
        return n
    return sum(size(s) for s in shape[1])


def listing(shape, limit):
    """Categories in lexicographic order, as plain tuples."""
    if limit <= 0:
        return
    if shape[0] == "sub":
        heads = range(limit) if shape[1][0] == -1 else range(shape[1][0])
        produced = 0
        for head in heads:
            for rest in product(*[range(r) for r in shape[1][1:]]):
                yield (head,) + rest
                produced += 1
                if produced >= limit:
                    return
    else:
        produced = 0
        for i, part in enumerate(shape[1]):
            for c in listing(part, limit - produced):
                yield (i,) + c
                produced += 1
                if produced >= limit:
                    return


def shards(tier):
    deep = tier == "thorough"
    shapes = []
    for n in range(1, 5 if deep else 4):
        for rest in product((1, 2, 3, 4), repeat=n - 1):
            for head in (-1, 1, 2, 3, 4):
                shapes.append(("sub", (head,) + rest))
    flat = []
    for n in range(1, 5 if deep else 4):
        for parts in product(PARTS, repeat=n - 1):
            for last in PARTS + OPEN_PARTS:
                flat.append(("mix", parts + (last,)))
    shapes += flat
    some = [s for s in flat if len(s[1]) <= 2][::3]
    nested = []
    for first in PARTS + [s for s in some if size(s) < math.inf]:
        nested.append(("mix", (first,)))
        for last in PARTS[:3] + OPEN_PARTS[1:] + some[:12]:
            nested.append(("mix", (first, last)))
    shapes += nested
    if deep:
        for first in nested[::4]:
            if size(first) < math.inf:
                for last in nested[::9]:
                    shapes.append(("mix", (first, last)))
    for radices in ((-1, 2), (-1, 3, 4), (-1, 10, 7, 9), (-1, 34), (2 ** 70, 3), (10 ** 9, 10 ** 12, 7), (3, 2 ** 64), (-1,)):
        shapes.append(("sub", radices))
        shapes.append(("mix", (("sub", (2, 3)), ("sub", radices))))
    return [tuple(shapes[i:i + 12]) for i in range(0, len(shapes), 12)]


def place(shape, position):
    """The category at a position, by division."""
    if shape[0] == "mix":
        for i, part in enumerate(shape[1]):
            if position < size(part):
                return (i,) + place(part, position)
            position -= size(part)
    out = []
    for r in reversed(shape[1]):
        if r != -1:
            position, x = divmod(position, r)
            out.append(x)
        else:
            out.append(position)
    return tuple(reversed(out))


def build(shape, named=False, serial=None):
    from mahjong.record.category import SubCategory, MixedCategory
    if shape[0] == "sub":
        if named:
            return SubCategory(*shape[1], caption="part", names=["f%d" % i for i in range(len(shape[1]))])
        return SubCategory(*shape[1])
    if named:
        return MixedCategory([build(s, True) for s in shape[1]], caption="mix", field_name="which")
    return MixedCategory([build(s) for s in shape[1]])


def check(ctx, shape, named):
    cat = build(shape, named)
    total = size(shape)
    expected = [place(shape, i) for i in range(WALK)] if total > 10 ** 6 else list(listing(shape, total))
    if total == math.inf:
        if cat.__len__() != math.inf:
            raise Violation("an unbounded category has length %r" % (cat.__len__(),), shape=shape)
    elif total > 10 ** 6:
        if cat.__len__() != total:
            raise Violation("length %r, counted %r" % (cat.__len__(), total), shape=shape)
    elif len(cat) != total or len(expected) != total:
        raise Violation("length %r, counted %r" % (len(cat), total), shape=shape)
    for position, want in enumerate(expected):
        got = cat.category(position)
        ctx.traces += 1
        if tuple(got) != want:
            raise Violation("category(%d) is %r, reference %r" % (position, got, want), shape=shape)
        if cat.index(want) != position or cat.index(got) != position:
            raise Violation("index(%r) is %r, reference %r" % (want, cat.index(want), position), shape=shape)
        if named:
            if shape[0] == "sub":
                names = ["f%d" % i for i in range(len(shape[1]))]
            else:
                names = ["which"] + ["f%d" % i for i in range(len(shape[1][want[0]][1]))]
            if [getattr(got, n) for n in names] != list(want):
                raise Violation("named category(%d) is %r" % (position, got), shape=shape)
    far = [p for k in range(6, 100) for p in (2 ** k - 1, 2 ** k, 2 ** k + 1, 3 ** k + 2) if WALK <= p < total]
    for position in far if total > 10 ** 6 else ():
        want = place(shape, position)
        got = cat.category(position)
        if tuple(got) != want or [type(x) for x in got] != [int] * len(want):
            raise Violation("category(%d) is %r, reference %r" % (position, got, want), shape=shape)
        if cat.index(want) != position:
            raise Violation("index(%r) is %r, reference %r" % (want, cat.index(want), position), shape=shape)
    if total != math.inf:
        for position in range(total, total + 3):
            try:
                got = cat.category(position)
            except Exception:
                continue
            raise Violation("position %d of %d was accepted as %r" % (position, total, got), shape=shape)


def run_shard(ctx, shard):
    for shape in shard:
        total = size(shape)
        n = WALK if total > 10 ** 6 else total
        ctx.states += n
        ctx.transitions += max(0, n - 1)
        ctx.outcome("%s size %s" % (shape[0], total))
        ctx.case({"shape": shape, "named": 0}, check, ctx, shape, False)
        if shape[0] == "sub" or all(s[0] == "sub" for s in shape[1]):
            ctx.case({"shape": shape, "named": 1}, check, ctx, shape, True)
    ctx.sample({"shape": shape, "size": str(total)})


def freeze(x):
    return tuple(freeze(i) for i in x) if isinstance(x, list) else x


def replay(ctx, case):
    check(ctx, freeze(case["shape"]), bool(case["named"]))
