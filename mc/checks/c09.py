"""C09: tile sets behave as multisets."""
from itertools import product
from ..core import Violation
from ..impl import api
from ..ref import hands as H

PROPERTY = "C09"
RULE = ("every ordered pair of multisets over a small kind alphabet (with insertion orders and red-five variants) is a "
        "model state, each operator is a transition to the multiset it must yield; operands are compared before and "
        "after; order laws are checked on all pairs and triples of canonically ordered sets")
BOUNDS = {
    "quick": "pairs over 4 kinds with up to 4 tiles each side (three alphabets), 2 kinds with counts 0..4; triples over "
             "4 kinds with up to 3 tiles",
    "thorough": "pairs over 5 kinds with up to 5 tiles each side; triples over 5 kinds with up to 3 tiles",
}
ASSUMPTIONS = ["ordering is only required of sets in canonical order (as written or read, or after a sum)"]

ALPHABETS = {"mixed": ("1m", "5m", "6p", "7z"), "fives": ("4s", "5s", "6s", "5p"), "honours": ("1z", "2z", "9s", "5z")}
WIDE = ("1m", "2m", "5p", "9s", "7z")


def vectors(width, most):
    for total in range(most + 1):
        for v in H.count_vectors(width, total):
            yield v


def shards(tier):
    out = []
    if tier == "thorough":
        n = len(list(vectors(5, 5)))
        for i in range(0, n, 6):
            out.append(("pairs", "wide", i, i + 6, 5))
        m = len(list(vectors(5, 3)))
        out += [("triples", "wide", i, i + 2, 3) for i in range(0, m, 2)]
    for name in ALPHABETS:
        n = len(list(vectors(4, 4)))
        out += [("pairs", name, i, i + 5, 4) for i in range(0, n, 5)]
        m = len(list(vectors(4, 3)))
        out += [("triples", name, i, i + 3, 3) for i in range(0, m, 3)]
    out.append(("counts", "two", 0, 0, 8))
    return out


def kinds_of(name):
    if name == "wide":
        return WIDE
    if name == "two":
        return ("5m", "3p")
    return ALPHABETS[name]


def full(names, vector):
    return H.spread([H.INDEX[n] for n in names], vector)


VARIANTS = ((("up", 0), ("up", 0)), (("down", 0), ("dealt", 2)), (("up", 1), ("down", 0)))


def pair(ctx, x, y, variant):
    a = api()
    (ox, rx), (oy, ry) = variant
    left, right = a.hand(x, ox, rx), a.hand(y, oy, ry)
    fx, fy = (list(x), list(y))

    def same(result, expected, name):
        ctx.transitions += 1
        if not isinstance(result, a.TileSet):
            raise Violation("%s is a %s, not a tile set" % (name, type(result).__name__))
        if a.counts(result) != expected:
            raise Violation("%s of %s and %s is %s" % (name, H.text(fx), H.text(fy), H.text(a.counts(result))))
        if sorted(a.kind(t) for t in result) != [k for k in range(34) if expected[k]]:
            raise Violation("%s of %s and %s runs over %s" % (name, H.text(fx), H.text(fy), list(result)))
        if result != a.hand(expected) or len(result) != sum(expected):
            raise Violation("%s of %s and %s is not equal to %s" % (name, H.text(fx), H.text(fy), H.text(expected)))
        if not rx and not ry and str(result) != H.text(expected):
            raise Violation("%s of %s and %s is written %s" % (name, H.text(fx), H.text(fy), result))

    total = left + right
    same(total, [p + q for p, q in zip(x, y)], "sum")
    order = [a.kind(t) for t in total]
    if order != sorted(order):
        raise Violation("sum is not in canonical order: %r" % (order,))
    same(left - right, [max(0, p - q) for p, q in zip(x, y)], "difference")
    same(left & right, [min(p, q) for p, q in zip(x, y)], "intersection")
    same(left | right, [max(p, q) for p, q in zip(x, y)], "union")
    inside = all(q <= p for p, q in zip(x, y))
    if left.contains(right) is not inside:
        raise Violation("contains says %r" % left.contains(right))
    rest = left.exclude(right)
    if inside:
        same(rest, [p - q for p, q in zip(x, y)], "exclusion")
    elif rest is not None:
        raise Violation("exclusion of tiles not contained is %r" % (rest,))
    for made, v in ((left, x), (right, y)):
        if len(made) != sum(v):
            raise Violation("length %d of %s" % (len(made), H.text(v)))
        listed = [0] * 34
        for t in made.tiles():
            listed[a.kind(t)] += 1
        if listed != list(v):
            raise Violation("tiles() lists %s for %s" % (H.text(listed), H.text(v)))
        for k in range(34):
            if made[a.tiles[k]] != v[k]:
                raise Violation("count of %s in %s is %r" % (H.NAME[k], H.text(v), made[a.tiles[k]]))
    if (left == right) is not (list(x) == list(y)):
        raise Violation("== says %r for %s and %s" % (left == right, H.text(x), H.text(y)))
    if a.counts(left) != fx or a.counts(right) != fy:
        raise Violation("an operand changed", left=H.text(a.counts(left)), right=H.text(a.counts(right)))
    ctx.traces += 1


def order_pair(ctx, x, y):
    a = api()
    left, right = a.hand(x), a.hand(y)
    less, equal, greater = left < right, left == right, left > right
    ctx.traces += 1
    if [bool(less), bool(equal), bool(greater)].count(True) != 1:
        raise Violation("less %r equal %r greater %r" % (less, equal, greater), left=H.text(x), right=H.text(y))
    if less and not right > left or greater and not right < left:
        raise Violation("order is not antisymmetric", left=H.text(x), right=H.text(y))
    return less


def order_triple(ctx, x, y, z):
    a = api()
    p, q, r = a.hand(x), a.hand(y), a.hand(z)
    ctx.traces += 1
    if p < q and q < r and not p < r:
        raise Violation("order is not transitive", sets=[H.text(v) for v in (x, y, z)])


def run_shard(ctx, shard):
    kind, name, start, stop, most = shard
    names = kinds_of(name)
    if kind == "counts":
        two = [full(names, v) for v in product(range(5), repeat=2)]
        for x, y in product(two, repeat=2):
            for variant in VARIANTS:
                ctx.states += 1
                ctx.case({"x": H.text(x), "y": H.text(y), "v": variant}, pair, ctx, x, y, variant)
            ctx.case({"x": H.text(x), "y": H.text(y), "order": 2}, order_pair, ctx, x, y)
        ctx.sample({"x": H.text(x), "y": H.text(y)})
        return
    every = [full(names, v) for v in vectors(len(names), most)]
    for x in every[start:stop]:
        for y in every:
            if kind == "pairs":
                for variant in VARIANTS:
                    ctx.states += 1
                    ctx.case({"x": H.text(x), "y": H.text(y), "v": variant}, pair, ctx, x, y, variant)
            else:
                ctx.states += 1
                ctx.case({"x": H.text(x), "y": H.text(y), "order": 2}, order_pair, ctx, x, y)
                for z in every:
                    ctx.transitions += 1
                    ctx.case({"x": H.text(x), "y": H.text(y), "z": H.text(z)}, order_triple, ctx, x, y, z)
        ctx.outcome("%d tiles" % sum(x))
    ctx.sample({"kinds": names, "x": H.text(x), "y": H.text(y)})


def replay(ctx, case):
    x, y = H.parse(case["x"]), H.parse(case["y"])
    if "z" in case:
        order_triple(ctx, x, y, H.parse(case["z"]))
    elif "order" in case:
        order_pair(ctx, x, y)
    else:
        pair(ctx, x, y, tuple(tuple(v) for v in case["v"]))
