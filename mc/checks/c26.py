"""C26: scoped building options nest and unwind exactly."""
import itertools

from ..core import Violation

PROPERTY = "C26"
RULE = ("every sequence of opening, leaving (normally or by an exception), building and failing to build on one and on two builders "
        "is replayed against stacks of plain dictionaries; every small program of nested scopes with items is run as a "
        "generator that is exhausted, closed, interrupted or dropped at every item, and two of them are interleaved in every way")
BOUNDS = {"quick": "sequences of 6 operations on one builder (10 letters), 4 on two builders (20 letters); programs of up to 4 nodes, "
                   "interleavings of two programs of up to 3 nodes",
          "thorough": "sequences of 8 and 5; programs of up to 5 nodes"}
ASSUMPTIONS = ["scopes of one builder are left in the order opposite to opening (with statements)"]

OPTIONS = [{"a": 1}, {"b": 2}, {"a": 3, "b": None}, {}]
CALLS = [{}, {"a": 7}, {"c": 0, "b": 8}]
LETTERS = [("open", o) for o in range(len(OPTIONS))] + [("leave", 0), ("leave", 1)] \
    + [("build", c) for c in range(len(CALLS))] + [("fail", 1)]


def shards(tier):
    quick = tier == "quick"
    out = [("words", 1, 6 if quick else 8, pair) for pair in itertools.product(range(len(LETTERS)), repeat=2)]
    out += [("words", 2, 4 if quick else 5, (i,)) for i in range(2 * len(LETTERS))]
    out += [("programs", 4 if quick else 5, i, 16) for i in range(16)]
    out += [("two", 3, i, 16) for i in range(16)]
    return out


class Boom(Exception):
    pass


def ctor(**kw):
    if kw.pop("boom", False):
        raise Boom()
    return kw


def merged(stack, call):
    out = {}
    for d in stack:
        out.update(d)
    out.update(call)
    return out


def builder():
    from mahjong.record.utils.builder import Builder
    return Builder(ctor)


def build(b, stack, call, where):
    item = b(**call)
    want = merged(stack, call)
    if item != want:
        raise Violation("%s: built from %r, expected %r" % (where, item, want))
    item["a"] = "changed"
    item["z"] = "new"


def sequence(ctx, builders, word):
    """Runs one sequence; returns when an operation has no meaning."""
    made = [builder() for _ in range(builders)]
    stacks = [[] for _ in range(builders)]
    managers = [[] for _ in range(builders)]
    ctx.traces += 1
    for position, (which, op, arg) in enumerate(word):
        b, stack, open_ = made[which], stacks[which], managers[which]
        ctx.transitions += 1
        if op == "open":
            m = b.when(**OPTIONS[arg])
            build(b, stack, {}, "before entering, step %d" % position)
            m.__enter__()
            open_.append(m)
            stack.append(OPTIONS[arg])
        elif op == "leave":
            m = open_.pop()
            stack.pop()
            swallowed = m.__exit__(Boom, Boom("x"), None) if arg else m.__exit__(None, None, None)
            if arg and swallowed:
                raise Violation("step %d: leaving a scope swallows the exception" % position)
        elif op == "build":
            build(b, stack, CALLS[arg], "step %d" % position)
        else:
            try:
                b(boom=True, **CALLS[arg])
            except Boom:
                pass
            else:
                raise Violation("step %d: the constructor's exception is lost" % position)
        for i, (bb, ss) in enumerate(zip(made, stacks)):
            build(bb, ss, {}, "builder %d after step %d" % (i, position))


def meaningful(word, builders):
    depth = [0] * builders
    for which, op, _ in word:
        if op == "open":
            depth[which] += 1
        elif op == "leave":
            depth[which] -= 1
            if depth[which] < 0:
                return False
    return True


def words(ctx, builders, length, prefix):
    alphabet = [(w, op, arg) for w in range(builders) for op, arg in LETTERS]
    for rest in itertools.product(range(len(alphabet)), repeat=length - len(prefix)):
        word = [alphabet[i] for i in prefix + rest]
        if meaningful(word, builders):
            ctx.states += 1
            ctx.sample(word)
            ctx.case({"kind": "word", "builders": builders, "word": word}, sequence, ctx, builders, word)


# ------------------------------------------------------------------------------------------------ programs
def forests(n):
    """Ordered forests of n nodes: a node is an item (no children) or a scope."""
    if n == 0:
        yield ()
        return
    for size in range(1, n + 1):
        for inner in forests(size - 1):
            for rest in forests(n - size):
                yield (("scope", inner),) + rest
                if size == 1:
                    yield (("item", ()),) + rest


def dressed(forest, counter=None):
    """Options assigned round robin, so that neighbours override each other."""
    counter = counter if counter is not None else [0]
    out = []
    for kind, inner in forest:
        i = counter[0]
        counter[0] += 1
        if kind == "item":
            out.append(("item", CALLS[i % len(CALLS)], ()))
        else:
            out.append(("scope", OPTIONS[i % len(OPTIONS)], dressed(inner, counter)))
    return tuple(out)


def run(b, program):
    for kind, options, inner in program:
        if kind == "item":
            yield b(**options)
        else:
            with b.when(**options):
                yield from run(b, inner)


def model(program, stack):
    """[(item, open scopes)] in order."""
    for kind, options, inner in program:
        if kind == "item":
            yield merged(stack, options), list(stack)
        else:
            yield from model(inner, stack + [options])


def interrupted(ctx, program, outer, at, how):
    """The generator of a program, given up at item `at`; the builder has `outer` scopes open around it."""
    b = builder()
    ctx.traces += 1
    expected = list(model(program, list(outer)))
    managers = [b.when(**o) for o in outer]
    for m in managers:
        m.__enter__()
    it = run(b, program)
    for i, (want, scopes) in enumerate(expected):
        ctx.transitions += 1
        got = next(it)
        if got != want:
            raise Violation("item %d is %r, expected %r" % (i, got, want))
        build(b, scopes, {}, "while item %d is being handled" % i)
        if i == at:
            if how == "close":
                it.close()
            elif how == "throw":
                try:
                    it.throw(Boom())
                except Boom:
                    pass
                else:
                    raise Violation("the exception is lost")
            elif how == "nested":
                with b.when(a=9):
                    build(b, scopes + [{"a": 9}], {}, "in a scope opened by the consumer")
                continue
            break
    else:
        for extra in it:
            raise Violation("an additional item %r" % (extra,))
    build(b, list(outer), {}, "after the generator")
    for m in reversed(managers):
        m.__exit__(None, None, None)
    build(b, [], {}, "at the end")


def programs(ctx, most, part, parts):
    n = 0
    for size in range(1, most + 1):
        for forest in forests(size):
            for shift in range(4):
                n += 1
                if n % parts != part:
                    continue
                program = dressed(forest, [shift])
                items = len(list(model(program, [])))
                for outer in ((), (OPTIONS[2],), (OPTIONS[0], OPTIONS[1])):
                    for at in range(-1, items):
                        for how in ("close", "throw", "nested") if at >= 0 else ("all",):
                            ctx.states += 1
                            ctx.case({"kind": "program", "forest": forest, "shift": shift, "outer": outer, "at": at, "how": how},
                                     interrupted, ctx, program, outer, at, how)


def interleaved(ctx, one, two, order):
    b = [builder(), builder()]
    its = [run(b[0], one), run(b[1], two)]
    wants = [list(model(one, [])), list(model(two, []))]
    at = [0, 0]
    scopes = [[], []]
    ctx.traces += 1
    for which in order:
        ctx.transitions += 1
        if at[which] < len(wants[which]):
            got = next(its[which])
            want, scopes[which] = wants[which][at[which]]
            if got != want:
                raise Violation("item %d of builder %d is %r, expected %r" % (at[which], which, got, want))
        else:
            for extra in its[which]:
                raise Violation("an additional item %r" % (extra,))
            scopes[which] = []
        at[which] += 1
        for i in (0, 1):
            build(b[i], scopes[i], {}, "builder %d while the other builds" % i)


def two(ctx, most, part, parts):
    all_programs = [dressed(f, [shift]) for size in range(1, most + 1) for f in forests(size) for shift in (0, 2)]
    for i, (one, other) in enumerate(itertools.product(all_programs, repeat=2)):
        if i % parts != part:
            continue
        n, m = (len(list(model(p, []))) + 1 for p in (one, other))
        for spots in itertools.combinations(range(n + m), n):
            order = [0 if k in spots else 1 for k in range(n + m)]
            ctx.states += 1
            ctx.case({"kind": "two", "programs": [one, other], "order": order}, interleaved, ctx, one, other, order)


def run_shard(ctx, shard):
    kind, a, b, c = shard
    {"words": words, "programs": programs, "two": two}[kind](ctx, a, b, c)


def tuples(x):
    return tuple(tuples(y) for y in x) if isinstance(x, list) else x


def replay(ctx, case):
    if case["kind"] == "word":
        ctx.case(case, sequence, ctx, case["builders"], tuples(case["word"]))
    elif case["kind"] == "program":
        ctx.case(case, interrupted, ctx, dressed(tuples(case["forest"]), [case["shift"]]), tuples(case["outer"]), case["at"],
                 case["how"])
    else:
        ctx.case(case, interleaved, ctx, tuples(case["programs"][0]), tuples(case["programs"][1]), case["order"])
