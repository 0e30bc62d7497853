"""C24: nested states are persistent values."""
import copy
import json

from ..core import Violation

PROPERTY = "C24"
RULE = ("every history of the stated number of changes, each applied to a node (of any depth) of any earlier version, is run on "
        "the nested state and on plain nested mappings; after each change all versions and all node handles taken earlier are "
        "compared again, and in-place attempts on every node must fail and change nothing")
BOUNDS = {"quick": "8 starting states of up to 3 levels over 2 keys; histories of 3 changes with 4 values and 2 keys; histories of 2 "
                   "changes with 9 values and 3 keys, and with values equal to one another (1, 1.0, True); in-place attempts after every one and two changes",
          "thorough": "histories of 4 changes on the three smallest starting states with 3 values, 3 changes with 9 values and 3 keys"}
ASSUMPTIONS = ["leaf values are not modified from outside", "dropping what is not there is an error of the caller",
               "handles of nodes belong to the version they were taken from"]
STARTS = [{}, {"a": 1}, {"a": {}}, {"a": {"b": 1}, "b": 2}, {"a": {"a": {"a": 0}}, "b": {"b": {}}},
          {"a": {"a": 1, "b": {"a": [1, 2], "b": None}}}, {"b": {"a": {"b": 3}}}, {"a": {"b": {"a": {"b": 4}}}, "b": "x"}]
WIDE = [1, None, [], [1, "x"], "t", {}, {"a": 5}, {"b": {"a": 6}}, ("take",)]
ALIKE = [1, True, 1.0, 0, False, [1], [True], {"a": 1}, {"a": True}]
NARROW = [1, {}, {"a": 5}, ("take",)]
TINY = [1, {"a": 5}, ("take",)]


def plan(tier):
    out = []
    for i in range(len(STARTS)):
        out.append((i, 3, "narrow"))
        out.append((i, 2, "wide"))
        out.append((i, 2, "alike"))
        if tier == "thorough":
            out.append((i, 3, "wide"))
            if i < 3:
                out.append((i, 4, "tiny"))
    return out


def shards(tier):
    out = []
    for start, depth, size in plan(tier):
        n = sum(1 for _ in changes([STARTS[start]], size))
        parts = min(n, 16)
        out += [(start, depth, size, part, parts) for part in range(parts)]
    out += [(i, 2, "inplace", 0, 1) for i in range(len(STARTS))]
    return out


def values(size):
    return {"wide": WIDE, "alike": ALIKE, "narrow": NARROW, "tiny": TINY, "inplace": TINY}[size]


def keys(size):
    return ("a", "b", "c") if size == "wide" else ("a", "b")


def nodes(plain, path=()):
    yield path
    for k, v in plain.items():
        if isinstance(v, dict):
            yield from nodes(v, path + (k,))


def changes(versions, size):
    """Every change of any version: (version, path of the node, operation, key, value)."""
    for number, plain in enumerate(versions):
        for path in nodes(plain):
            here = at(plain, path)
            for key in keys(size):
                for value in values(size):
                    yield number, path, "set", key, value
                if key in here:
                    yield number, path, "drop", key, None
                yield number, path, "setdefault", key, values(size)[0 if key in here else len(path) % 2]


def at(tree, path):
    for k in path:
        tree = tree[k]
    return tree


def taken(plains):
    """The subtree a ("take",) value stands for: the first nested one of the newest version (or the whole of it)."""
    last = plains[-1]
    path = next((p for p in nodes(last) if p), ())
    return len(plains) - 1, path


def changed(plain, path, op, key, value):
    new = copy.deepcopy(plain)
    here = at(new, path)
    if op == "drop":
        del here[key]
    elif op == "set" or key not in here:
        here[key] = copy.deepcopy(value)
    return new


def plain_of(state):
    from mahjong.record.universe.executor import TransferDict
    return {k: plain_of(v) if isinstance(v, TransferDict) else v for k, v in state.items()}


def equal(a, b):
    """Equal, and written in the same way (1, 1.0 and True are three values)."""
    return a == b and typed(a) == typed(b)


def typed(v):
    if isinstance(v, dict):
        return {k: typed(x) for k, x in v.items()}
    return [typed(x) for x in v] if isinstance(v, (list, tuple)) else type(v)


def leaves(plain, path=()):
    for k, v in plain.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


class World:
    def __init__(self, ctx, start):
        from mahjong.record.universe.executor import TransferDict
        self.ctx = ctx
        source = copy.deepcopy(STARTS[start])
        self.plains = [copy.deepcopy(STARTS[start])]
        self.states = [TransferDict(source)]
        source["z"] = 9                      # the mapping it was made from belongs to the caller
        for v in source.values():
            if isinstance(v, dict):
                v["z"] = 9
        self.handles = [self.handles_of(0)]
        self.verify(0)

    def handles_of(self, number):
        return {p: at(self.states[number], p) for p in nodes(self.plains[number])}

    def push(self, change):
        number, path, op, key, value = change
        real = copy.deepcopy(value) if isinstance(value, dict) else value
        if value == ("take",):
            source, where = taken(self.plains)
            value, real = at(self.plains[source], where), self.handles[source][where]
        node = self.handles[number][path]
        want = changed(self.plains[number], path, op, key, value)
        if op == "drop":
            got = node.drop(key)
        else:
            got = getattr(node, op)(key, real)
        if isinstance(real, dict):
            real["z"] = 9
        self.plains.append(want)
        self.states.append(got)
        self.ctx.transitions += 1
        self.verify(len(self.states) - 1)
        self.handles.append(self.handles_of(len(self.states) - 1))

    def pop(self):
        self.plains.pop()
        self.states.pop()
        self.handles.pop()

    def verify(self, number, note="the result"):
        got = plain_of(self.states[number])
        want = self.plains[number]
        if not equal(got, want):
            raise Violation("%s holds %r, expected %r" % (note, got, want))

    def verify_all(self):
        """Earlier versions and their nodes, and the flat listing of the newest."""
        for number in range(len(self.states)):
            self.verify(number, "version %d" % number)
        for number, table in enumerate(self.handles):
            for path, node in table.items():
                if not equal(plain_of(node), at(self.plains[number], path)):
                    raise Violation("node %r taken from version %d holds %r now" % (path, number, plain_of(node)))
        self.flat(len(self.states) - 1)

    def flat(self, number):
        want = sorted(leaves(self.plains[number]), key=repr)
        got = sorted(((tuple(p), v) for p, v in self.states[number].flatten_iter()), key=repr)
        if not equal(got, want):
            raise Violation("flattening gives %r, expected %r" % (got, want))
        if dict(self.states[number].flatten()) != {p: json.dumps(v) for p, v in want}:
            raise Violation("flatten() gives %r" % (self.states[number].flatten(),))
        for path in nodes(self.plains[number]):
            node, here = at(self.states[number], path), at(self.plains[number], path)
            for key in ("a", "b", "c"):
                if (key in node) != (key in here) or (key not in here and node.get(key, 7) != 7):
                    raise Violation("key %r at %r" % (key, path))


def explore_from(ctx, world, start, size, left, done):
    for number, change in enumerate(list(changes(world.plains, size))):
        one(ctx, world, start, size, left, done, change)


def one(ctx, world, start, size, left, done, change):
    def body():
        world.push(change)
        world.verify_all()
    ctx.states += 1
    before = len(world.states)
    trail = done + [change]
    ctx.case({"start": start, "changes": [list(c) for c in trail]}, body)
    if len(world.states) > before:
        if left > 1:
            explore_from(ctx, world, start, size, left - 1, trail)
        else:
            ctx.traces += 1
        while len(world.states) > before:
            world.pop()
    del world.plains[before:], world.handles[before:]


ATTEMPTS = {
    "item": lambda n: n.__setitem__("a", 1), "item operator": lambda n: exec("n['a'] = 1", {"n": n}),
    "delete": lambda n: exec("del n['a']", {"n": n}), "pop": lambda n: n.pop("a"), "pop default": lambda n: n.pop("zz", None),
    "popitem": lambda n: n.popitem(), "update": lambda n: n.update({"a": 1}), "update keyword": lambda n: n.update(a=1),
    "clear": lambda n: n.clear(), "merge": lambda n: exec("n |= {'a': 1}", {"n": n}),
    "delete attribute": lambda n: exec("del n.a", {"n": n}),
}


def attempts(ctx, world, start, done):
    for number, table in enumerate(world.handles):
        for path, node in table.items():
            for name, attempt in ATTEMPTS.items():
                ctx.case({"start": start, "changes": [list(c) for c in done], "attempt": name, "version": number,
                          "path": list(path)}, attempted, ctx, world, node, name, attempt, path)


def attempted(ctx, world, node, name, attempt, path):
    ctx.transitions += 1
    failed = False
    try:
        attempt(node)
    except Exception:
        failed = True
    for number in range(len(world.states)):
        world.verify(number, "after %s at %r version %d" % (name, path, number))
    if not failed:
        raise Violation("%s at %r did not fail" % (name, path))


def inplace(ctx, start, depth):
    world = World(ctx, start)
    attempts(ctx, world, start, [])

    def down(left, done):
        for change in list(changes(world.plains, "inplace")):
            before = len(world.states)
            ctx.case({"start": start, "changes": [list(c) for c in done + [change]]}, world.push, change)
            if len(world.states) > before:
                ctx.states += 1
                ctx.traces += 1
                if left == 1 or len(done) == 0:
                    attempts(ctx, world, start, done + [change])
                if left > 1:
                    down(left - 1, done + [change])
                while len(world.states) > before:
                    world.pop()
            del world.plains[before:], world.handles[before:]
    down(1 if start in (4, 5, 7) else depth, [])


def run_shard(ctx, shard):
    start, depth, size, part, parts = shard
    if size == "inplace":
        return inplace(ctx, start, depth)
    world = World(ctx, start)
    for i, change in enumerate(list(changes(world.plains, size))):
        if i % parts == part:
            ctx.sample([list(change)])
            one(ctx, world, start, size, depth, [], change)


def tupled(change):
    number, path, op, key, value = change
    return number, tuple(path), op, key, tuple(value) if value == ["take"] else value


def replay(ctx, case):
    world = World(ctx, case["start"])

    def body():
        for change in case["changes"]:
            world.push(tupled(change))
            world.verify_all()
    ctx.case(case, body)
    if "attempt" in case:
        node = world.handles[case["version"]][tuple(case["path"])]
        ctx.case(case, attempted, ctx, world, node, case["attempt"], ATTEMPTS[case["attempt"]], tuple(case["path"]))
