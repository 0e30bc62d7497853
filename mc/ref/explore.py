"""Deviation-bounded walks through the game tree of table.py."""
from .table import Game, header, opening


def default_line(game):
    """[(state, moves)] along the cost-0 line, ending with the final state."""
    s, line = opening(game.sc), []
    while True:
        moves = game.moves(s)
        line.append((s, moves))
        if not moves:
            return line
        free = [m for m in moves if m.cost == 0]
        assert len(free) == 1, (game.sc.name, s.phase, [(m.cost, m.tag) for m in moves])
        s = free[0].state


def shards(scenarios, budgets):
    """budgets: {scenario name: budget} with default under None.  One shard per first deviation, one for the default
    line: (scenario number, budget left, position, move number)."""
    out = []
    for number, sc in enumerate(scenarios):
        budget = min(sc.limit, budgets.get(sc.name, budgets.get(None, 1)))
        game = Game(sc)
        line = default_line(game)
        out.append((number, 0, len(line), 0))
        for position, (_, moves) in enumerate(line):
            for j, m in enumerate(moves):
                if 0 < m.cost <= budget:
                    out.append((number, budget - m.cost, position, j))
    return out


def packed(scenarios, budgets, size):
    """Shards in bundles, so that small ones travel together."""
    plain = shards(scenarios, budgets)
    return [tuple(plain[i::max(1, (len(plain) + size - 1) // size)])
            for i in range(max(1, (len(plain) + size - 1) // size))]


def walk(game, shard, enter, leave=None, token=None):
    """Depth-first through a shard.  enter(token, move, fresh) -> token for the children, called on every event;
    leave(token) when its subtree is done.  `fresh` is False for events of the shared default prefix."""
    _, budget, position, j = shard
    s = opening(game.sc)
    tokens = []
    for step in range(position):
        moves = game.moves(s)
        if not moves:
            break
        m = next(m for m in moves if m.cost == 0)
        token = enter(token, m, False)
        tokens.append(token)
        s = m.state
    else:
        m = game.moves(s)[j]
        token = enter(token, m, True)
        _walk(game, m.state, budget, enter, leave, token)
    if leave is not None:
        leave(token)
        for t in reversed(tokens):
            leave(t)


def _walk(game, s, budget, enter, leave, token):
    for m in game.moves(s):
        if m.cost <= budget:
            t = enter(token, m, True)
            _walk(game, m.state, budget - m.cost, enter, leave, t)
            if leave is not None:
                leave(t)


def histories(game, shard):
    """Every complete history of a shard: (list of moves, is this the pure default line)."""
    _, budget, position, j = shard
    s, path = opening(game.sc), []
    for step in range(position):
        moves = game.moves(s)
        if not moves:
            yield path
            return
        m = next(m for m in moves if m.cost == 0)
        path.append(m)
        s = m.state
    m = game.moves(s)[j]
    yield from _complete(game, m.state, budget, path + [m])


def _complete(game, s, budget, path):
    moves = game.moves(s)
    if not moves:
        yield list(path)
        return
    for m in moves:
        if m.cost <= budget:
            path.append(m)
            yield from _complete(game, m.state, budget - m.cost, path)
            path.pop()


def find(game, choices):
    """Replays a history given as the list of move numbers."""
    s, path = opening(game.sc), []
    for c in choices:
        m = game.moves(s)[c]
        path.append(m)
        s = m.state
    return path


def choices_of(path):
    return [m.number for m in path]


# ------------------------------------------------------------------------------------------------ as a tenhou log
def events_of(sc, path):
    """[(tag, attributes, info, state after or None)] of the whole record, header included."""
    return [(t, a, i, None) for t, a, i in header(sc)] + [(m.tag, m.attrib, m.info, m.state) for m in path]


def element(tag, attrib):
    import xml.etree.ElementTree as ET
    return ET.Element(tag, dict(attrib))


def document(sc, path):
    import xml.etree.ElementTree as ET
    root = ET.Element("mjloggm", {"ver": "2.3"})
    for tag, attrib, _, _ in events_of(sc, path):
        root.append(ET.Element(tag, dict(attrib)))
    return root
