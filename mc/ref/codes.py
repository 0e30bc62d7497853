"""Reference encoder of tenhou call codes (tile numbers 0..135, four per kind)."""
from itertools import product


def chi(who, tiles, called):
    """tiles: three numbers of consecutive kinds, called: index of the called one."""
    tiles = sorted(tiles)
    base = tiles[0] // 4
    color, start = divmod(base, 9)
    pattern = (color * 7 + start) * 3 + called
    code = 3 | 0x4
    for i, t in enumerate(tiles):
        code |= (t % 4) << (3 + 2 * i)
    return code | pattern << 10


def pon(kui, kind, unused, called):
    return kui | 0x8 | unused << 5 | (kind * 3 + called) << 9


def addkan(kui, kind, added, called):
    return kui | 0x10 | added << 5 | (kind * 3 + called) << 9


def kan(kui, tile):
    return kui | tile << 8


def kita(tile):
    return 0x20 | tile << 8


def call(kind, who, own, taken, source, **detail):
    return dict(kind=kind, who=who, own=sorted(own), taken=sorted(taken), source=source, **detail)


def make_chi(who, tiles, called):
    tiles = sorted(tiles)
    return call("chi", who, [t for t in tiles if t != tiles[called]], [tiles[called]], (who + 3) % 4,
                tiles=tiles, called=called)


def make_pon(who, kui, tiles, called_tile):
    tiles = sorted(tiles)
    return call("pon", who, [t for t in tiles if t != called_tile], [called_tile], (who + kui) % 4, kui=kui)


def make_addkan(who, kui, tile, called):
    return call("addkan", who, [tile], [], (who + kui) % 4, kui=kui, called=called)


def make_kan(who, kui, called_tile):
    base = called_tile // 4 * 4
    return call("kan", who, [t for t in range(base, base + 4) if t != called_tile], [called_tile], (who + kui) % 4,
                kui=kui)


def make_ankan(who, tile):
    base = tile // 4 * 4
    return call("ankan", who, range(base, base + 4), [], None, shown=tile)


def make_kita(who, tile):
    return call("kita", who, [tile], [], None)


def encode(c):
    kind = c["kind"]
    if kind == "chi":
        return chi(c["who"], c["tiles"], c["called"])
    if kind == "pon":
        tiles = sorted(c["own"] + c["taken"])
        base = tiles[0] // 4 * 4
        unused = ({0, 1, 2, 3} - {t - base for t in tiles}).pop()
        return pon(c["kui"], tiles[0] // 4, unused, tiles.index(c["taken"][0]))
    if kind == "addkan":
        return addkan(c["kui"], c["own"][0] // 4, c["own"][0] % 4, c["called"])
    if kind == "kan":
        return kan(c["kui"], c["taken"][0])
    if kind == "ankan":
        return kan(0, c["shown"])
    return kita(c["own"][0])


def all_calls(who, kind):
    if kind == "chi":
        for color, start, called in product(range(3), range(7), range(3)):
            for copies in product(range(4), repeat=3):
                yield make_chi(who, [(color * 9 + start + i) * 4 + copies[i] for i in range(3)], called)
    elif kind == "pon":
        for k, kui, unused, called in product(range(34), (1, 2, 3), range(4), range(3)):
            tiles = [k * 4 + i for i in range(4) if i != unused]
            yield make_pon(who, kui, tiles, tiles[called])
    elif kind == "addkan":
        for k, kui, added, called in product(range(34), (1, 2, 3), range(4), range(3)):
            yield make_addkan(who, kui, k * 4 + added, called)
    elif kind == "kan":
        for tile, kui in product(range(136), (1, 2, 3)):
            yield make_kan(who, kui, tile)
    elif kind == "ankan":
        for tile in range(136):
            yield make_ankan(who, tile)
    else:
        for tile in range(120, 124):
            yield make_kita(who, tile)
