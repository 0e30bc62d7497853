"""Adapter to the hand-analysis API of the code under test (public names only)."""
from .core import Violation
from .ref import hands as H


class Api:
    def __init__(self):
        from mahjong.tile.definition import Tile, AkaTile
        from mahjong.container.set import TileSet
        from mahjong.container.pattern.win import NormalTypeWin, UniquePairs
        from mahjong.container.pattern import reasoning
        self.Tile, self.AkaTile, self.TileSet = Tile, AkaTile, TileSet
        self.NormalTypeWin, self.UniquePairs = NormalTypeWin, UniquePairs
        self.reasoning = reasoning
        self.tiles = [Tile(n, c) for n, c in H.KINDS]
        self.reds = {4: AkaTile(0, "m"), 13: AkaTile(0, "p"), 22: AkaTile(0, "s")}

    def win(self, shape):
        if shape[0] == "normal":
            return self.NormalTypeWin(pairs=shape[2], melds=shape[1])
        return self.UniquePairs(shape[1])

    def hand(self, counts, order="up", reds=0):
        """A tile set holding the counts; `order` is the insertion order, `reds` how each five is represented:
        0 plain, 1 a red five is put in first, 2 a red five is put in last (red and plain fives are one kind)."""
        kinds = [k for k in range(34) if counts[k]]
        if order == "down":
            kinds.reverse()
        elif order == "mixed":
            kinds = kinds[1::2] + kinds[::2]
        tiles = []
        for k in kinds:
            group = [self.tiles[k]] * counts[k]
            if reds and k in self.reds:
                group[0 if reds == 1 else -1] = self.reds[k]
            tiles.extend(group)
        if order == "dealt":           # copies of a kind do not arrive together
            tiles = tiles[::2] + tiles[1::2]
        return self.TileSet(tiles)

    def kind(self, tile):
        number, color = tile.number, tile.color
        return H.INDEX["%d%s" % (number or 5, color)]

    def counts(self, tile_set):
        result = [0] * 34
        for tile, n in tile_set.items():
            result[self.kind(tile)] += n
        return result

    def units(self, split):
        """Selection of tile sets -> sorted tuple of tuples of kinds."""
        out = []
        for unit in split:
            kinds = []
            for tile, n in unit.items():
                if n < 0:
                    raise Violation("a listed part holds a negative count", part=str(unit))
                kinds.extend([self.kind(tile)] * n)
            out.append(tuple(sorted(kinds)))
        return out


_api = None


def api():
    global _api
    if _api is None:
        _api = Api()
    return _api
