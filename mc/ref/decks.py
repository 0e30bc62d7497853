"""Hand-made deals and the scenarios built from them (see table.py)."""
from . import hands as H
from .table import Deal, Scenario


# every kind of open call is possible, tile number 0 and red fives are drawn, called and discarded
def mixed(indicators="7m3p6z8s"):
    return Deal(["123m456p789s11s34s", "23m11p22255s22z38p", "11m777z057p456s99p", "88m333z46p05m99s47m"],
                "1m5p5s7z9s2m4p6s3z9p4z4m8m6m5z", "2p6z8s3s", indicators)


def opposed():
    """Everybody waits for 2-5 of bamboo."""
    return Deal(["123m456p789s34s11z", "456m789p34s22z333z", "345m678p34s77p678s", "234m234p34s55z666z"],
                "9m1p8m5s2s5s9p1m2s7m", "8p1s6s6p", "4z4z1s1s")


def kans():
    return Deal(["1111m2222p333s77z", "111z33m444m055m23z", "99p99s888s555z34p4z", "666z44s777m888m11p"],
                "6z3s9p5z4m2z8s3m9s7m1z5m6p", "4z2m8p9m5p", "7z9m1s2s3z")


def winds():
    return Deal(["1z19m19p19s567z246m", "1z234m456p789s33p4s", "1z888m22p345s67p46s", "1z777m55p33s78p68s4p"],
                "6m8p2s4p6p5s7m1s2s3m9p", "2z3z4z5z", "1m9s3p2m")


def robbed():
    """Seat 1 can add the fourth 6m to its triplet while seat 2 waits for it."""
    return Deal(["2z19m19p19s345z11p8s", "66m234567s99s555z", "45m123p456p789s11z", "33z777m234p678p55m"],
                "6m6z2s7z4z6m8m2m1s3m", "8p8p3s2p", "1m9p7s3p")


def norths():
    return Deal(["44z111m99m123p05s7p", "4z99m456p34s777z11z", "4z1m456s88p88s222z3p"],
                "1p5p8p9s5s2p7z8s1z3p6p2s6z", "3s9p3z6z", "4s9s3z7p")


def sanma_ready():
    return Deal(["123p456p789s34s11z", "111m789p34s22z333z", "999m678p34s77z678s"],
                "9p1p5s2s5z2p5s6z6z5p1s", "4z4z1s8p", "4z4z6s2s")


def extracted():
    """Seat 0 holds all four norths and can call three tiles of the others."""
    return Deal(["4444z11m99p55s77z2p", "123p456p234s678s3z", "345p678p234s66s11z"],
                "3s1m9p5s7z2s9p1p8s7p5z3z6p2z8p", "9m7s8p3p9s", "2z2z9s7s")


def twins():
    """Seat 1 can call the fives of all three suits and add to each of them."""
    return Deal(["123m789p2468s12z9s", "55m05p55s139m28p66z", "46m46p1246s333z77z", "678m678p789s11z2p4m"],
                "5m5p5s7z2z9p5m4z8s1z0s3m9m5p", "6z3s9p7p", "1m4p6s2z")


def full_wall():
    """A whole round: every tile of the wall is drawn (70 draws, 14 tiles left in the dead wall)."""
    names = [H.NAME[k] for k in range(34)]
    order = [(i * 53 + 29) % 136 for i in range(136)]
    tiles = "".join(names[i // 4] for i in order)
    cut = lambda a, b: tiles[2 * a:2 * b]
    return Deal([cut(i * 13, i * 13 + 13) for i in range(4)], cut(52, 122), cut(122, 126), cut(126, 131))


def sanma_wall():
    names = [H.NAME[k] for k in range(34) if not 1 <= k <= 7]
    order = [(i * 47 + 11) % 108 for i in range(108)]
    tiles = "".join(names[i // 4] for i in order)
    cut = lambda a, b: tiles[2 * a:2 * b]
    return Deal([cut(i * 13, i * 13 + 13) for i in range(3)], cut(39, 94), cut(94, 102), cut(102, 107))


def scenarios(size="small"):
    """size 'small': for checks that convert whole records; 'large': for checks that walk the tree."""
    big = size == "large"
    few = "kinds" if big else "few"
    return [
        Scenario("mixed calls", 4, 169, [mixed(), opposed()], 8 if big else 7, discards=few, conn=3),
        Scenario("mixed calls, second round", 4, 9, [winds(), mixed("8s6z1z1s")], 7 if big else 6, discards=few,
                 start=(3, 1, 1), ten=[301, 12, 5, 672]),
        Scenario("everybody ready", 4, 233, [opposed(), opposed()], 8 if big else 7, discards="few", start=(7, 2, 1),
                 conn=0, ends=("nm",), ten=[240, 260, 250, 240], shuffle=False, lobby=None, points=False),
        Scenario("kans", 4, 0x48 | 1, [kans(), winds()], 8, discards="few", start=(2, 0, 0), ten=[250, 20, 700, 30]),
        Scenario("kans, dora first", 4, 0x0d, [kans()], 9 if big else 8, discards="few", kan_dora="before", start=(4, 0, 2),
                 ten=[250, 240, 250, 240], ends=("nm",)),
        Scenario("four riichi", 4, 225, [opposed()], 8, start=(0, 1, 3), ten=[220, 250, 250, 250],
                 script=[("reach1", None, p) for p in range(4)]),
        Scenario("four winds", 4, 169, [winds(), opposed()], 4, start=(1, 0, 0), discards="kinds",
                 script=[("discard", "1z", p) for p in (1, 2, 3, 0)]),
        Scenario("four kans", 4, 169, [kans()], 9, kan_dora="before",
                 script=[("call", "ankan", 0), ("call", "ankan", 0), ("discard", "6z", 0), ("call", "kan", 3),
                         ("call", "ankan", 0)]),
        Scenario("robbed kan", 4, 169, [robbed()], 8, script=[("call", "pon", 1), ("call", "addkan", 1)]),
        Scenario("first turn draws", 4, 0x21, [winds(), opposed()], 5, discards="kinds", start=(3, 11, 5),
                 ten=[-12, 1205, 250, 557]),
        Scenario("sanma", 3, 185, [norths(), sanma_ready()], 7, discards=few, start=(2, 0, 0), conn=1),
        Scenario("sanma, ready", 3, 0x19 | 0x04, [sanma_ready(), norths()], 6, discards="few", start=(5, 1, 0),
                 ten=[345, 5, 690], shuffle=False),
        Scenario("sanma east only", 3, 0x11, [norths(), norths()], 6, discards="few", kan_dora="before"),
        Scenario("twin pons", 4, 0x09, [twins()], 9, discards="few",
                 script=[("call", "pon", 1), ("call", "pon", 1), ("call", "pon", 1), ("call", "addkan", 1)]),
        Scenario("three winners", 4, 233, [opposed(), opposed()], 6, discards="few", triple=True, limit=1, start=(2, 14, 12),
                 calls=False, ten=[1240, -5, 20, 15]),
        Scenario("two winners, a line lost", 4, 169, [opposed(), opposed()], 5, discards="none", limit=1, conn=2, calls=False,
                 riichi=False, script=[("win", (2,), 0), ("win", (2,), 1)]),
        Scenario("seven melds", 3, 185, [extracted()], 12, discards="few", limit=1,
                 script=[("call", "kita", 0)] * 4 + [("call", "pon", 0)] * 3),
        Scenario("whole round", 4, 0x69, [full_wall()], 70, discards="few", limit=1),
        Scenario("whole round of three", 3, 0x39, [sanma_wall()], 55, discards="few", limit=1),
    ]
