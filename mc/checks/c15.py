"""C15: a record's structure and results are read faithfully."""
import os
import shutil
import tempfile
from ..core import Violation
from ..ref import decks, explore
from ..ref.table import DRAW_NAMES, RANKS, Game, Scenario

PROPERTY = "C15"
RULE = ("every history of the reference table within the deviation budget is written out as a log and read by the code; "
        "structure, round descriptions, endings and results are compared with the model")
BOUNDS = {"quick": "19 scenarios (16 with two short deals, 2 whole rounds to the last tile), every history with at most 2 deviations; every dan, all seat orders of final "
                   "scores, every round number with repeat counts up to 100 and stick counts up to 12, names over an awkward alphabet",
          "thorough": "as quick, with every discard as deviation, and histories read from files"}
ASSUMPTIONS = ["rounds are cut after the stated number of draws and then end like an exhausted wall"]
NAMES = ["NoName", "a b", "%41", "ＡＢ,c", "<b>&\"'", "日本\u3000語", "+", "0", "NA", "é\U0001f004", "x;y|z", "..", " "]


def shards(tier):
    size = "small" if tier == "quick" else "large"
    out = [("tree", size, b) for b in explore.packed(decks.scenarios(size), {None: 2}, 6)]
    if tier == "quick":
        out += [("tree", "large", b) for b in explore.packed(decks.scenarios("large"), {None: 1}, 200)]
    out += [("file", "small", b) for b in explore.packed(decks.scenarios("small"), {None: 1 if tier == "thorough" else 0}, 30)]
    out += [("names", n, i) for n in (3, 4) for i in range(3)]
    out += [("rounds", n, w) for n in (3, 4) for w in range(3)]
    out += [("scores", n, 0) for n in (3, 4)]
    return out


def same(got, want, what):
    if got != want:
        raise Violation("%s is %r, in the log %r" % (what, got, want))


def game_name(sc):
    """Display name of the scenario's game type."""
    g = sc.go
    bit = lambda i: g >> i & 1
    return "".join(["零一二三四"[sc.n], ("若銀琥孔" if bit(9) else "般上特鳳")[bit(5) << 1 | bit(7)], "南" if bit(3) else "東",
                    "" if bit(2) else "喰", "" if bit(1) else "赤", "速" if bit(6) else "", "暗" if bit(8) else ""])


def ending(sc, info):
    if info["ev"] == "win":
        if info["who"] == info["source"]:
            return "%s:ツモ(%d)" % (sc.names[info["who"]], info["points"])
        return "%s<-%s:ロン(%d)" % (sc.names[info["who"]], sc.names[info["source"]], info["points"])
    return "流局 %s" % (DRAW_NAMES[info["reason"]] if info["reason"] else "")


def check(ctx, sc, path, record=None):
    from mahjong.record.reader import TenhouRecord
    log = explore.events_of(sc, path)
    if record is None:
        record = TenhouRecord(explore.document(sc, path))
    ctx.traces += 1
    ctx.states += len(path)
    ctx.transitions += len(path)
    same([(e.tag, dict(e.attrib), e.timestamp) for e in record.events], [(t, a, i) for i, (t, a, _, _) in enumerate(log)],
         "the event list")
    # partition into header and rounds
    starts = [i for i, (t, _, _, _) in enumerate(log) if t == "INIT"] + [len(log)]
    same(len(record.game_list), len(starts) - 1, "the number of rounds")
    for k, game in enumerate(record.game_list):
        part = log[starts[k]:starts[k + 1]]
        same([(e.tag, dict(e.attrib), e.timestamp) for e in game.events],
             [(t, a, starts[k] + i) for i, (t, a, _, _) in enumerate(part)], "the event list of round %d" % k)
        init = part[0][2]
        number, honba, sticks = init["round"]
        same(tuple(game.game_index()), (number // 4, number % 4), "wind and number of round %d" % k)
        same((game.sub_game_index(), game.richii_counts(), game.east_index, game.initial_dora()),
             (honba, sticks, init["oya"], init["dora"]), "repeat, sticks, dealer and indicator of round %d" % k)
        endings = [(i, x) for i, (_, _, x, _) in enumerate(part) if x["ev"] in ("win", "drawn")]
        same([e.timestamp for e in game.end_events], [starts[k] + i for i, _ in endings], "the endings of round %d" % k)
        want = "%s%d局%d本 %s" % ("東南西北"[number // 4], number % 4 + 1, honba, ",".join(ending(sc, x) for _, x in endings))
        same(str(game), want, "the description of round %d" % k)
        same([p.name for p in game.players], list(sc.names), "the players of round %d" % k)
    # players
    same([(p.index, p.name, p.level, float(p.rate), p.sex) for p in record.players],
         [(i, sc.names[i], sc.dan[i], float(sc.rate[i]), sc.sex[i]) for i in range(sc.n)], "the player list")
    same([(p.level_str(), str(p)) for p in record.players],
         [(RANKS[sc.dan[i]], "%s %s R%.2f" % (sc.names[i], RANKS[sc.dan[i]], float(sc.rate[i]))) for i in range(sc.n)],
         "the player descriptions")
    # results
    finals, points = path[-1].state.final
    same((list(record.end_score[:sc.n]), list(record.end_point[:sc.n])), (list(finals), list(points)), "the final result")
    ranking = sorted(range(sc.n), key=lambda p: (-finals[p], p))
    same(str(record), "%s %s" % (game_name(sc), ",".join(
        "%d位:%s(%.1f)" % (i + 1, sc.names[p], points[p]) for i, p in enumerate(ranking))), "the record description")


def from_file(ctx, sc, path):
    import xml.etree.ElementTree as ET
    from mahjong.record.reader import from_file as read
    where = tempfile.mkdtemp(prefix="mc-c15-")
    try:
        name = os.path.join(where, "log.xml")
        ET.ElementTree(explore.document(sc, path)).write(name, encoding="utf-8", xml_declaration=True)
        check(ctx, sc, path, read(name))
    finally:
        shutil.rmtree(where)


def line(sc):
    return next(explore.histories(Game(sc), explore.shards([sc], {None: 0})[0]))


def basic(n, **kw):
    deals = kw.pop("deals", None) or ([decks.mixed()] if n == 4 else [decks.norths()])
    return Scenario("basic", n, 169 if n == 4 else 185, deals, 2, **kw)


def names(ctx, n, i):
    for shift in range(len(NAMES)):
        picked = [NAMES[(shift + (i + 2) * p) % len(NAMES)] for p in range(n)]
        dan = [(shift + p * 5 + i * 7) % 21 for p in range(n)]
        sex = [("M", "F", "C")[(shift + p + i) % 3] for p in range(n)]
        rate = [("1500.00", "2030", "-3.25", "0.00", "2999.99")[(shift + p + i) % 5] for p in range(n)]
        for spelling in range(5):
            sc = basic(n, names=picked, dan=dan, sex=sex, rate=rate, spelling=spelling)
            ctx.case({"kind": "names", "n": n, "names": picked, "dan": dan, "sex": sex, "rate": rate, "spelling": spelling},
                     check, ctx, sc, line(sc))


def rounds(ctx, n, wind):
    for number in range(wind * 4, wind * 4 + n):
        for honba in (0, 1, 2, 3, 9, 10, 17, 100):
            for sticks in (0, 1, 2, 3, 4, 9, 12):
                sc = basic(n, start=(number, honba, sticks))
                ctx.case({"kind": "rounds", "n": n, "start": [number, honba, sticks]}, check, ctx, sc, line(sc))


def scores(ctx, n):
    """All orders of final scores, with ties and negative scores."""
    from itertools import product
    for ten in product((-70, 0, 250, 433), repeat=n):
        sc = basic(n, ten=list(ten), riichi=False)
        ctx.case({"kind": "scores", "n": n, "ten": list(ten)}, check, ctx, sc, line(sc))


def run_shard(ctx, shard):
    kind, a, b = shard
    if kind in ("tree", "file"):
        scenarios = decks.scenarios(a)
        for part in b:
            sc = scenarios[part[0]]
            for path in explore.histories(Game(sc), part):
                ctx.sample([m.tag for m in path])
                ctx.case({"kind": kind, "size": a, "scenario": part[0], "moves": explore.choices_of(path)},
                         from_file if kind == "file" else check, ctx, sc, path)
                ctx.outcome(path[-1].info["ev"] + ":" + str(path[-1].info.get("reason")))
    else:
        {"names": names, "rounds": rounds}[kind](ctx, a, b) if kind != "scores" else scores(ctx, a)


def replay(ctx, case):
    kind = case["kind"]
    if kind in ("tree", "file"):
        sc = decks.scenarios(case["size"])[case["scenario"]]
        ctx.case(case, from_file if kind == "file" else check, ctx, sc, explore.find(Game(sc), case["moves"]))
        return
    kw = {"names": dict(names=case.get("names"), dan=case.get("dan"), sex=case.get("sex"), rate=case.get("rate"),
                        spelling=case.get("spelling", 0)),
          "rounds": dict(start=tuple(case.get("start", ()))), "scores": dict(ten=case.get("ten"), riichi=False)}[kind]
    sc = basic(case["n"], **kw)
    ctx.case(case, check, ctx, sc, line(sc))
