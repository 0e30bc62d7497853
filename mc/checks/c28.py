"""C28: the efficiency report covers every discard of every legal record."""
from .. import reports
from ..ref import decks, explore, report as R
from ..ref.table import Game
from .c15 import ending

PROPERTY = "C28"
RULE = ("every history of the reference table within the deviation budget is written out as a log; the report of every seat is "
        "produced and read back; its sections, rows, hands, melds, discards, colours and tile pictures are compared with the model's")
BOUNDS = {"quick": "19 scenarios (16 with two short deals, 2 whole rounds to the last tile), every history with one deviation, every seat (hand analysis replaced by reference answers); "
                   "default lines with the real analysis",
          "thorough": "two deviations"}
ASSUMPTIONS = ["rounds are cut after the stated number of draws", "the order in which melds and tiles of a row are shown is free",
               "an added kan is one meld of four",
               "each picture of the package shows the tile it is named after"]


def shards(tier):
    scenarios = decks.scenarios("small")
    out = [("tree", "small", b) for b in explore.packed(scenarios, {None: 1 if tier == "quick" else 2}, 8)]
    if tier == "thorough":
        out += [("tree", "large", b) for b in explore.packed(decks.scenarios("large"), {None: 1}, 20)]
    out += [("real", "small", (i, who)) for i, sc in enumerate(scenarios) for who in range(sc.n)]
    return out


def titles(sc, path):
    out = []
    for m in path:
        ev = m.info["ev"]
        if ev == "init":
            number, honba, _ = m.info["round"]
            out.append(["%s%d局%d本 " % ("東南西北"[number // 4], number % 4 + 1, honba), []])
        elif ev in ("win", "drawn"):
            out[-1][1].append(ending(sc, m.info))
    return [a + ",".join(b) for a, b in out]


def check(ctx, sc, path, seats, real):
    root = explore.document(sc, path)
    for who in seats:
        html = reports.produce(root, who)
        want = R.rows_of(sc, path, who)
        reports.coverage(reports.sections(html), want, titles(sc, path))
        reports.pictures(html, want)
        ctx.traces += 1
        ctx.states += sum(len(s) for s in want)
        for section in want:
            for row in section:
                ctx.outcome("%d melds, %s riichi" % (len(row.melds), "after" if row.riichi else "before"))
    ctx.transitions += len(path)


def run(ctx, sc, path, seats, real):
    if real:
        check(ctx, sc, path, seats, real)
    else:
        with reports.known_answers():
            check(ctx, sc, path, seats, real)


def case(ctx, size, number, sc, path, seats, real=False):
    ctx.case({"size": size, "scenario": number, "name": sc.name, "choices": explore.choices_of(path), "seats": list(seats),
              "real": real}, run, ctx, sc, path, seats, real)


def run_shard(ctx, shard):
    kind, size, bundle = shard
    scenarios = decks.scenarios(size)
    if kind == "real":
        number, who = bundle
        sc = scenarios[number]
        path = next(explore.histories(Game(sc), next(s for s in explore.shards(scenarios, {None: 0}) if s[0] == number)))
        case(ctx, size, number, sc, path, [who], True)
        return
    for part in bundle:
        sc = scenarios[part[0]]
        for path in explore.histories(Game(sc), part):
            case(ctx, size, part[0], sc, path, range(sc.n))
    ctx.sample({"scenario": sc.name, "choices": explore.choices_of(path)})


def replay(ctx, case_):
    sc = decks.scenarios(case_["size"])[case_["scenario"]]
    path = explore.find(Game(sc), case_["choices"])
    run(ctx, sc, path, case_["seats"], case_["real"])
