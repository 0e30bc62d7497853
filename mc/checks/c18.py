"""C18: game-sheet rows retell the game."""
from itertools import product

from ..core import Violation
from ..ref import decks, explore
from ..ref.table import DRAW_NAMES, Game, face
from .c15 import basic, line

PROPERTY = "C18"
RULE = ("every history of the reference table within the deviation budget is converted to rows; the rows are compared one "
        "by one with those of the model's events, and a second model that sees only the rows must arrive at the model's "
        "hands after every row")
BOUNDS = {"quick": "19 scenarios (16 with two short deals, 2 whole rounds to the last tile), every history with at most 2 deviations (selected discards) / 1 (any discard); "
                   "every legal call code of every seat as a single event; every round number with repeat counts and sticks; all "
                   "combinations of 4 scores (6 for one seat)",
          "thorough": "any discard with 2 deviations"}
ASSUMPTIONS = ["the whole meld of an added kan row is its added tile", "connection events have no rows",
               "a closed kan has no source seat", "tiles of one row may stand in any order"]
KINDS = {"chi": "CHI", "pon": "PENG", "addkan": "GANG", "kita": "KITA", "ankan": "ANGANG", "kan": "MINGGANG"}


def shards(tier):
    size = "small" if tier == "quick" else "large"
    out = [("tree", size, b) for b in explore.packed(decks.scenarios(size), {None: 2}, 6)]
    if tier == "quick":
        out += [("tree", "large", b) for b in explore.packed(decks.scenarios("large"), {None: 1}, 200)]
    out += [("calls", who, kind) for who in range(4) for kind in KINDS]
    out += [("rounds", n, w) for n in (3, 4) for w in range(3)]
    out += [("scores", n, first) for n in (3, 4) for first in SCORES]
    return out


SCORES = (-70, -5, 0, 1, 250, 1205)


def rounds(ctx, n, wind):
    for number in range(wind * 4, wind * 4 + n):
        for honba in (0, 1, 9, 10, 17, 100):
            for sticks in (0, 1, 4, 12):
                sc = basic(n, start=(number, honba, sticks))
                ctx.case({"kind": "rounds", "n": n, "start": [number, honba, sticks]}, check, ctx, sc, line(sc))


def scores(ctx, n, first):
    for rest in product(SCORES if n == 3 else SCORES[::2] + SCORES[-1:], repeat=n - 1):
        for ten in ((first,) + rest, rest + (first,)):
            path = score_case(ctx, n, list(ten))
            # and with one seat ending on nothing at all
            for seat, end in enumerate(path[-1].state.final[0]):
                score_case(ctx, n, [t - end * (i == seat) for i, t in enumerate(ten)])


def score_case(ctx, n, ten):
    sc = basic(n, ten=ten, riichi=False, start=(3, 1, 0))
    path = line(sc)
    ctx.case({"kind": "scores", "n": n, "ten": ten}, check, ctx, sc, path)
    return path


def tiles(text):
    """Multiset of the tiles of a cell."""
    text = str(text)
    return sorted(text[i:i + 2] for i in range(0, len(text), 2))


def norm(row):
    out = {}
    for k, v in row.items():
        if k in ("player_see", "player_show", "player_open"):
            out[k] = tiles(v)
        elif k == "score":
            out[k] = int(v)
        elif k == "event_type":
            out[k] = v.strip()
        else:
            out[k] = str(v)
    if out.get("event_type") == "ANGANG":
        out.pop("origin", None)
    return out


def faces(numbers):
    return sorted(face(t) for t in numbers)


def rows_of(sc, info, state):
    ev, n = info["ev"], sc.n
    who = str(info["who"]) if isinstance(info.get("who"), int) else None
    if ev == "init":
        rows = [dict(event_type="INIT%d" % (p + 1), player=str(p), player_see=faces(state.hands[p]),
                     score=info["scores"][p] * 100) for p in range(n)]
        rows.append(dict(event_type="DORA", player="0", player_see=faces([info["dora"]]), player_show=faces([info["dora"]])))
        rows.append(dict(event_type="ROUND", score=info["round"][2] * 1000))
        return rows
    if ev == "draw":
        return [dict(event_type="DRAW", player=who, player_see=faces([info["tile"]]))]
    if ev == "discard":
        return [dict(event_type="DISCARD", player=who, player_show=faces([info["tile"]]))]
    if ev == "call":
        row = dict(event_type=KINDS[info["kind"]], player=who, player_show=faces(info["own"]),
                   player_open=faces(info["own"] + info["taken"]))
        if info["kind"] in ("chi", "pon", "kan", "addkan"):
            row["origin"] = str(info["source"])
        return [row]
    if ev == "reach1":
        return [dict(event_type="CALLRICHI", player=who)]
    if ev == "reach2":
        return [dict(event_type="RICHI", player=who), dict(event_type="SCORE", player=who, score=-1000)]
    if ev == "dora":
        return [dict(event_type="DORA", player="0", player_see=faces([info["tile"]]), player_show=faces([info["tile"]]))]
    if ev == "win":
        return [dict(event_type="WIN", player=who, origin=str(info["source"]))]
    if ev == "drawn":
        return [dict(event_type="EVEN", origin=DRAW_NAMES[info["reason"]] if info["reason"] else "")]
    return []


def check(ctx, sc, path):
    from mahjong.record.reader import TenhouRecord
    record = TenhouRecord(explore.document(sc, path))
    ctx.traces += 1
    ctx.states += len(path)
    want, label, after = [], None, []
    for m in path:
        if m.info["ev"] == "init":
            number, honba, _ = m.info["round"]
            label = "%s-%d-%d" % ("ESWN"[number // 4], number % 4 + 1, honba)
        rows = rows_of(sc, m.info, m.state)
        for row in rows:
            row["game_str"] = label
            want.append(row)
        if rows:
            after.append((len(want), m.state))
    finals = path[-1].state.final[0]
    want += [dict(event_type="FIN%d" % (p + 1), player=str(p), score=finals[p] * 100) for p in range(sc.n)]
    raw = record.to_paifu()
    got = [norm(r) for r in raw]
    ctx.transitions += len(got)
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            raise Violation("row %d is %r, in the game %r" % (i, a, b))
    if len(got) != len(want):
        raise Violation("%d rows, in the game %d" % (len(got), len(want)))
    replayed = replay_rows(raw, sc.n)
    for count, state in after:
        if replayed[count - 1] != [faces(h) for h in state.hands]:
            raise Violation("replaying the first %d rows gives the hands %r, on the table %r"
                            % (count, replayed[count - 1], [faces(h) for h in state.hands]))
    again = [norm(r) for game in record.game_list for r in game.to_paifu()] + got[-sc.n:]
    if again != want:
        raise Violation("asking for the rows again gives other rows")


def replay_rows(rows, n):
    hands, out = [[] for _ in range(n)], []
    for row in rows:
        kind = row["event_type"].strip()
        p = int(row["player"]) if str(row.get("player", "")).isdigit() else None
        if kind.startswith("INIT"):
            hands[p] = tiles(row["player_see"])
        elif kind == "DRAW":
            hands[p] = hands[p] + tiles(row["player_see"])
        elif kind == "DISCARD" or kind in KINDS.values():
            rest = list(hands[p])
            for t in tiles(row["player_show"]):
                if t not in rest:
                    raise Violation("row %r lays down %s, which seat %d does not hold" % (row, t, p))
                rest.remove(t)
            hands[p] = rest
        out.append([sorted(h) for h in hands])
    return out


def one_call(ctx, call):
    from mahjong.record.utils.event import TenhouEvent
    from ..ref import codes
    event = TenhouEvent(explore.element("N", {"who": str(call["who"]), "m": str(codes.encode(call))}), context=None, timestamp=0)
    got = [norm(r) for r in event.to_paifu()]
    want = rows_of(
        _Seats, {"ev": "call", "who": call["who"], "kind": call["kind"], "own": call["own"], "taken": call["taken"],
                 "source": call["source"]}, None)
    ctx.states += 1
    ctx.transitions += 1
    if got != want:
        raise Violation("rows %r, the call was %r" % (got, want))


class _Seats:
    n = 4


def calls(ctx, who, kind):
    from ..ref import codes
    for call in codes.all_calls(who, kind):
        ctx.case({"kind": "call", "who": who, "call": kind, "code": codes.encode(call)}, one_call, ctx, call)


def run_shard(ctx, shard):
    kind, a, b = shard
    if kind == "calls":
        return calls(ctx, a, b)
    if kind in ("rounds", "scores"):
        return {"rounds": rounds, "scores": scores}[kind](ctx, a, b)
    scenarios = decks.scenarios(a)
    for part in b:
        sc = scenarios[part[0]]
        for path in explore.histories(Game(sc), part):
            ctx.sample([m.tag for m in path])
            ctx.case({"kind": kind, "size": a, "scenario": part[0], "moves": explore.choices_of(path)}, check, ctx, sc, path)
            for m in path:
                if m.info["ev"] == "call":
                    ctx.outcome(m.info["kind"])


def replay(ctx, case):
    if case["kind"] == "call":
        from ..ref import codes
        for call in codes.all_calls(case["who"], case["call"]):
            if codes.encode(call) == case["code"]:
                ctx.case(case, one_call, ctx, call)
        return
    if case["kind"] in ("rounds", "scores"):
        kw = {"start": tuple(case["start"])} if "start" in case else {"ten": case["ten"], "riichi": False, "start": (3, 1, 0)}
        sc = basic(case["n"], **kw)
        return ctx.case(case, check, ctx, sc, line(sc))
    sc = decks.scenarios(case["size"])[case["scenario"]]
    ctx.case(case, check, ctx, sc, explore.find(Game(sc), case["moves"]))
