"""C19: translated commands reproduce the game state after every event."""
from ..core import Violation
from ..ref import decks, explore, fold
from ..ref.table import DRAW_NAMES, RANKS, Game, face
from .c15 import basic, line, NAMES

PROPERTY = "C19"
RULE = ("every history of the reference table within the deviation budget is translated; a reference fold of the commands "
        "is compared with the model's table after every event, the state recorded on each command with the fold, and "
        "position and kind with the event; histories with one deviation are also replayed by the code's own executor")
BOUNDS = {"quick": "19 scenarios (16 with two short deals, 2 whole rounds to the last tile), every history with at most 2 deviations; every game type code bit, all 55 hand "
                   "patterns as yaku and yakuman, names over an awkward alphabet; every history of up to 4 departures and returns of all players "
                   "around the first draws; wins on a five, red or not, with and without other fives in the hand",
          "thorough": "5 departures and returns; any discard as deviation with 2 deviations"}
ASSUMPTIONS = ["tiles of one set may stand in any order", "melds are compared as the tiles laid out (an added kan may be "
               "listed as its own entry)", "hand patterns are claimed for the winner",
               "the stick total is compared at each deal only", "games without red fives do not use tiles 16, 52 and 88",
               "without a type an ending is named EXHAUSTED"]

SCORE_NAMES = """門前清自摸和 立直 一発 槍槓 嶺上開花 海底摸月 河底撈魚 平和 断幺九 一盃口 自風_東 自風_南 自風_西 自風_北 場風_東
場風_南 場風_西 場風_北 役牌_白 役牌_發 役牌_中 両立直 七対子 混全帯幺九 一気通貫 三色同順 三色同刻 三槓子 対々和 三暗刻 小三元
混老頭 二盃口 純全帯幺九 混一色 清一色 人和 天和 地和 大三元 四暗刻 四暗刻単騎 字一色 緑一色 清老頭 九蓮宝燈 純正九蓮宝燈 国士無双
国士無双１３面 大四喜 小四喜 四槓子 ドラ 裏ドラ 赤ドラ""".replace("_", " ").replace("\n", " ")
_words = SCORE_NAMES.split(" ")
YAKU, _i = [], 0
while _i < len(_words):
    if _words[_i] in ("自風", "場風", "役牌"):
        YAKU.append(_words[_i] + " " + _words[_i + 1])
        _i += 2
    else:
        YAKU.append(_words[_i])
        _i += 1
assert len(YAKU) == 55


def shards(tier):
    size = "small" if tier == "quick" else "large"
    out = [("tree", size, b) for b in explore.packed(decks.scenarios(size), {None: 2}, 6)]
    out += [("executor", "small", b) for b in explore.packed(decks.scenarios("small"), {None: 1}, 40)]
    out += [("types", n, i) for n in (3, 4) for i in range(4)]
    out += [("yaku", kind, 0) for kind in ("yaku", "yakuman")]
    out += [("names", n, 0) for n in (3, 4)]
    out += [("fives", suit, form) for suit in range(3) for form in ("run", "pairs", "middle", "single")]
    for n in (3, 4):
        for draws, budget in ((2, 4),) if tier == "quick" else ((5, 3), (3, 4), (1, 5)):
            sc = comings(n, draws)
            out += [("comings", (n, draws, budget), b) for b in explore.packed([sc], {None: budget}, 4)]
    return out


def fives(suit, form, red, drawn):
    """Seat 1 waits for a five of the suit and holds others; the red one is won on, held or elsewhere."""
    x, y, z = "mps"[suit:] + "mps"[:suit]
    here = {"win": ("0", "5"), "held": ("5", "0"), "away": ("5", "5")}[red]
    held = {"run": "34%s67X123Y789Z11z", "pairs": "5%sX11z123Y999Y789Z", "middle": "46%s5X123Y999Y789Z",
            "single": "%s678X123Y999Y78Z9Z"}[form] % here[1]
    hands = ["4477Y2266Z2233z4z", held, "1379X2266z3377z4z", "2288X5566z44Y8Y55Z"]
    wall = (here[0] + "X1Y" if drawn == 0 else "8Y" + here[0] + "X") + "8Z4Z9X1X"
    text = [t.replace("X", x).replace("Y", y).replace("Z", z) for t in hands + [wall]]
    sc = basic(4, deals=[decks.Deal(text[:4], text[4], "5z7z", "4z7z")], discards="none", calls=False, riichi=False)
    sc.horizon = 4
    return sc


def comings(n, draws):
    """Nothing happens but players leaving and coming back, all of them."""
    sc = basic(n, conn=tuple(range(n)), discards="none", calls=False, riichi=False)
    sc.horizon = draws
    return sc


KIND_OF_TAG = {"SHUFFLE": "record_init", "GO": "record_init", "UN": "record_init", "TAIKYOKU": "game_init",
               "INIT": "game_init", "N": "open_hand", "DORA": "new_dora", "REACH": "richii", "AGARI": "game_finish",
               "RYUUKYOKU": "game_finish", "BYE": "connect_change"}


def kind_of(tag, name):
    if tag == "UN" and name == "disconnected":
        return "connect_change"
    if tag == "INIT" and name == "dora_indicators":
        return "new_dora"
    if name in ("final_score", "final_point", "rank"):
        return "record_finish"
    if tag in KIND_OF_TAG:
        return KIND_OF_TAG[tag]
    return "draw" if tag[0] in "TUVW" else "discard"


def faces(numbers):
    return sorted(face(t) for t in numbers)


def flat(melds):
    return sorted(t for m in melds for t in m)


def expectations(sc, info, state):
    """[(scope, seat, property, how to compare, value)] that must hold after the event."""
    out = []
    ev = info["ev"]

    def game(name, value, how=None):
        out.append(("game", "all", name, how, value))

    def player(p, name, value, how=None):
        out.append(("player", p, name, how, value))

    if ev == "shuffle":
        out.append(("record", "all", "seed", None, info["seed"]))
    elif ev == "go":
        bit = lambda i: bool(sc.go >> i & 1)
        aka = not bit(1)
        wall = []
        for k in range(34):
            if sc.n == 3 and 1 <= k <= 7:
                continue
            for i in range(4):
                t = 4 * k + i
                wall.append(face(t) if aka else face(4 * k + 1))
        for name, value in (("play_level", ("若銀琥孔" if bit(9) else "般上特鳳")[bit(5) << 1 | bit(7)]),
                            ("show_discard_shadow", bit(8)), ("play_wind_count", 2 if bit(3) else 1),
                            ("allow_tanyao_open", not bit(2)), ("speed_up", bit(6)), ("player_count", sc.n)):
            out.append(("record", "all", name, None, value))
        out.append(("record", "all", "using_tiles", sorted, sorted(wall)))
    elif ev == "taikyoku":
        for p in range(sc.n):
            player(p, "is_dealer", p == info["oya"])
    elif ev == "un":
        for p in info["who"]:
            player(p, "disconnected", False)
            player(p, "name", sc.names[p])
            player(p, "level", RANKS[sc.dan[p]])
            player(p, "extra_level", float(sc.rate[p]), float)
    elif ev == "init":
        number, honba, sticks = info["round"]
        game("wind", number // 4)
        game("round", number % 4)
        game("sub_round", honba)
        game("richii_remain_scores", sticks * 1000)
        for p in range(sc.n):
            player(p, "is_dealer", p == info["oya"])
    elif ev == "win":
        game("nobody_win", False)
        tsumo = info["who"] == info["source"]
        for p in range(sc.n):
            player(p, "is_win", p == info["who"])
            player(p, "is_discard_lose_game", not tsumo and p == info["source"])
        player(info["who"], "is_self_win", tsumo)
        for p in range(sc.n):       # a self-drawn win is paid by everybody
            part = tsumo or p in (info["who"], info["source"])
            player(p, "faans", sorted(YAKU[y] for y in info["yaku"]) if part else [], sorted)
    elif ev == "drawn":
        game("nobody_win", True)
        game("extra_reason", DRAW_NAMES[info["reason"]] if info["reason"] else "EXHAUSTED")
        for p in range(sc.n):
            player(p, "is_win", False)
            player(p, "is_discard_lose_game", False)
    if state is not None and state.deal >= 0:
        game("dora_indicators", [face(t) for t in state.indicators])
        for p in range(sc.n):
            player(p, "hand", faces(state.hands[p]), sorted)
            player(p, "discard_tiles", [face(t) for t in state.discards[p]])
            player(p, "discard_from_hand", list(state.from_hand[p]))
            player(p, "meld_public_tiles", faces(t for m in state.melds[p] for t in m.own), sorted)
            player(p, "fixed_meld", faces(t for m in state.melds[p] if m.kind != "kita" for t in m.own | m.taken), flat)
            player(p, "bonus_tiles", faces(state.bonus[p]), sorted)
            player(p, "in_richii", state.riichi[p] > 0)
            player(p, "score", state.scores[p] * 100)
            player(p, "round", len(state.discards[p]))
            player(p, "disconnected", not state.connected[p])
            player(p, "name", sc.names[p])
            player(p, "is_dealer", p == state_dealer(info, state))
        if state.final:
            finals, points = state.final
            ranking = sorted(range(sc.n), key=lambda p: (-finals[p], p))
            for p in range(sc.n):
                player(p, "final_score", finals[p] * 100)
                player(p, "final_point", points[p], float)
                player(p, "rank", ranking.index(p) + 1)
    return out


def state_dealer(info, state):
    return info["oya"] if info["ev"] == "init" else info.get("dealer_before", state.dealer)


def annotated(path):
    """The dealer a round was played with (the model already names the next one after an ending)."""
    out, oya = [], None
    for m in path:
        if m.info["ev"] == "init":
            oya = m.info["oya"]
        out.append(dict(m.info, dealer_before=oya))
    return out


def commands_of(sc, path):
    from mahjong.record.reader import TenhouRecord
    from mahjong.record.universe.tenhou import to_commands
    return to_commands(TenhouRecord(explore.document(sc, path)))


def expected_steps(sc, path):
    infos = annotated(path)
    head = explore.events_of(sc, [])
    return [(t, i, None) for t, _, i, _ in head] + [(m.tag, i, m.state) for m, i in zip(path, infos)]


def compare(values, sc, tag, info, state, position):
    for scope, seat, name, how, want in expectations(sc, info, state):
        if (scope, seat, name) not in values:
            raise Violation("after event %d <%s> %s %s has no value, on the table %r" % (position, tag, seat, name, want))
        got = values[(scope, seat, name)]
        if how is not None:
            got = how(got)
        if got != want:
            raise Violation("after event %d <%s> %s of %s is %r, on the table %r" % (position, tag, name, seat, got, want))


def check(ctx, sc, path):
    commands = commands_of(sc, path)
    steps = expected_steps(sc, path)
    ctx.traces += 1
    ctx.states += len(steps)
    ctx.transitions += len(commands)
    values, at = {}, 0
    for position, (tag, info, state) in enumerate(steps):
        while at < len(commands) and commands[at].timestamp == position:
            c = commands[at]
            at += 1
            name = c.property.name
            key = fold.key_of(c)
            try:
                values[key] = fold.step(values.get(key), name, c.update_method.name, c.value)
            except fold.Broken as exc:
                raise Violation("event %d <%s>: command %s cannot be carried out: %s" % (position, tag, c, exc))
            if c.state != values[key] and not (c.state != c.state and values[key] != values[key]):
                raise Violation("event %d <%s>: the state recorded on %s is %r, replay gives %r"
                                % (position, tag, name, c.state, values[key]))
            if c.event is None or c.event.name != kind_of(tag, name):
                raise Violation("event %d <%s>: the command for %s is of kind %s" % (position, tag, name, c.event))
        compare(values, sc, tag, info, state, position)
    if at != len(commands):
        raise Violation("command %d of %d is out of place: position %r" % (at, len(commands), commands[at].timestamp))


def executor(ctx, sc, path):
    from mahjong.record.universe.executor import GameExecutor
    from mahjong.record.universe.tenhou import to_command_records, to_commands
    from mahjong.record.reader import TenhouRecord
    check(ctx, sc, path)
    commands = commands_of(sc, path)
    steps = expected_steps(sc, path)
    ctx.traces += 1
    last = {}
    for c, state in zip(commands, GameExecutor().execute(commands)):
        last[c.timestamp] = state
    for position, (tag, info, model) in enumerate(steps):
        if position not in last:
            continue
        compare(plain(last[position]), sc, tag, info, model, position)
    record = TenhouRecord(explore.document(sc, path))
    raw = list(to_command_records(record, raw=True))
    if [norm(r) for r in raw] != [norm(c.to_raw_record()) for c in commands]:
        raise Violation("raw records differ from the commands")
    for c in to_commands(record, strict=True):
        pass


def norm(r):
    return [repr(x) if not isinstance(x, list) else sorted(map(repr, x)) for x in r]


def plain(state):
    out = {}
    for path, value in state.flatten_iter():
        scope = getattr(path[0], "name", path[0])
        if scope == "player":
            out[("player", getattr(path[1], "value", path[1]), path[-1].name)] = value
        elif scope in ("game", "record"):
            out[(scope, "all", path[-1].name)] = value
    return out


def type_scenario(n, code):
    deals = [decks.mixed()] if n == 4 else [decks.norths()]
    sc = basic(n, deals=deals)
    sc.go = code
    return sc


def types(ctx, n, i):
    for code in range(i, 1 << 11, 4):
        if bool(code >> 4 & 1) != (n == 3) or code >> 1 & 1:
            continue
        sc = type_scenario(n, code)
        ctx.case({"kind": "types", "n": n, "code": code}, check, ctx, sc, line(sc))


def no_red_types(ctx, n):
    """Games without red fives: the starting wall only (no tile is dealt by the model)."""
    from mahjong.record.utils.event import TenhouEvent
    from mahjong.record.universe.tenhou.xml_macher import tenhou_command
    for code in range(1 << 11):
        if bool(code >> 4 & 1) == (n == 3) and code >> 1 & 1:
            ctx.case({"kind": "wall", "n": n, "code": code}, no_red, ctx, n, code)


def no_red(ctx, n, code):
    from mahjong.record.reader import TenhouRecord
    from mahjong.record.universe.tenhou import to_commands
    sc = type_scenario(n, code)
    path = line(sc)
    wanted = expectations(sc, {"ev": "go"}, None)
    position = [t for t, _, _, _ in explore.events_of(sc, [])].index("GO")
    ctx.states += 1
    ctx.traces += 1
    for c in to_commands(TenhouRecord(explore.document(sc, path))):
        for scope, seat, name, how, want in wanted:
            if c.timestamp == position and c.property.name == name and (how(c.value) if how else c.value) != want:
                raise Violation("%s is %r, by the game type %r" % (name, c.value, want))


def yaku(ctx, attr):
    """Every hand pattern on its own and every neighbouring pair."""
    game = Game(basic(4, deals=[decks.opposed()]))
    game.sc.horizon = 6
    base = None
    for path in (p for sh in explore.shards([game.sc], {None: 1}) for p in explore.histories(game, sh)):
        if path[-1].info["ev"] == "win":
            base = path
            break
    for i in range(55):
        for extra in ((), ((i + 1) % 55,), ((i + 7) % 55, (i + 20) % 55)):
            ctx.case({"kind": "yaku", "attr": attr, "patterns": [i] + list(extra)}, one_yaku, ctx, game.sc, base, attr,
                     [i] + list(extra))


def one_yaku(ctx, sc, base, attr, patterns):
    from ..ref.table import Move
    last = base[-1]
    attrib = {k: v for k, v in last.attrib.items() if k not in ("yaku", "yakuman")}
    attrib[attr] = ",".join(str(x) for y in patterns for x in ([y] if attr == "yakuman" else [y, (y * 5) % 4]))
    path = base[:-1] + [Move(1, last.tag, attrib, dict(last.info, yaku=patterns), last.state)]
    check(ctx, sc, path)


def names(ctx, n):
    for shift in range(len(NAMES)):
        picked = [NAMES[(shift + 3 * p) % len(NAMES)] for p in range(n)]
        for i in range(21):
            sc = basic(n, names=picked, dan=[(i + p) % 21 for p in range(n)],
                       rate=[("1500.00", "2030", "-3.25", "0.00", "2999.99")[(i + p) % 5] for p in range(n)])
            ctx.case({"kind": "names", "n": n, "names": picked, "dan": i}, check, ctx, sc, line(sc))


def run_shard(ctx, shard):
    kind, a, b = shard
    if kind == "types":
        types(ctx, a, b)
        if b == 0:
            no_red_types(ctx, a)
    elif kind == "yaku":
        yaku(ctx, a)
    elif kind == "names":
        names(ctx, a)
    elif kind == "fives":
        for red in ("win", "held", "away"):
            for drawn in (0, 1):
                sc = fives(a, b, red, drawn)
                for part in explore.shards([sc], {None: 1}):
                    for path in explore.histories(Game(sc), part):
                        ctx.outcome("five won on: %s" % (path[-1].info["ev"] == "win" and path[-1].info["tile"] % 36 in range(16, 20)))
                        ctx.case({"kind": kind, "fives": [a, b, red, drawn], "moves": explore.choices_of(path)}, check, ctx, sc, path)
    elif kind == "comings":
        sc = comings(a[0], a[1])
        for part in b:
            for path in explore.histories(Game(sc), part):
                ctx.case({"kind": kind, "n": a[0], "draws": a[1], "moves": explore.choices_of(path)}, check, ctx, sc, path)
    else:
        scenarios = decks.scenarios(a)
        for part in b:
            sc = scenarios[part[0]]
            for path in explore.histories(Game(sc), part):
                ctx.sample([m.tag for m in path])
                ctx.case({"kind": kind, "size": a, "scenario": part[0], "moves": explore.choices_of(path)},
                         check if kind == "tree" else executor, ctx, sc, path)
                ctx.outcome(path[-1].info["ev"] + ":" + str(path[-1].info.get("reason")))


def replay(ctx, case):
    kind = case["kind"]
    if kind in ("tree", "executor"):
        sc = decks.scenarios(case["size"])[case["scenario"]]
        ctx.case(case, check if kind == "tree" else executor, ctx, sc, explore.find(Game(sc), case["moves"]))
    elif kind == "fives":
        sc = fives(*case["fives"])
        ctx.case(case, check, ctx, sc, explore.find(Game(sc), case["moves"]))
    elif kind == "comings":
        sc = comings(case["n"], case["draws"])
        ctx.case(case, check, ctx, sc, explore.find(Game(sc), case["moves"]))
    elif kind == "types":
        sc = type_scenario(case["n"], case["code"])
        ctx.case(case, check, ctx, sc, line(sc))
    elif kind == "wall":
        ctx.case(case, no_red, ctx, case["n"], case["code"])
    elif kind == "yaku":
        yaku(ctx, case["attr"])
    else:
        names(ctx, case["n"])
