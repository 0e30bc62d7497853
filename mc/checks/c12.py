"""C12: every game-type code decodes to its rules."""
from ..core import Violation

PROPERTY = "C12"
RULE = ("every 16-bit code is a model state decoded by the reference bit table; each single-bit change of a code is a "
        "transition to a neighbouring code, and equality of the two is decided by whether the bit carries a rule; all "
        "pairs of rule sets are compared as well")
BOUNDS = {"quick": "complete: all 65536 codes as number and text, all single-bit neighbours, all pairs of the 1024 rule "
                   "codes", "thorough": "same, with two different fillings of the unused bits in the pairs"}
ASSUMPTIONS = ["whether a game without tips that has the five-tips bit set equals one that has it clear is left open"]

LEVELS, TIP_LEVELS = "般上特鳳", "若銀琥孔"
USED = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10]
UNUSED = [0, 11, 12, 13, 14, 15]


def reference(code):
    bit = lambda i: bool(code >> i & 1)
    tips = bit(9)
    level = (2 if bit(5) else 0) + (1 if bit(7) else 0)
    rules = {
        "player_count": 3 if bit(4) else 4, "has_aka_dora": not bit(1), "allow_tanyao_open": not bit(2),
        "play_level": level, "play_wind_count": 2 if bit(3) else 1, "speed_up": bit(6),
        "show_discard_shadow": bit(8), "with_tips": tips, "tips_count": (5 if bit(10) else 2) if tips else 0,
    }
    rules["main_game_count"] = rules["player_count"] * rules["play_wind_count"]
    name = ("三" if bit(4) else "四") + (TIP_LEVELS if tips else LEVELS)[level] + ("南" if bit(3) else "東")
    name += ("" if bit(2) else "喰") + ("" if bit(1) else "赤") + ("速" if bit(6) else "") + ("暗" if bit(8) else "")
    name += "祝%d" % rules["tips_count"] if tips else ""
    return rules, name


def shards(tier):
    out = [("codes", i, i + 1024) for i in range(0, 65536, 1024)]
    fills = (0, 0xF801) if tier == "quick" else (0, 0xF801, 0x5000)
    out += [("pairs", i, f) for i in range(0, 1024, 16) for f in fills]
    return out


def decode(ctx, code):
    from mahjong.record.utils.value.gametype import GameType
    rules, name = reference(code)
    for form in (code, str(code)):
        got = GameType(form)
        ctx.traces += 1
        for field, value in rules.items():
            actual = getattr(got, field)()
            if actual != value:
                raise Violation("%s is %r, bits say %r" % (field, actual, value), code=code)
        if str(got) != name:
            raise Violation("named %r, bits say %r" % (str(got), name), code=code)
    for i in range(16):
        other = GameType(code ^ 1 << i)
        ctx.transitions += 1
        if i == 10 and not rules["with_tips"]:
            continue
        if (got == other) is not (i in UNUSED) or (got != other) is (i in UNUSED):
            raise Violation("== is %r for codes that differ in bit %d" % (got == other, i), code=code)


def same_rules(ctx, x, y):
    from mahjong.record.utils.value.gametype import GameType
    a, b = GameType(x), GameType(str(y))
    ctx.traces += 1
    mask = 0x3FE if not x >> 9 & 1 and not y >> 9 & 1 else 0x7FE
    same = x & mask == y & mask
    if same and x & 0x7FE != y & 0x7FE:
        return
    if (a == b) is not same:
        raise Violation("== is %r" % (a == b,), codes=[x, y])


def run_shard(ctx, shard):
    kind, start, stop = shard
    if kind == "codes":
        for code in range(start, stop):
            ctx.states += 1
            ctx.case({"code": code}, decode, ctx, code)
        ctx.sample({"code": code, "rules": reference(code)[0], "name": reference(code)[1]})
    else:
        for x in range(start, start + 16):
            for y in range(1024):
                ctx.transitions += 1
                pair = (x << 1 | stop & 0xF801, y << 1)
                ctx.case({"pair": pair}, same_rules, ctx, *pair)


def replay(ctx, case):
    if "code" in case:
        decode(ctx, case["code"])
    else:
        same_rules(ctx, *case["pair"])
