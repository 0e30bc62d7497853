"""C27: the efficiency report judges every discard correctly."""
import itertools
import xml.etree.ElementTree as ET

from .. import reports
from ..core import Violation
from ..ref import codes, decks, explore, hands as H, report as R
from ..ref.table import Game, face, joined
from .c15 import basic

PROPERTY = "C27"
RULE = ("every concealed hand of bounded spaces (14 tiles, and 11 to 2 tiles beside closed kans) is one state, every discard of it one "
        "transition; each is put into a log whose report, read back, must give the reference judgement of that discard; further, every "
        "history of the reference table within the deviation budget is reported (hand analysis replaced by reference answers)")
BOUNDS = {"quick": "all 2-tile hands of 18 kinds beside four kans, all 5-tile hands of one suit beside three, 8-tile hands over 5 kinds, "
                   "11-tile hands over 4, 60 hands of 14 tiles; five different sets of seen tiles; every discard; red fives; "
                   "19 scenarios (16 with two short deals, 2 whole rounds to the last tile) with one deviation",
          "thorough": "larger alphabets; two deviations"}
ASSUMPTIONS = ["the step of a hand looks at the concealed tiles only (as C03)", "tied shapes count the tiles useful for either",
               "an alternative that is listed must be true; the best ones must be listed"]

FULL_HANDS = """123456789m12345p 2345678p2345777s 11223344556677s 1122334455667m8p 19m19p19s11234567z 1133m5577p1133s57z
1122m3344p5566s77z 1123m3344p5566s77z 1122m334p5566s777z 111222333m44455p 1123345567789m1z 1247m25588p3569s1z
1199m1199p1199s12z 2223334445556m7s 23m567p234s777z111s 111m111p111s11122z 13579m13579p1357s 1112345678999m9p
111234m567p99s678s 55667788m556677p 112233m112233p12s 0m0p0s55m55p55s11223z 444m444p444s4455z1s 22334455667788p
1234567z1234567z 123m123p123s12344z 3334445556667s8s 666777888999s1z2z 33m44m55m66p77p88s99s 1122m3344p556s789s
055m055p05s123456z 1111m2222m3333m44m 1111z2222z3333z44z 550m067p234s1177z5s 1122336m44p5577s9s 1155m1155p1155s56z
2244668m224466p8p 1188m2277p3366s45z 112233445566m1p2p 1111223344556m9s 999m888p777s66655z 12m45p78s12345z678m
1111m2345p2345s77z 334455m334455p67s 11m22m33p44p55s66s12z 1223334444m5556p 0m55m678p1134s2233z 1122m1122p1122s12z
3344m5566p7788s11z 11335577m11335z5z 2m4m6m8m2p4p6p8p2s4s6s8s11z 123m456p78s112233z 77788m99p123s4566z
1112223334445m9m 23456m234567p8s99s 334m556p778s11223z 1m1m2m2m3m3m4m4m5m5m6m7m8m9m 5567m5567p5567s11z"""


def parse(text):
    """Notation -> tile numbers, red fives as 0, lowest copies first."""
    taken, out, digits = set(), [], []
    for ch in text:
        if ch.isdigit():
            digits.append(ch)
            continue
        for d in digits:
            base = H.INDEX[("5" if d == "0" else d) + ch] * 4
            copies = [base + i for i in range(4)]
            if ch != "z" and d in "05":
                copies = copies[:1] if d == "0" else copies[1:] + copies[:1]
            free = next((c for c in copies if c not in taken), None)
            if free is None:
                return None
            taken.add(free)
            out.append(free)
        digits = []
    return out


class Round:
    """One discard of `who` with a concealed hand, closed kans laid out before, and a choice of seen tiles."""

    def __init__(self, hand, kans, choice, setting, n=4):
        self.hand, self.kans, self.choice, self.setting, self.n = list(hand), list(kans), choice, setting, n

    def key(self):
        return {"hand": sorted(self.hand), "kans": self.kans, "choice": self.choice, "setting": self.setting, "n": self.n}


def build(rnd, number, who):
    """(events, Row): the round as a log part."""
    n, setting = rnd.n, rnd.setting
    mine = set(rnd.hand) | {4 * k + i for k in rnd.kans for i in range(4)}
    free = sorted(R.POOL[n] - mine, key=lambda t: (t * 53 + 7 * number) % 136)
    wanted = []
    if setting:                                  # tiles the analysis waits for are shown
        shape = ("normal", 4 - len(rnd.kans))
        counts = [0] * 34
        for t in rnd.hand:
            counts[t // 4] += 1
        kinds = set()
        for k in range(34):
            if counts[k] and (setting == 4 or k == rnd.choice // 4):
                counts[k] -= 1
                kinds |= R.cached_useful(shape, counts)[1]
                counts[k] += 1
        wanted = [t for t in free if t // 4 in kinds]
    room = min(len(free) - 13 * (n - 1) - 1 - len(rnd.kans), 52)
    front = wanted[:min((0, 1, 4, room, room)[setting], room)]
    free = front + [t for t in free if t not in set(front)]
    events, visible = [], set()
    first, free = free[0], free[1:]              # indicator
    visible.add(first)
    others = [p for p in range(n) if p != who]
    melds = []
    # the tiles drawn by the player: one, and one after each kan
    hand_list = sorted(rnd.hand)
    own_draws = [hand_list[-1]]
    kan_tiles = [[4 * k + i for i in range(4)] for k in rnd.kans]
    # deal the player every kan and the rest of the hand, up to 13; the others of the hand are drawn
    rest = [t for t in hand_list if t != own_draws[0]]
    start = [t for kan in kan_tiles for t in kan] + rest
    late = own_draws
    while len(start) > 13:
        late.insert(0, start.pop())
    # enough others' discards before the player's turn to show the wanted tiles
    turns = [t for t in front if t != first]
    deals = {p: [] for p in others}
    show = {p: [] for p in others}
    for i, t in enumerate(turns):
        show[others[i % len(others)]].append(t)
    free = [t for t in free if t not in set(turns)]
    for p in others:
        deals[p] = [free.pop() for _ in range(13)]
    attrib = {"seed": joined([number % 12, 0, 0, 1, 2, first]), "ten": joined([250] * n + [0] * (4 - n)),
              "oya": str(who)}
    for p in range(4):
        attrib["hai%d" % p] = joined(start if p == who else deals[p]) if p < n else ""
    events.append(("INIT", attrib))
    for p in others:                             # the order of turns does not matter to the report
        for t in show[p]:
            events.append(("%s%d" % ("TUVW"[p], t), {}))
            events.append(("%s%d" % ("DEFG"[p], t), {}))
            visible.add(t)
    for k, kan in zip(rnd.kans, kan_tiles):
        # draw until the whole kan is in hand
        events.append(("%s%d" % ("TUVW"[who], late.pop(0)), {}))
        events.append(("N", {"who": str(who), "m": str(codes.encode(codes.make_ankan(who, min(kan))))}))
        visible.update(kan)
        melds.append(kan)
        indicator = free.pop()
        events.append(("DORA", {"hai": str(indicator)}))
        visible.add(indicator)
    for t in late:
        events.append(("%s%d" % ("TUVW"[who], t), {}))
    events.append(("%s%d" % ("DEFG"[who], rnd.choice), {}))
    row = R.Row(rnd.hand, melds, visible, rnd.choice, False, n)
    return events, row


def document(rounds):
    """A record of these rounds (all with the same number of seats), seat 0 judged."""
    n = rounds[0].n
    sc = basic(n)
    from ..ref.table import header
    root = ET.Element("mjloggm", {"ver": "2.3"})
    for tag, attrib, _ in header(sc):
        ET.SubElement(root, tag, dict(attrib))
    rows = []
    for i, rnd in enumerate(rounds):
        events, row = build(rnd, i, 0)
        for tag, attrib in events:
            ET.SubElement(root, tag, dict(attrib))
        ending = {"ba": "0,0", "sc": joined([250, 0] * n + [0, 0] * (4 - n))}
        if i == len(rounds) - 1:
            ending["owari"] = joined([250, 0.0] * n + [0, 0] * (4 - n))
        ET.SubElement(root, "RYUUKYOKU", ending)
        rows.append([row])
    return root, rows


def judge(ctx, rounds):
    root, want = document(rounds)
    got = reports.sections(reports.produce(root, 0))
    compare(ctx, got, want, "")


def compare(ctx, got, want, where):
    if [len(r) for _, r in got] != [len(r) for r in want]:
        raise Violation("%s%s rows instead of %s" % (where, [len(r) for _, r in got], [len(r) for r in want]))
    ctx.traces += 1
    for (_, rows), expected in zip(got, want):
        for row, w in zip(rows, expected):
            j = reports.judge(where, row, w)
            ctx.states += 1
            ctx.transitions += len(j.overall)
            ctx.outcome("step %d, best step %d" % (j.choice[0], j.top[0]))


def together(ctx, rounds):
    """Many rounds in one record; when something is wrong, one by one to name the round."""
    try:
        judge(ctx, rounds)
    except Exception:
        before = len(ctx.violations)
        for rnd in rounds:
            ctx.case({"rounds": [rnd.key()]}, judge, ctx, [rnd])
        if len(ctx.violations) == before:
            ctx.case({"rounds": [r.key() for r in rounds]}, judge, ctx, rounds)


def hands_of(kinds, total, cap, kans):
    """Tile numbers of every hand over the kinds (kans use kinds of their own)."""
    for combo in itertools.combinations_with_replacement(kinds, total):
        if all(combo.count(k) <= cap for k in set(combo)):
            seen = {}
            out = []
            for k in combo:
                i = seen.get(k, 0)
                seen[k] = i + 1
                out.append(4 * k + (i if sum(combo) % 2 else 3 - i))
            yield out


SPACES = {
    "quick": [("two", [0, 1, 8, 9, 12, 17, 18, 21, 22, 26, 27, 29, 30, 31, 33], 2, 4, [5, 14, 24, 28]),
              ("five m", list(range(9)), 5, 4, [9, 20, 33]), ("five s", list(range(18, 27)), 5, 2, [22 - 9, 30, 0]),
              ("five z", list(range(27, 34)), 5, 3, [0, 13, 26]), ("five mixed", [0, 1, 8, 9, 26, 27, 33], 5, 2, [2, 10, 25]),
              ("eight p", [10, 11, 12, 13, 15], 8, 3, [9, 33]), ("eight mixed", [7, 8, 9, 10, 27, 28], 8, 2, [6, 11]),
              ("eleven", [19, 20, 21, 22, 24], 11, 3, [26])],
    "thorough": [("two", list(range(34)), 2, 4, []), ("five m", list(range(9)), 5, 4, [9, 20, 33]),
                 ("five p", list(range(9, 18)), 5, 4, [0, 20, 33]), ("five s", list(range(18, 27)), 5, 4, [13, 30, 0]),
                 ("five z", list(range(27, 34)), 5, 4, [0, 13, 26]),
                 ("five mixed", [0, 1, 7, 8, 9, 17, 18, 26, 27, 33], 5, 3, [2, 11, 25]),
                 ("eight p", list(range(9, 18)), 8, 2, [0, 33]), ("eight mixed", [7, 8, 9, 10, 26, 27, 28], 8, 3, [6, 11]),
                 ("eleven", [18, 19, 20, 21, 22, 24], 11, 3, [26]), ("eleven mixed", [0, 1, 2, 9, 10, 27], 11, 3, [20])],
}
PARTS = 12


def shards(tier):
    out = [("full", i, None) for i in range(len(FULL_HANDS.split()))]
    out += [("space", i, part) for i in range(len(SPACES[tier])) for part in range(PARTS)]
    out += [("tree", "small", b) for b in explore.packed(decks.scenarios("small"), {None: 1 if tier == "quick" else 2}, 10)]
    return out


def choices(hand):
    """One tile number per kind of tile, red fives apart."""
    seen = set()
    for t in sorted(hand):
        if face(t) not in seen:
            seen.add(face(t))
            yield t


def run_tree(ctx, sc, path, seats):
    root = explore.document(sc, path)
    with reports.known_answers():
        for who in seats:
            compare(ctx, reports.sections(reports.produce(root, who)), R.rows_of(sc, path, who), "seat %d: " % who)


def run_shard(ctx, shard):
    kind, i, part = shard
    if kind == "full":
        text = FULL_HANDS.split()[i]
        hand = parse(text)
        assert hand is not None and len(hand) == 14, text
        rounds = []
        for j, t in enumerate(choices(hand)):
            rounds.append(Round(hand, [], t, (i + j) % 5, 3 if i % 5 == 4 and all(u in R.POOL[3] for u in hand) else 4))
        together(ctx, rounds)
        ctx.sample({"hand": text})
    elif kind == "space":
        name, kinds, total, cap, kans = SPACES[ctx.tier][i]
        batch = []
        for j, hand in enumerate(hands_of(kinds, total, cap, kans)):
            if j % PARTS != part:
                continue
            used = kans or [k for k in (5, 14, 24, 28, 2, 33) if all(t // 4 != k for t in hand)][:4]
            for c, t in enumerate(choices(hand)):
                batch.append(Round(hand, used, t, (j // PARTS + c) % 5))
            if len(batch) >= 24:
                together(ctx, batch)
                batch = []
        if batch:
            together(ctx, batch)
        ctx.sample({"space": name, "last_hand": sorted(hand)})
    else:
        scenarios = decks.scenarios(i)
        for one in part:
            sc = scenarios[one[0]]
            for path in explore.histories(Game(sc), one):
                ctx.case({"size": i, "scenario": one[0], "name": sc.name, "choices": explore.choices_of(path)},
                         run_tree, ctx, sc, path, range(sc.n))


def replay(ctx, case_):
    if "rounds" in case_:
        judge(ctx, [Round(r["hand"], r["kans"], r["choice"], r["setting"], r["n"]) for r in case_["rounds"]])
    else:
        sc = decks.scenarios(case_["size"])[case_["scenario"]]
        run_tree(ctx, sc, explore.find(Game(sc), case_["choices"]), range(sc.n))
