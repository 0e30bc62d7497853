"""Reference model of a riichi table (three or four seats) that emits tenhou-log events.

A state is an immutable record of everything on the table; moves(s) lists every event that may come next, with the
state it leads to.  Moves carry a cost: 0 for the default line (draw, discard the drawn tile, nobody calls), 1 for a
deviation, so that a cost budget bounds the explored tree.  Nothing here uses the code under test.

Histories are cut after `horizon` draws: the round is then ended by an exhaustive draw (a legal record has more draws
before that, but no property depends on how many).
"""
from functools import lru_cache
from itertools import combinations
import urllib.parse

from . import codes
from . import hands as H

DRAW, DISCARD = "TUVW", "DEFG"
REDS = {16: "0m", 52: "0p", 88: "0s"}
RANKS = ['新人', '9級', '8級', '7級', '6級', '5級', '4級', '3級', '2級', '1級', '初段', '二段', '三段', '四段', '五段',
         '六段', '七段', '八段', '九段', '十段', '天鳳位']
DRAW_NAMES = {"kaze4": "四風連打", "yao9": "九種九牌", "ron3": "三家和了", "reach4": "四家立直", "kan4": "四槓散了",
              "nm": "流局滿貫"}


def face(t):
    """How tile number t is written."""
    return REDS.get(t) or H.NAME[t // 4]


def order(t):
    return t // 4, t


# ------------------------------------------------------------------------------------------------ hands
@lru_cache(None)
def _melds_only(counts):
    """Can these counts (one group; honours have 7 entries) be split into melds only?"""
    for i, c in enumerate(counts):
        if c:
            rest = list(counts)
            if c >= 3:
                rest[i] -= 3
                if _melds_only(tuple(rest)):
                    return True
                rest[i] += 3
            if len(counts) == 9 and i <= 6 and counts[i + 1] and counts[i + 2]:
                for j in (i, i + 1, i + 2):
                    rest[j] -= 1
                return _melds_only(tuple(rest))
            return False
    return True


@lru_cache(None)
def _melds_and_pair(counts):
    for i, c in enumerate(counts):
        if c >= 2:
            rest = list(counts)
            rest[i] -= 2
            if _melds_only(tuple(rest)):
                return True
    return False


@lru_cache(1 << 18)
def complete(kinds):
    """kinds: sorted tuple of the kinds of a concealed hand of 3m + 2 tiles."""
    groups = [[0] * size for _, size in H.GROUPS]
    for k in kinds:
        g = H.group_of(k)
        groups[g][k - H.GROUPS[g][0]] += 1
    odd = [i for i, g in enumerate(groups) if sum(g) % 3 == 2]
    if len(kinds) == 14 and len(set(kinds)) == 7 and all(kinds.count(k) == 2 for k in set(kinds)):
        return True
    if len(odd) != 1 or any(sum(g) % 3 == 1 for g in groups):
        return False
    return all((_melds_and_pair if i in odd else _melds_only)(tuple(g)) for i, g in enumerate(groups))


@lru_cache(1 << 18)
def waits(kinds):
    """Kinds that complete a concealed hand of 3m + 1 tiles."""
    return frozenset(k for k in range(34) if kinds.count(k) < 4 and complete(tuple(sorted(kinds + (k,)))))


def kinds_of(tiles):
    return tuple(sorted(t // 4 for t in tiles))


# ------------------------------------------------------------------------------------------------ scenarios
class Deal:
    """hands: one notation string per seat; wall, dead (replacement draws), indicators: notation, in order.
    '5m' takes plain fives first, '0m' the red one; other kinds take the lowest free copy, a trailing + (as in '1m+')
    the highest free copy."""

    def __init__(self, hands, wall, dead="", indicators="", used=()):
        self.taken = set(used)
        # the wall takes the lowest copies, so that tile number 0 and red fives can be drawn and discarded
        self.wall = tuple(self.take(wall))
        self.dead = tuple(self.take(dead))
        self.indicators = tuple(self.take(indicators))
        self.hands = [frozenset(self.take(h)) for h in hands]
        assert all(len(h) == 13 for h in self.hands), [len(h) for h in self.hands]

    def take(self, text):
        out, digits = [], []
        i = 0
        while i < len(text):
            ch = text[i]
            if ch.isdigit():
                digits.append(ch)
            elif ch in "mpsz":
                top = text[i + 1:i + 2] == "+"
                for d in digits:
                    out.append(self.one(d, ch, top))
                digits = []
            i += 1
        return out

    def one(self, digit, suit, top):
        base = H.INDEX[("5" if digit == "0" else digit) + suit] * 4
        copies = [base + i for i in range(4)]
        if digit == "0":
            copies = copies[:1]
        elif digit == "5" and suit != "z":
            copies = copies[1:] + copies[:1]
        elif top:
            copies.reverse()
        for c in copies:
            if c not in self.taken:
                self.taken.add(c)
                return c
        raise ValueError("no copy of %s%s left" % (digit, suit))


class Scenario:
    def __init__(self, name, n, go, deals, horizon, names=None, dan=None, rate=None, sex=None, ten=None, start=(0, 0, 0),
                 discards="few", conn=None, kan_dora="after", shuffle=True, lobby="0", points=True, ends=(), calls=True,
                 riichi=True, script=(), limit=9,
                 spelling=0, triple=False):
        self.name, self.n, self.go, self.deals, self.horizon = name, n, go, deals, horizon
        self.names = names or ["東家", "南 家", "%E8", "ﾎｸ<b>"][:n]
        self.dan = dan or [16, 17, 0, 20][:n]
        self.rate = rate or ["2185.17", "1500.00", "1499.5", "2030"][:n]
        self.sex = sex or ["M", "F", "C", "M"][:n]
        self.ten = ten or ([250] * 4 if n == 4 else [350] * 3)
        self.start = start                   # round number, honba, sticks
        self.discards, self.conn, self.kan_dora = discards, conn, kan_dora
        self.shuffle, self.lobby, self.points, self.ends = shuffle, lobby, points, ends
        self.calls, self.riichi = calls, riichi
        self.limit = limit                   # no more deviations than this
        self.spelling = spelling
        self.triple = triple                 # three winners on one discard all win (else the round is drawn)
        self.script = tuple(script)          # (event, kind of call or tile, seat or None): made the default line in turn


def quote(name, spelling=0):
    """Percent encoding: of every byte, in small letters, of what a link cannot hold, of what a query cannot, of hardly anything."""
    if spelling < 2:
        return "".join(("%%%02X", "%%%02x")[spelling] % b for b in name.encode("utf-8"))
    if spelling < 4:
        return urllib.parse.quote(name, safe=("", "!#$&'()*+,/:;=?@~")[spelling - 2])
    return name.replace("%", "%25")


def joined(values):
    return ",".join(str(v) for v in values)


def header(sc):
    """Header events as (tag, attributes, info)."""
    pad = 4 - sc.n
    events = []
    if sc.shuffle:
        seed = "mt19937ar-sha512-n288-base64,%s" % quote(sc.name)
        events.append(("SHUFFLE", {"seed": seed, "ref": ""}, {"ev": "shuffle", "seed": seed}))
    go = {"type": str(sc.go)}
    if sc.lobby is not None:
        go["lobby"] = sc.lobby
    events.append(("GO", go, {"ev": "go"}))
    un = {"n%d" % i: quote(name, sc.spelling) for i, name in enumerate(sc.names)}
    un.update({"n%d" % i: "" for i in range(sc.n, 4)})
    un["dan"] = joined(list(sc.dan) + [0] * pad)
    un["rate"] = joined(list(sc.rate) + ["1500.00"] * pad)
    un["sx"] = joined(list(sc.sex) + ["C"] * pad)
    events.append(("UN", un, {"ev": "un", "who": list(range(sc.n)), "full": True}))
    dealer = sc.start[0] % 4
    events.append(("TAIKYOKU", {"oya": str(dealer)}, {"ev": "taikyoku", "oya": dealer}))
    return events


# ------------------------------------------------------------------------------------------------ table states
FIELDS = ("phase", "deal", "hands", "melds", "discards", "from_hand", "riichi", "scores", "indicators", "turned",
          "drawn", "draws", "dead", "wall", "round", "dealer", "pending", "calls", "connected", "bonus", "visible",
          "ended", "first", "kans", "final", "step")


class Table:
    __slots__ = FIELDS

    def __init__(self, **kw):
        for k in FIELDS:
            setattr(self, k, kw[k])

    def but(self, **kw):
        new = Table.__new__(Table)
        for k in FIELDS:
            setattr(new, k, kw[k] if k in kw else getattr(self, k))
        return new


def put(tup, i, value):
    return tup[:i] + (value,) + tup[i + 1:]


def opening(sc):
    n = sc.n
    return Table(phase=("init",), deal=-1, hands=(frozenset(),) * n, melds=((),) * n, discards=((),) * n,
                 from_hand=((),) * n, riichi=(0,) * n, scores=tuple(sc.ten), indicators=(), turned=0,
                 drawn=None, draws=0, dead=(), wall=(), round=tuple(sc.start), dealer=sc.start[0] % 4, pending=0,
                 calls=0, connected=(True,) * n, bonus=((),) * n, visible=frozenset(), ended=False, first=(True,) * n,
                 kans=(), final=None, step=0)


class Meld:
    """One call as it lies on the table."""
    __slots__ = ("kind", "own", "taken", "source", "detail")

    def __init__(self, kind, own, taken, source, detail):
        self.kind, self.own, self.taken, self.source, self.detail = kind, own, taken, source, detail

    def key(self):
        return self.kind, tuple(sorted(self.own)), tuple(sorted(self.taken)), self.source

    def __repr__(self):
        return repr(self.key())


class Move:
    __slots__ = ("cost", "tag", "attrib", "info", "state", "number")

    def __init__(self, cost, tag, attrib, info, state):
        self.cost, self.tag, self.attrib, self.info, self.state = cost, tag, attrib, info, state


class Game:
    def __init__(self, sc):
        self.sc = sc
        self.n = sc.n

    # --------------------------------------------------------------------------------- helpers
    @staticmethod
    def scripted(info, item):
        ev, what, who = item
        if info["ev"] != ev or (who is not None and info.get("who") != who):
            return False
        if what is None:
            return True
        if ev == "call":
            return info["kind"] == what
        if ev == "win":
            return info["others"] == what
        return H.NAME[info["tile"] // 4] == what

    def waits(self, s, p):
        return waits(kinds_of(s.hands[p]))

    def size_ok(self, s, p):
        return len(s.hands[p]) % 3 == 1

    def furiten(self, s, p, kinds):
        return any(t // 4 in kinds for t in s.discards[p])

    def fixed(self, s, p):
        return [m for m in s.melds[p] if m.kind != "kita"]

    def closed(self, s, p):
        return all(m.kind in ("ankan", "kita") for m in s.melds[p])

    def pad(self, values, fill=0):
        return list(values) + [fill] * (4 - self.n)

    # --------------------------------------------------------------------------------- moves
    def moves(self, s):
        kind = s.phase[0]
        out = getattr(self, "at_" + kind)(s)
        if s.step < len(self.sc.script):
            for m in out:
                if self.scripted(m.info, self.sc.script[s.step]):
                    for other in out:
                        other.cost = 1
                    m.cost = 0
                    m.state = m.state.but(step=s.step + 1)
                    break
        if kind != "over" and self.sc.conn is not None:
            for p in self.sc.conn if isinstance(self.sc.conn, tuple) else (self.sc.conn,):
                if s.connected[p]:
                    out.append(Move(1, "BYE", {"who": str(p)}, {"ev": "bye", "who": p},
                                    s.but(connected=put(s.connected, p, False))))
                else:
                    out.append(Move(1, "UN", {"n%d" % p: quote(self.sc.names[p], self.sc.spelling)},
                                    {"ev": "un", "who": [p], "full": False}, s.but(connected=put(s.connected, p, True))))
        for i, m in enumerate(out):
            m.number = i
        return out

    def at_init(self, s):
        k = s.deal + 1
        deal, n = self.sc.deals[k], self.n
        first = deal.indicators[0]
        attrib = {"seed": joined(list(s.round) + [k % 6, (k + 3) % 6, first]), "ten": joined(self.pad(s.scores)),
                  "oya": str(s.dealer)}
        for p in range(4):
            attrib["hai%d" % p] = joined(self.scramble(deal.hands[p])) if p < n else ""
        new = s.but(phase=("claim", (s.dealer - 1) % n, None), deal=k, hands=tuple(deal.hands), melds=((),) * n,
                    discards=((),) * n, from_hand=((),) * n, riichi=(0,) * n, indicators=(first,), drawn=None, draws=0,
                    dead=deal.dead, wall=deal.wall, pending=0, calls=0, bonus=((),) * n, visible=frozenset((first,)),
                    first=(True,) * n, kans=(), turned=1)
        return [Move(0, "INIT", attrib, {"ev": "init", "oya": s.dealer, "round": s.round, "dora": first,
                                         "scores": s.scores}, new)]

    @staticmethod
    def scramble(hand):
        return sorted(hand, key=lambda t: (t * 37 % 136))

    def draw(self, s, p, dead=False):
        if dead:
            tile, rest = s.dead[0], dict(dead=s.dead[1:])
        else:
            tile, rest = s.wall[0], dict(wall=s.wall[1:])
        new = s.but(hands=put(s.hands, p, s.hands[p] | {tile}), drawn=tile, draws=s.draws + 1,
                    phase=("act", p, True), **rest)
        return Move(0, "%s%d" % (DRAW[p], tile), {}, {"ev": "draw", "who": p, "tile": tile}, new)

    def discard(self, s, p, tile, cost, declare=False):
        new = s.but(hands=put(s.hands, p, s.hands[p] - {tile}), discards=put(s.discards, p, s.discards[p] + (tile,)),
                    from_hand=put(s.from_hand, p, s.from_hand[p] + (tile != s.drawn,)), drawn=None,
                    visible=s.visible | {tile}, phase=("react", p, tile, declare), first=put(s.first, p, False))
        return Move(cost, "%s%d" % (DISCARD[p], tile), {}, {"ev": "discard", "who": p, "tile": tile,
                                                              "from_hand": tile != s.drawn}, new)

    def choices(self, s, p):
        """Discards other than the drawn tile."""
        hand = sorted(s.hands[p])
        rest = [t for t in hand if t != s.drawn]
        if self.sc.discards == "all":
            return rest
        if self.sc.discards == "kinds":
            seen, out = set(), []
            for t in rest:
                if face(t) not in seen:
                    seen.add(face(t))
                    out.append(t)
            return out
        if not rest or self.sc.discards == "none":
            return []
        picks = [rest[0], rest[-1]] + [t for t in rest if t in REDS]
        picks += [t for t in rest if sum(1 for u in rest if u // 4 == t // 4) >= 2][:1]
        return sorted(set(picks))

    def at_act(self, s):
        _, p, drew = s.phase
        out = []
        hand = s.hands[p]
        in_riichi = s.riichi[p] == 2
        if drew:
            out.append(self.discard(s, p, s.drawn, 0))
            if complete(kinds_of(hand)) and len(hand) % 3 == 2:
                out.append(self.win(s, p, p, s.drawn, 1, (), 0))
        default = 0 if not drew else 1
        if not in_riichi:
            for i, t in enumerate(self.choices(s, p)):
                out.append(self.discard(s, p, t, 0 if default == 0 and i == 0 else 1))
        if drew and self.n == 3 and s.dead:
            for t in sorted(hand)[::-1]:
                if t // 4 == 30:
                    out.append(self.call(s, p, codes.make_kita(p, t), 1))
                    break
        if drew and self.sc.calls and s.dead and not in_riichi and sum(s.kans) < 4:
            for k in sorted({t // 4 for t in hand}):
                same = [t for t in hand if t // 4 == k]
                if len(same) == 4:
                    out.append(self.call(s, p, codes.make_ankan(p, min(same)), 1))
                for m in s.melds[p]:
                    if m.kind == "pon" and next(iter(m.own)) // 4 == k and len(same) == 1:
                        c = codes.make_addkan(p, m.detail["kui"], same[0],
                                              sorted(list(m.own) + list(m.taken)).index(next(iter(m.taken))))
                        out.append(self.call(s, p, c, 1))
        if drew and self.sc.riichi and not in_riichi and self.closed(s, p) and len(hand) % 3 == 2 and s.scores[p] >= 10:
            if any(waits(kinds_of(hand - {t})) for t in hand):
                out.append(Move(1, "REACH", {"who": str(p), "step": "1"}, {"ev": "reach1", "who": p},
                                s.but(riichi=put(s.riichi, p, 1), phase=("declare", p))))
        if drew and s.first[p] and s.calls == 0 and self.n == 4:
            if len({t // 4 for t in hand if t // 4 >= 27 or t // 4 % 9 in (0, 8)}) >= 9:
                out.append(self.no_winner(s, "yao9", 1, [p]))
        return out

    def at_declare(self, s):
        p = s.phase[1]
        hand = s.hands[p]
        good = [t for t in sorted(hand) if waits(kinds_of(hand - {t}))]
        if s.drawn in good:
            good.remove(s.drawn)
            good.insert(0, s.drawn)
        return [self.discard(s, p, t, 0 if i == 0 else 1, True) for i, t in enumerate(good[:4])]

    def at_react(self, s):
        _, p, tile, declare = s.phase
        out = []
        if declare:
            scores = put(s.scores, p, s.scores[p] - 10)
            r = s.round
            new = s.but(scores=scores, riichi=put(s.riichi, p, 2), round=(r[0], r[1], r[2] + 1), phase=("claim", p, tile))
            out.append(Move(0, "REACH", {"who": str(p), "ten": joined(self.pad(scores)), "step": "2"},
                            {"ev": "reach2", "who": p}, new))
        else:
            out.extend(self.at_claim(s.but(phase=("claim", p, tile))))
        out.extend(self.rons(s, p, tile))
        return out

    def rons(self, s, p, tile):
        able = []
        for i in range(1, self.n):
            q = (p + i) % self.n
            if len(s.hands[q]) % 3 == 1:
                w = self.waits(s, q)
                if tile // 4 in w and not self.furiten(s, q, w):
                    able.append(q)
        out = []
        for size in (1, 2, 3) if self.sc.triple else (1, 2):
            for group in combinations(able, size):
                out.append(self.win(s, group[0], p, tile, 1, group[1:], 0))
        if len(able) == 3 and self.n == 4 and not self.sc.triple:
            out.append(self.no_winner(s, "ron3", 1, able))
        return out

    def at_claim(self, s):
        _, p, tile = s.phase
        n = self.n
        if s.pending and s.turned < len(self.sc.deals[s.deal].indicators):
            return [self.new_dora(s, s.phase)]
        nxt = (p + 1) % n
        out = []
        if tile is not None:
            special = self.special(s)
            if special:
                return [special]
        if s.draws >= self.sc.horizon or not s.wall:
            tenpai = [q for q in range(n) if len(s.hands[q]) % 3 == 1 and self.waits(s, q)]
            out.append(self.no_winner(s, None, 0, tenpai))
            if tile is not None and "nm" in self.sc.ends:
                out.append(self.no_winner(s, "nm", 1, tenpai))
            return out
        out.append(self.draw(s, nxt))
        if tile is None or not self.sc.calls:
            return out
        for i in range(1, n):
            q = (p + i) % n
            if s.riichi[q]:
                continue
            kui = (p - q) % 4
            same = sorted(t for t in s.hands[q] if t // 4 == tile // 4)
            for own in combinations(same, 2):
                out.append(self.call(s, q, codes.make_pon(q, kui, list(own) + [tile], tile), 1))
            if len(same) == 3 and s.dead and sum(s.kans) < 4:
                out.append(self.call(s, q, codes.make_kan(q, kui, tile), 1))
        if n == 4:
            k = tile // 4
            for start in (k - 2, k - 1, k):
                run = H.runs_from(start) if start >= 0 else None
                if run and k in run and k // 9 == start // 9:
                    rest = [r for r in run if r != k]
                    for a in [t for t in sorted(s.hands[nxt]) if t // 4 == rest[0]][-2:]:
                        for b in [t for t in sorted(s.hands[nxt]) if t // 4 == rest[1]][:1]:
                            if not s.riichi[nxt]:
                                tiles = sorted([a, b, tile])
                                out.append(self.call(s, nxt, codes.make_chi(nxt, tiles, tiles.index(tile)), 1))
        return out

    def special(self, s):
        firsts = [d[0] for d in s.discards if len(d) == 1]
        if self.n == 4 and s.calls == 0 and len(firsts) == 4 and sum(len(d) for d in s.discards) == 4 \
                and len({t // 4 for t in firsts}) == 1 and 27 <= firsts[0] // 4 <= 30:
            return self.no_winner(s, "kaze4", 0, [])
        if self.n == 4 and all(r == 2 for r in s.riichi):
            return self.no_winner(s, "reach4", 0, [0, 1, 2, 3])
        if sum(s.kans) == 4 and max(s.kans) < 4:
            return self.no_winner(s, "kan4", 0, [])
        return None

    def new_dora(self, s, phase):
        tile = self.sc.deals[s.deal].indicators[s.turned]
        new = s.but(turned=s.turned + 1, indicators=s.indicators + (tile,), visible=s.visible | {tile},
                    pending=s.pending - 1, phase=phase)
        return Move(0, "DORA", {"hai": str(tile)}, {"ev": "dora", "tile": tile}, new)

    def call(self, s, q, c, cost):
        """c: call as described in codes."""
        kind = c["kind"]
        own, taken = frozenset(c["own"]), frozenset(c["taken"])
        meld = Meld(kind, own, taken, c["source"], c)
        hand = s.hands[q] - own
        melds = s.melds[q] + (meld,)
        if kind == "addkan":
            old = next(m for m in s.melds[q] if m.kind == "pon" and next(iter(m.own)) // 4 == next(iter(own)) // 4)
            merged = Meld("kakan", old.own | own, old.taken, old.source, c)
            melds = tuple(merged if m is old else m for m in s.melds[q])
        kans = s.kans or (0,) * self.n
        changes = dict(hands=put(s.hands, q, hand), melds=put(s.melds, q, melds), calls=s.calls + 1,
                       visible=s.visible | own, drawn=None)
        if kind == "kita":
            changes.update(bonus=put(s.bonus, q, s.bonus[q] + (c["own"][0],)), phase=("replace", q, None))
        elif kind in ("kan", "ankan", "addkan"):
            changes.update(kans=put(kans, q, kans[q] + 1), pending=s.pending + 1)
            changes["phase"] = ("replace", q, c["own"][0] if kind == "addkan" else None, kind)
        else:
            changes["phase"] = ("act", q, False)
        return Move(cost, "N", {"who": str(q), "m": str(codes.encode(c))},
                    {"ev": "call", "who": q, "kind": kind, "own": sorted(own), "taken": sorted(taken),
                     "source": c["source"], "meld": meld}, s.but(**changes))

    def at_replace(self, s):
        q, robbed = s.phase[1], s.phase[2]
        out = []
        early = len(s.phase) > 3 and s.pending and (s.phase[3] == "ankan" or self.sc.kan_dora == "before")
        if early and s.turned < len(self.sc.deals[s.deal].indicators):
            out.append(self.new_dora(s, ("replace", q, None)))
        else:
            out.append(self.draw(s, q, dead=True))
        if robbed is not None:
            out.extend(m for m in self.rons(s, q, robbed) if m.tag == "AGARI")
        return out

    def at_over(self, s):
        return []

    # --------------------------------------------------------------------------------- endings
    def close(self, s, dealer_stays, attrib, info, scores, sticks, drawn_game, terminal):
        """Common part of endings: next deal or the end of the record.  terminal: last ending event of this round."""
        r = s.round
        if not terminal:
            return s.but(scores=tuple(scores), round=(r[0], r[1], sticks), ended=True)
        last = s.deal + 1 >= len(self.sc.deals)
        if last:
            finals = list(scores)
            if sticks:
                top = max(range(self.n), key=lambda p: (finals[p], -p))
                finals[top] += 10 * sticks
            base = 300 if self.n == 4 else 400
            points = [round((f - base) / 10, 1) + 0.0 for f in finals]
            texts = ["%.1f" % x if self.sc.points else "%d" % int(x) for x in points]
            values = [float(t) for t in texts]
            pairs = []
            for f, t in zip(finals, texts):
                pairs += [f, t]
            attrib["owari"] = joined(pairs + [0, 0] * (4 - self.n))
            info["final"] = (tuple(finals), tuple(values))
            return s.but(scores=tuple(scores), phase=("over",), round=(r[0], r[1], sticks), ended=True,
                         final=(tuple(finals), tuple(values)))
        if dealer_stays:
            nxt = (r[0], r[1] + 1, sticks)
        else:
            number = r[0] + 1
            if self.n == 3 and number % 4 == 3:
                number += 1
            nxt = (number, r[1] + 1 if drawn_game else 0, sticks)
        return s.but(scores=tuple(scores), phase=("init",), round=nxt, dealer=nxt[0] % 4, ended=True)

    def win(self, s, who, source, tile, cost, others, earlier):
        """AGARI of `who`; `others` still to win on the same tile."""
        n, r = self.n, s.round
        hand = set(s.hands[who]) | {tile}
        tsumo = who == source
        value = 20 * (n - 1) if tsumo else 39 + 13 * who
        delta = [0] * 4
        honba = 0 if earlier else r[1]
        if tsumo:
            for p in range(n):
                if p != who:
                    delta[p] -= 20 + honba
                    delta[who] += 20 + honba
        else:
            delta[source] -= value + 3 * honba
            delta[who] += value + 3 * honba
        delta[who] += 10 * r[2]
        before = self.pad(s.scores)
        pairs = []
        for p in range(4):
            pairs += [before[p], delta[p]]
        after = [before[p] + delta[p] for p in range(n)]
        if (who + source) % 3 == 2 and not tsumo:
            yaku_attr, yaku = ("yakuman", [47]) if who % 2 else ("yakuman", [39, 42])
        else:
            listed = [(1, 1)] if s.riichi[who] == 2 else []
            listed += [(0, 1)] if tsumo and self.closed(s, who) else []
            listed += [(18, 1), (28, 2), (52, 3), (54, 1), (53, 0)]
            yaku_attr = "yaku"
            yaku = [y for y, _ in listed]
        attrib = {"ba": "%d,%d" % (r[1], r[2]), "hai": joined(sorted(hand))}
        if s.melds[who]:
            codes_of = []
            for m in reversed(s.melds[who]):
                codes_of.append(codes.encode(m.detail))
            attrib["m"] = joined(codes_of)
        attrib["machi"] = str(tile)
        attrib["ten"] = "30,%d,%d" % (delta[who] * 100 or value * 100, 1)
        attrib[yaku_attr] = joined(yaku) if yaku_attr == "yakuman" else joined(x for pair in listed for x in pair)
        attrib["doraHai"] = joined(s.indicators)
        if s.riichi[who] == 2:
            attrib["doraHaiUra"] = joined(s.dead[-1:] or (s.wall[-1:] or (0,)))
        attrib["who"], attrib["fromWho"], attrib["sc"] = str(who), str(source), joined(pairs)
        info = {"ev": "win", "who": who, "others": tuple(others), "source": source, "tile": tile, "yaku": yaku, "before": tuple(before[:n]),
                "delta": tuple(delta[:n]), "points": delta[who] * 100 or value * 100, "hand": sorted(hand), "final": None}
        stays = who == s.dealer or s.dealer in others or (earlier and earlier == s.dealer + 1)
        new = self.close(s, stays, attrib, info, after, 0, False, not others)
        if others:
            new = new.but(phase=("more", source, tile, tuple(others), s.dealer + 1 if who == s.dealer else -1))
        return Move(cost, "AGARI", attrib, info, new)

    def at_more(self, s):
        _, source, tile, others, mark = s.phase
        return [self.win(s, others[0], source, tile, 0, others[1:], mark)]

    def no_winner(self, s, reason, cost, shown):
        n, r = self.n, s.round
        delta = [0] * 4
        if reason is None and 0 < len(shown) < n:
            for p in range(n):
                delta[p] = 30 // len(shown) if p in shown else -30 // (n - len(shown))
        if reason == "nm":
            for p in range(n):
                if p != s.dealer:
                    delta[p] -= 40
                    delta[s.dealer] += 40
        before = self.pad(s.scores)
        pairs = []
        for p in range(4):
            pairs += [before[p], delta[p]]
        attrib = {}
        if reason:
            attrib["type"] = reason
        attrib["ba"] = "%d,%d" % (r[1], r[2])
        attrib["sc"] = joined(pairs)
        for p in shown:
            attrib["hai%d" % p] = joined(sorted(s.hands[p]))
        after = [before[p] + delta[p] for p in range(n)]
        info = {"ev": "drawn", "reason": reason, "before": tuple(before[:n]), "delta": tuple(delta[:n]), "final": None}
        stays = reason not in (None, "nm") or s.dealer in shown
        return Move(cost, "RYUUKYOKU", attrib, info, self.close(s, stays, attrib, info, after, r[2], True, True))
