"""C11: every call code decodes to the call that was made."""
import xml.etree.ElementTree as ET
from ..core import Violation

from ..ref.codes import all_calls, encode

PROPERTY = "C11"
RULE = ("every legal call (kind, tiles, copy numbers, called tile, source, caller seat) is a model state; the reference "
        "encoder turns it into a code and meld_from must decode that code back to the call")
BOUNDS = {"quick": "complete: all chi, pon, added kan, open kan, closed kan and north codes for all four seats",
          "thorough": "same (complete)"}
ASSUMPTIONS = ["codes follow the published bit layout of tenhou logs; a chi is always called from the seat to the left"]


def shards(tier):
    return [(seat, kind) for seat in range(4) for kind in ("chi", "pon", "addkan", "kan", "ankan", "kita")]


def decode(ctx, call, code):
    from mahjong.record.utils.value import meld as M
    event = ET.Element("N", {"who": str(call["who"]), "m": str(code)})
    got = M.meld_from(event)
    ctx.traces += 1
    expected_class = {"chi": M.Flush, "pon": M.Triplet, "addkan": M.TenhouAddedKan, "kan": M.TenhouKan,
                      "ankan": M.TenhouKan, "kita": M.Kita}[call["kind"]]
    if not isinstance(got, expected_class):
        raise Violation("decoded as %s" % type(got).__name__, call=call)
    expected_type = {"chi": M.MeldType.flush, "pon": M.MeldType.triplet, "addkan": M.MeldType.add_kan,
                     "kan": M.MeldType.kan, "ankan": M.MeldType.kan, "kita": M.MeldType.kita}[call["kind"]]
    for form in (str(code), code):
        if M.meld_type(form) != expected_type:
            raise Violation("meld_type(%r) is %r" % (form, M.meld_type(form)), call=call)
    own, taken = set(got.self_tiles), set(got.borrowed_tiles)
    if own != set(call["own"]) or taken != set(call["taken"]):
        raise Violation("decoded own %r taken %r" % (sorted(own), sorted(taken)), call=call)
    if own & taken:
        raise Violation("own and taken tiles overlap", call=call)
    if call["source"] is not None and got.from_who != call["source"]:
        raise Violation("decoded source %r" % (got.from_who,), call=call)
    if bool(got.is_opened()) is not bool(call["taken"]):
        raise Violation("is_opened() is %r" % (got.is_opened(),), call=call)
    if call["kind"] in ("kan", "ankan") and bool(got.is_opened_kan) is not (call["kind"] == "kan"):
        raise Violation("is_opened_kan is %r" % (got.is_opened_kan,), call=call)


def run_shard(ctx, shard):
    seat, kind = shard
    codes = {}
    for call in all_calls(seat, kind):
        code = encode(call)
        ctx.states += 1
        ctx.transitions += 1
        ctx.outcome(kind)
        if code in codes and codes[code] != call:
            raise AssertionError("reference encoder is ambiguous: %r %r" % (call, codes[code]))
        codes[code] = call
        ctx.case({"call": call, "code": code}, decode, ctx, call, code)
    ctx.sample({"call": call, "code": code})


def replay(ctx, case):
    decode(ctx, case["call"], case["code"])
