"""C39: packed codes and number lists are read exactly."""
from fractions import Fraction
from itertools import product

from ..core import Violation

PROPERTY = "C39"
RULE = ("every division of the 16 bits of a code into fields is described, and codes with every single field set to its extremes (and "
        "every single bit, and their complements) are read and, where they are packed, packed again; every text over the alphabet of "
        "number lists up to the stated length that is a list of numbers is read and compared with exact arithmetic")
BOUNDS = {"quick": "all 32768 divisions of 16 bits x 36 codes; all 65536 codes for 19 divisions in every spelling of flags; all lists of up to 7 characters over 0 1 9 - . , and "
                   "lists of 1..4 numbers from 25",
          "thorough": "all 65536 codes for 500 divisions; lists of up to 8 characters"}
ASSUMPTIONS = ["fields are named from the lowest bit up, as in the code's tables; a field of one bit may be described as a flag"]

NUMBERS = ["0", "-0", "1", "-1", "7", "12", "135", "250", "-250", "1000", "25000", "-32000", "65535", "0.5", "-0.5", "12.5", "-12.5",
           "51.0", "-33.0", "1500.00", "1672.76", "0.0", "100.25", "2147483647", "-2147483649"]


def compositions(total):
    """Every division of `total` bits into fields, as tuples of widths."""
    for cut in range(1 << (total - 1)):
        widths, width = [], 1
        for i in range(total - 1):
            if cut >> i & 1:
                widths.append(width)
                width = 1
            else:
                width += 1
        yield tuple(widths + [width])


def deep(thorough):
    """Divisions that are tried with all codes."""
    out = [(2, 1, 2, 2, 2, 1, 6), (2, 1, 1, 1, 2, 2, 7), (2, 1, 1, 1, 1, 2, 8), (1,) * 11 + (5,), (16,), (1,) * 16, (8, 8), (15, 1), (1, 15),
           (4,) * 4, (3, 13), (13, 3), (5, 6, 5), (2,) * 8, (7, 9), (1, 2, 3, 4, 6), (6, 4, 3, 2, 1), (10, 1, 5), (1, 14, 1)]
    if thorough:
        every = list(compositions(16))
        out += every[::68]
    return out


def shards(tier):
    out = [("layouts", i, 64) for i in range(64)]
    out += [("codes", w, None) for w in deep(tier == "thorough")]
    length = 7 if tier == "quick" else 8
    out += [("texts", first, length) for first in product("019-.,", repeat=2)] + [("texts", (), 1)]
    out += [("lists", i, 4 if tier == "thorough" else 3) for i in range(len(NUMBERS))] + [("splits", 0, 0)]
    return out


def desc(widths, flags):
    return "\n%s\n" % "\n".join("f%d:%s%d" % (i, "b" if w == 1 and flags >> i & 1 else "u", w) for i, w in enumerate(widths))


class Layout:
    def __init__(self, widths, flags):
        from mahjong.record.utils import bit
        self.bit, self.widths, self.flags = bit, widths, flags
        text = desc(widths, flags)
        self.packer, self.cls = bit.bit_struct_from_desc(text), bit.named_tuple_from_desc("layout", text)

    def wanted(self, code):
        out, at = {}, 0
        for i, w in enumerate(self.widths):
            out["f%d" % i] = code >> at & ((1 << w) - 1)
            at += w
        return out

    def check(self, code, forms):
        want = self.wanted(code)
        for form in forms:
            got = self.bit.unpack_with(self.cls, self.packer, form)
            values = got._asdict()
            if values != want:
                raise Violation("code %r is read as %r, expected %r" % (form, dict(values), want), widths=self.widths)
        for i, w in enumerate(self.widths):
            if w == 1 and self.flags >> i & 1 and not isinstance(values["f%d" % i], bool):
                raise Violation("flag f%d is read as %r" % (i, values["f%d" % i]), widths=self.widths)
        again = self.bit.repack_to(self.packer, list(got))
        if tuple(again) != (code,):
            raise Violation("code %d read and packed again is %r" % (code, again), widths=self.widths)


def extremes(widths):
    codes, at = {0, 65535}, 0
    for w in widths:
        field = (1 << w) - 1 << at
        codes |= {field, 65535 ^ field}
        at += w
    for b in range(16):
        codes |= {1 << b, 65535 ^ 1 << b}
    return sorted(codes)


def layout(ctx, widths):
    for flags in (0, 65535):
        one = Layout(widths, flags)
        for code in extremes(widths):
            one.check(code, (code,))
            ctx.transitions += 1
    ctx.states += 1


def all_codes(ctx, widths):
    for flags in (0, 65535, 0x5555):
        one = Layout(widths, flags)
        for code in range(65536):
            one.check(code, (code, str(code)))
        ctx.states += 65536
        ctx.transitions += 65536
    ctx.traces += 1


# ------------------------------------------------------------------------------------------------ number lists
def number(text):
    """Exact value of a decimal number, or None."""
    body = text[1:] if text[:1] == "-" else text
    head, dot, tail = body.partition(".")
    if not (head + tail).isdigit() or "-" in body or "." in tail:
        return None
    value = Fraction(int(head + tail or "0"), 10 ** len(tail))
    return -value if text[:1] == "-" else value


def read(text, values, **kw):
    from mahjong.record.utils.value.general import number_list
    got = number_list(text, **kw)
    if len(got) != len(values):
        raise Violation("%r is read as %r" % (text, got))
    for g, v in zip(got, values):
        if v.denominator == 1:
            if type(g) is not int or g != v:
                raise Violation("%r is read as %r: %s is whole" % (text, got, v))
        elif type(g) is not float or g != float(v):
            raise Violation("%r is read as %r, expected %s" % (text, got, float(v)))


def texts(ctx, first, longest):
    for n in range(longest - len(first) + 1 if first else 2):
        for tail in product("019-.,", repeat=n):
            text = "".join(first + tail)
            values = [number(x) for x in text.split(",")]
            if None not in values:
                ctx.case({"mode": "texts", "text": text}, read, text, values)
                ctx.states += 1
                ctx.transitions += 1


def lists(ctx, i, longest):
    for n in range(longest):
        for tail in product(NUMBERS, repeat=n):
            words = [NUMBERS[i]] + list(tail)
            text = ",".join(words)
            ctx.case({"mode": "texts", "text": text}, read, text, [number(x) for x in words])
            ctx.states += 1
            ctx.transitions += 1


def splits(ctx):
    for sep in (";", " ", "|", ", ", "/"):
        for words in product(NUMBERS, repeat=2):
            read(sep.join(words), [number(x) for x in words], split=sep)
            ctx.transitions += 1
        ctx.states += 1


def run_shard(ctx, shard):
    kind, a, b = shard
    if kind == "layouts":
        for k, widths in enumerate(compositions(16)):
            if k % b == a:
                ctx.case({"mode": kind, "widths": list(widths)}, layout, ctx, widths)
        ctx.traces += 1
    elif kind == "codes":
        ctx.case({"mode": kind, "widths": list(a)}, all_codes, ctx, a)
    elif kind == "texts":
        texts(ctx, a, b)
    elif kind == "lists":
        lists(ctx, a, b)
    else:
        ctx.case({"mode": kind}, splits, ctx)


def replay(ctx, case):
    if case["mode"] == "layouts":
        ctx.case(case, layout, ctx, tuple(case["widths"]))
    elif case["mode"] == "codes":
        ctx.case(case, all_codes, ctx, tuple(case["widths"]))
    elif case["mode"] == "texts":
        ctx.case(case, read, case["text"], [number(x) for x in case["text"].split(",")])
    else:
        ctx.case(case, splits, ctx)
