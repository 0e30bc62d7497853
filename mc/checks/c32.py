"""C32: log ids and links convert both ways."""
import itertools

from ..core import Violation

PROPERTY = "C32"
RULE = ("every id over the id alphabet up to the stated length, and every id of the real form with each field at its extremes, is put into "
        "every arrangement of link parts (scheme, host, folder, parameters before and after, fragment); the id read from the link, the "
        "link made from the id and the download address are compared")
BOUNDS = {"quick": "ids of up to 3 of 12 characters plus 1024 real forms; 2 schemes x 3 hosts x 4 folders x all orders of up to 3 parameters; percent-encoded ids",
          "thorough": "ids of up to 3 of all 37 characters, 4 of 12"}
ASSUMPTIONS = ["ids consist of digits, small letters and hyphens", "a link holds one log parameter"]

SOME = "0129abgmxz-f"
ALL = "0123456789abcdefghijklmnopqrstuvwxyz-"
EXTRA = ["tw=0", "tw=3", "n4=a%26b", "ts=5", "catalog=x", "LOG=y", "logx=1", "tw=", "w"]
PREFIX = ["http://tenhou.net/0/", "https://tenhou.net/0/", "http://tenhou.net/3/", "https://tenhou.net/4/", "http://tenhou.net/6/",
          "http://tenhou.net/", "https://www.tenhou.net/0/", "http://tenhou.net:80/0/", "https://tenhou.net/5/x/"]
DOWNLOAD = "http://e.mjv.jp/0/log/?"


def real_ids():
    for day, hour in (("20180201", "05"), ("20091231", "23")):
        for kind in ("0001", "00a9", "00e1", "0089", "0029", "0041", "00b9", "0611"):
            for lobby in ("0000", "0001", "9999", "1234", "7994", "0999", "5000", "8888"):
                for tail in ("95d6ac02", "00000000", "ffffffff", "x5b1c3a2", "504304e3", "1", "0a0b0c0d", "e3e3e3e3"):
                    yield "%s%sgm-%s-%s-%s" % (day, hour, kind, lobby, tail)


def ids(tier):
    if tier == "quick":
        out = ["".join(w) for n in (1, 2, 3) for w in itertools.product(SOME, repeat=n)]
    else:
        out = ["".join(w) for n in (1, 2, 3) for w in itertools.product(ALL, repeat=n)]
        out += ["".join(w) for w in itertools.product(SOME, repeat=4)]
    return out + list(real_ids())


PARTS = 32


def shards(tier):
    return [("ids", i) for i in range(PARTS)] + [("links", i) for i in range(len(PREFIX))]


def one(ctx, log_id, links):
    from mahjong.record import reader
    import mahjong.record as package
    made = reader.log_id_to_url(log_id)
    scheme, _, rest = made.partition("://")
    if scheme not in ("http", "https") or not rest.startswith("tenhou.net/"):
        raise Violation("%r is no viewer link" % made)
    for link in [made] + list(links):
        ctx.transitions += 1
        for f in (reader.log_id_from_url, package.tenhou_log_id_from_url):
            got = f(link)
            if got != log_id:
                raise Violation("the id of %r is read as %r" % (link, got))
        got = reader.download_url(link)
        if got.split("://", 1)[1] != (DOWNLOAD + log_id).split("://", 1)[1] or got.split("://")[0] not in ("http", "https"):
            raise Violation("%r is downloaded from %r" % (link, got))
    if package.tenhou_log_id_to_url(log_id) != made:
        raise Violation("two links for one id")
    ctx.states += 1
    ctx.traces += 1


def fetched(ctx, log_id, link):
    """The address really asked when a record is read from a link."""
    from mahjong.record import reader
    from .. import web
    with web.serving(lambda url: (200, {"Content-Type": "text/xml"}, b"<x/>")) as server:
        reader.fetch_record_content(link)
    asked = server.asked
    if [u.split("://", 1)[1] for u in asked] != [(DOWNLOAD + log_id).split("://", 1)[1]]:
        raise Violation("reading %r asks for %r" % (link, asked))
    ctx.traces += 1


def arrangements(prefix, log_id):
    for n in range(3):
        for extra in itertools.permutations(EXTRA, n):
            for at in range(n + 1):
                parts = list(extra)
                parts.insert(at, "log=" + log_id)
                for tail in ("", "#", "#log=zz&tw=1"):
                    yield prefix + "?" + "&".join(parts) + tail


def run_shard(ctx, shard):
    kind, i = shard
    if kind == "ids":
        for log_id in ids(ctx.tier)[i::PARTS]:
            links = ["%s?log=%s" % (p, log_id) for p in PREFIX[:3]] + ["%s?log=%s&tw=2" % (PREFIX[i % len(PREFIX)], log_id),
                                                                        "%s?tw=1&log=%s" % (PREFIX[i % len(PREFIX)], log_id)]
            links += [PREFIX[i % 4] + "?log=" + log_id.replace("-", code) for code in ("%2D", "%2d") if "-" in log_id]
            links.append(PREFIX[i % 5] + "?ts=1&log=" + "".join("%%%02X" % ord(c) for c in log_id))
            ctx.case({"kind": "one", "id": log_id, "links": links}, one, ctx, log_id, links)
            ctx.case({"kind": "fetched", "id": log_id, "link": links[i % 5]}, fetched, ctx, log_id, links[i % 5])
        ctx.sample(log_id)
    else:
        for log_id in ("2018020105gm-00a9-0000-95d6ac02", "2009123123gm-0001-9999-x5b1c3a2", "0", "log"):
            for link in arrangements(PREFIX[i], log_id):
                ctx.case({"kind": "one", "id": log_id, "links": [link]}, one, ctx, log_id, [link])


def replay(ctx, case_):
    if case_["kind"] == "one":
        one(ctx, case_["id"], case_["links"])
    else:
        fetched(ctx, case_["id"], case_["link"])
