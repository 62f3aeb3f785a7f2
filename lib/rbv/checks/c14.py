"""C14: bencode encoding is canonical."""
import hashlib
import random

from .. import benc, build, harness, tlc
from ..campaign import Campaign, completed, survived
from ..report import SEED, THOROUGH
from ..torrent import benc as enc

STRINGS = ["", "a", "é", "€", "𝄞", "ß" * 10, "日本語", "a\x00b", "\x7f", "e\u0301", "x" * 9, "x" * 10, "x" * 99, "x" * 100, "é" * 50, "i1e", "4:spam", "\u2028", "א" * 5,
           "\U0010ffff", "\ud7ff", "\ue000", "a\0", "\0", "\0a\0\0", " a ", "a\n", "\r\n", "\ta", "\x01\x1f", "a\u00a0", "\ufeffa", "a\ufeff", "..", "a/", "A", "İ", "ﬁ", "\\", "\"", "%00", "a  b", ":", "-1", "007"]


def random_values(rnd, n):
    def v(d):
        k = rnd.random()
        if d == 0 or k < .35:
            return rnd.choice([lambda: rnd.choice(STRINGS), lambda: rnd.randbytes(rnd.choice([0, 1, 5, 9, 10, 11, 64, 100])),
                               lambda: rnd.choice([0, 1, 9, 10, 99, 100, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, rnd.randrange(1 << 64)])])()
        if k < .65:
            return [v(d - 1) for _ in range(rnd.randrange(4))]
        return {key(): v(d - 1) for _ in range(rnd.randrange(7))}

    def key():
        return rnd.choice(STRINGS + ["b", "B", "aa", "ab", "Z", "_", "10", "9", "á", "a1", "zz"]) + rnd.choice(["", "", "a", "A", "0", "é"])
    return [v(0) for _ in range(n // 3)] + [v(3) for _ in range(n)]


def random_infos(rnd, n):
    out = []
    for _ in range(n):
        pl = rnd.choice([1, 16, 1000, 16384, 1 << 20, 1 << 31])
        d = {"name": rnd.choice(STRINGS[1:]), "piece length": pl, "pieces": rnd.randbytes(20 * rnd.randrange(4))}
        if rnd.random() < .4:
            d["length"] = rnd.choice([0, 1, 9, 10, 1 << 33, (1 << 63) - 1, rnd.randrange(1 << 62)])
        else:
            d["files"] = [{"length": rnd.choice([0, 1, 10, 1 << 40]), "path": [rnd.choice(STRINGS) for _ in range(rnd.randrange(4))]} for _ in range(rnd.randrange(5))]
        out.append(enc(d))
    return out


def raw(x):
    """Python value -> harness value."""
    if isinstance(x, int):
        return {"i": str(x)}
    if isinstance(x, str):
        return {"t": x.encode().hex()}
    if isinstance(x, bytes):
        return {"s": x.hex()}
    if isinstance(x, list):
        return {"l": [raw(y) for y in x]}
    return {"d": [[k.encode().hex(), raw(v)] for k, v in x.items()]}


def canonical(runs, rep):
    """The bencoded messages the client itself sends."""
    out = []
    for r in runs:
        for e in r.log:
            if e["e"] == "rx" and e["m"]["t"] in ("exths", "mreq", "ext"):
                rep.add(messages_judged=1)
                if not e["m"].get("canon"):
                    out.append((r, "the client sent a message that is not canonical bencode: %s" % e["m"], e))
    return out


def check():
    c = Campaign("C14")
    rep = c.rep
    rnd = random.Random(SEED)
    h = build.harness("h_bencode")
    plan = [(b"lde012i:a", 8 if THOROUGH else 7, 4), (b"lde0:", 10 if THOROUGH else 9, 5), (b"de1:ab", 10 if THOROUGH else 9, 3), (b"d2:1e\xc3\xa9", 9 if THOROUGH else 8, 2)]
    vals = {}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(5) as ex:
        fi = ex.submit(lambda: tlc.run("InfoGen", {"Names": tlc.Raw("{<<>>, <<97>>, <<195,169>>}"), "Lens": {0, 1, 70}, "PieceLens": {1, 64},
                                                   "Hashes": {0, 1, 2}, "MaxFiles": 2, "Paths": tlc.Raw("{<<>>, <<<<97>>>>, <<<<>>, <<195,169>>>>, <<<<97>>, <<98>>>>}")},
                                       invariants=["Inv_Canonical", "Emit"], workers=1))
        for out in ex.map(lambda p: benc.enumerate_inputs(rep, *p), plan):
            for x in out:
                if x["out"] == "done" and benc.encodable(x["v"]):
                    vals[bytes(x["w"])] = x["v"]
        r = fi.result()
    rep.model("InfoGen", r, "metadata of single- and multi-file torrents with up to two files")
    infos = [bytes(x["w"]) for x in r.printed]
    rep.add(enumerated_values=len(vals), enumerated_metadata=len(infos))
    if h:
        recs, what = [], []

        def call(req, rec, got=lambda r: r.get("hex")):
            recs.append(rec)
            what.append((req, got))
        for w, v in vals.items():
            for text in (False, True):
                call({"op": "enc", "v": benc.v2h(v, text)}, {"op": "enc", "v": v})
        rv = random_values(rnd, 3000 if THOROUGH else 500)
        for x in rv:
            v = benc.p2v(x)
            t = rnd.random() < .5
            call({"op": "enc", "v": benc.v2h(v, t)}, {"op": "enc", "v": v})
            call({"op": "enc", "v": {"o": benc.v2h(v, t)}}, {"op": "enc", "v": v})
            k = rnd.choice(STRINGS[1:])
            call({"op": "entry", "k": k.encode().hex(), "v": benc.v2h(v, t)}, {"op": "entry", "key": list(k.encode()), "v": v})
            call({"op": "entry", "k": k.encode().hex(), "v": {"o": benc.v2h(v, t)}}, {"op": "entry", "key": list(k.encode()), "v": v})
        for s in STRINGS:
            call({"op": "str", "hex": s.encode().hex()}, {"op": "enc", "v": benc.p2v(s)})
            if s:
                call({"op": "entry", "k": s.encode().hex(), "v": {"o": None}}, {"op": "absent"})
        for w in infos + random_infos(rnd, 1500 if THOROUGH else 300):
            call({"op": "info", "hex": w.hex()}, {"op": "back", "w": list(w)})
        rs = harness.run(h, [q for q, _ in what], 15, 6)
        jr = []
        for k, (rec, (q, got), r) in enumerate(zip(recs, what, rs)):
            b = list(bytes.fromhex(got(r))) if got(r) is not None else [0]
            rec["back" if rec["op"] == "back" else "w"] = b
            jr.append(rec)
            if rec["op"] == "back" and r.get("hash") != hashlib.sha1(bytes(rec["w"])).hexdigest():
                rep.violation("metadata %r: the info hash is %s" % (bytes(rec["w"])[:150], r.get("hash")), {"request": q, "reply": r})
        rep.add(encodings_judged=len(jr))
        for k in benc.judge(rep, jr, 3000):
            rep.violation("TLC rejects %s -> %s" % (str(what[k][0])[:250], str(rs[k])[:250]), {"request": what[k][0], "reply": rs[k]})
        # values too large for TLC: the canonical text is known by construction
        sizes = [127, 128, 255, 256, 257, 999, 1000, 1001, 9999, 10000, 16384, 65535, 65536, 100000]
        big = [rnd.randbytes(k) for k in sizes] + ["é€x𝄞"[rnd.randrange(4)] * k for k in sizes] + [[0] * k for k in sizes] + [[b"ab", "é"] * (k // 2) for k in sizes]
        big += [{"k%d" % j: j for j in range(k)} for k in (100, 256, 1000, 5000)] + [{chr(j): j for j in range(1, 0x900)}, {"x" * j: b"" for j in range(300)}]
        for d in (10, 20, 40):        # the harness reads JSON to a depth of 128
            x = []
            for j in range(d):
                x = [x] if j % 2 else {"é" * (j % 12): x}
            big.append(x)
        for x, r in zip(big, harness.run(h, [{"op": "enc", "v": raw(x)} for x in big], 15, 6)):
            if r.get("hex") != enc(x).hex():
                rep.violation("a value of %d bytes, %s..., is encoded as %s" % (len(enc(x)), str(x)[:60], str(r)[:200]), {"value": str(x)[:2000], "got": str(r)[:2000]})
        rep.add(large_values=len(big))
        rep.sample({"request": str(what[len(vals)][0])[:200], "reply": str(rs[len(vals)])[:200]})
    # the whole program: its own messages are canonical, and it uses the hash of the original metadata whatever else that contains
    ts = [{"torrent": {"name": n, "length": 70, "pl": 64, "seed": k, "extra": e}, "eps": 12} for k, (n, e) in enumerate(
        [("é", None), ("日本", {"private": 1}), ("n2", {"": "x"}), ("n3", {"zz": [1, {"a": "é"}]})])]
    c.go("metadata with other keys", [("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 25})], [survived(), completed, canonical])
    return c.finish()
