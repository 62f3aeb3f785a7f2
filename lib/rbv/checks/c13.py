"""C13: the bencode decoder is exact on valid input and total on any input."""
import random

from .. import benc, build, harness
from ..campaign import Campaign, completed, survived
from ..report import SEED, THOROUGH
from ..torrent import benc as enc

FULL = b"ilde012-:a"
TEXT = [chr(k) for k in range(128)] + list(" \t\n\0aA") * 8 + ["\u00a0", "\ufeff", "e\u0301", "\u2028", "İ", "ß", "K", "\U0010ffff", "\ud7ff"]


def inputs(rnd, n):
    """Larger encodings: random values of every type, with their truncations, damage and what may follow them."""
    def s():
        k = rnd.choice([0, 0, 1, 2, 3, 9, 10, 11, 20, 40, 99, 100, 101])
        return rnd.choice([rnd.randbytes(k), bytes(rnd.choice(b"ilde0123456789:-") for _ in range(k)), "é€𝄞x".encode() * (k // 8)])

    def i():
        return rnd.choice([0, 1, -1, 9, 10, -10, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, -(1 << 31) - 1,
                           rnd.randrange(-100, 100), rnd.randrange(-(1 << 63), 1 << 63)])

    def v(d):
        k = rnd.random()
        if d == 0 or k < .3:
            return s() if rnd.random() < .6 else i()
        if k < .65:
            return [v(d - 1) for _ in range(rnd.randrange(4))]
        return {key(): v(d - 1) for _ in range(rnd.randrange(4))}

    def key():
        if rnd.random() < .4:          # any text is a key
            return "".join(rnd.choice(TEXT) for _ in range(rnd.randrange(5))).encode()
        return rnd.choice(["", "a", "b", "aa", "é", "z" * 11, "0", "é€𝄞"]).encode() + bytes(rnd.choice(b"abc") for _ in range(rnd.randrange(3)))
    vals = [[], {}, b"", 0, [b""], {b"": b""}, {b"": []}, [[]], [{}], [b"", b"", b""], {b"a": b"", b"b": []}]
    for d in (10, 50, 99):
        x = y = b""
        for k in range(d):
            x, y = [x], {b"k": y}
        vals += [x, y]
    vals += [v(3) for _ in range(n)]
    out = []
    for x in vals:
        e = enc(x)
        out.append(e)
        out += [e + t for t in rnd.sample([b"e", b"i1e", b"0:", b"\x00", b"x" * 30, e, b"l", b"\xff"], 3)]
        cuts = list(range(len(e))) if len(e) < 40 else rnd.sample(range(len(e)), 25)
        out += [e[:c] for c in cuts]
        for _ in range(4):
            b = bytearray(e)
            for _ in range(rnd.randrange(1, 3)):
                k = rnd.randrange(len(b) + 1)
                c = rnd.choice(b"ilde0123456789:-\xff")
                if rnd.random() < .5 and k < len(b):
                    b[k] = c
                else:
                    b.insert(k, c)
            out.append(bytes(b))
    out += [b"l" * k for k in (1000, 20000, 300000)] + [b"d1:a" * k for k in (1000, 20000, 100000)] + [b"l" * 5000 + b"e" * 5000, b"d1:a" * 5000 + b"le" + b"e" * 5000]
    out += [b"99999999999999999999999:x", b"18446744073709551615:x", b"9223372036854775808:x", b"18446744073709551614:" + b"y" * 40, b"4294967296:abc",
            b"i99999999999999999999999999e", b"i-99999999999999999999999999e", b"i18446744073709551616e", b"i-9223372036854775809e", b"i" + b"9" * 5000 + b"e", b"9" * 5000]
    return out


def large(rnd, n):
    """Values too large for TLC, whose expected value is known by construction."""
    sizes = [126, 127, 128, 129, 254, 255, 256, 257, 999, 1000, 1001, 4095, 4096, 9999, 10000, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 100000, 1 << 20]
    out = [rnd.randbytes(k) for k in sizes] + [[b"x"] * k for k in sizes if k < 70000] + [list(range(k)) for k in (127, 256, 1000, 5000)]
    out += [{b"%d" % j: j for j in range(k)} for k in (10, 100, 127, 128, 255, 256, 257, 1000, 20000)]
    out += [{("k" * j).encode(): [j] for j in range(300)}, {chr(j).encode(): b"" for j in range(0x800)}, [{bytes([97 + j % 26]) * 200: b"v" * j} for j in range(200)]]
    for k in (32768, 65535, 65536, 65537, 200000):          # large ones inside others
        b = rnd.randbytes(k)
        out += [[b], {b"k": b}, [[b"a", {b"x": [b, b]}], b""], {("k" * k).encode(): b}]
    odd = ["\ufeff", "\0", "\ufffd", "\ufffe", "\uffff", "\u200b", "\u202e", "\u0301", "\u0085", "\u00a0", "\u2028", "\u3000", "\U0001f468\u200d\U0001f469", "\U0010ffff", "\ud7ff", "\ue000", "\x7f", "\x1b[0m", "\r\n", "%00", "\\x00"]
    for o in odd:          # keys are any text
        out.append({t.encode(): [1, t.encode()] for t in (o, o + "a", "a" + o, o * 2, "a" + o + "b", o * 50)})
    out += [{chr(j).encode(): j for j in range(a, a + 0x2000) if not 0xd800 <= j < 0xe000} for a in list(range(0x800, 0x10000, 0x2000)) + [0x10000, 0x1f000, 0xe0000, 0x10e000]]
    for one in (b"", 0, -1, b"a", [], {}, [[]], {b"": {}}, [{}], {b"k": []}, [0, b""]):          # wide, at any depth
        for k in (90, 300, 3000):
            out += [[one] * k, {b"%d" % j: one for j in range(k)}, [[[one] * k, {b"x": [one] * k}]] * 2]
    for d in range(1, 100):
        x = rnd.choice([b"", 0, -5, b"ab", [], {}])
        for _ in range(d):
            x = rnd.choice([lambda: [x], lambda: {b"k": x}, lambda: [b"a", x], lambda: [x, 7], lambda: {b"": 1, b"z": x}, lambda: [[], x, {}]])()
        out.append(x)
    for _ in range(n):
        out.append([rnd.choice([rnd.randbytes(rnd.randrange(300)), rnd.randrange(-(1 << 63), 1 << 63), [], {}, {b"a": [rnd.randbytes(5)]}]) for _ in range(rnd.randrange(400))])
    return out


def record(w, r):
    d = {"op": "dec", "w": list(w), "out": "ok" if "ok" in r else "err" if "err" in r else "crash"}
    if "ok" in r:
        d.update(v=list(benc.h2e(r["ok"])), n=r["n"])
    return d


def check():
    c = Campaign("C13")
    rep = c.rep
    rnd = random.Random(SEED)
    plan = [(FULL, 8 if THOROUGH else 7, 4), (b"lde0:", 10 if THOROUGH else 9, 5), (b"ie0-19x", 8 if THOROUGH else 7, 2), (b"de1:ab", 9 if THOROUGH else 8, 3),
            (b"d2:1e\xc3\xa9\xff", 9 if THOROUGH else 7, 2)]
    h = build.harness("h_bencode")
    cases, values = {}, []
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(5) as ex:
        for out in ex.map(lambda p: benc.enumerate_inputs(rep, *p), plan):
            for x in out:
                cases[bytes(x["w"])] = x
                if x["out"] == "done":
                    values.append(bytes(x["w"]))
                    for t in (b"e", b"0:", b"\x80"):      # what follows a value changes nothing
                        cases[bytes(x["w"]) + t] = x
    rep.add(enumerated_inputs=len(cases), enumerated_values=len(values))
    if h:
        ws = sorted(cases)
        for w, r in zip(ws, harness.run(h, [{"op": "dec", "hex": w.hex()} for w in ws], 15, 6)):
            x = cases[w]
            if x["out"] == "done":
                good = r.get("ok") == benc.v2h(x["v"]) and r["n"] == len(x["w"])
            elif x["out"] == "run" and w:
                good = "err" in r
            else:
                good = "err" in r or ("ok" in r and r["n"] <= len(w))
            if not good:
                rep.violation("decoding %r gave %s, the specification says %s" % (w, str(r)[:300], x["out"]), {"input": w.hex(), "got": r, "expected": x})
        ws = inputs(rnd, 1500 if THOROUGH else 120)
        rs = harness.run(h, [{"op": "dec", "hex": w.hex()} for w in ws], 15, 6)
        big = [(w, r) for w, r in zip(ws, rs) if len(w) > 1200]
        for w, r in big:
            if not ("err" in r or ("ok" in r and r["n"] <= len(w))):
                rep.violation("decoding %d bytes %r... gave %s" % (len(w), w[:40], str(r)[:200]), {"input": w[:200].hex(), "len": len(w), "got": r})
        pairs = [(w, r) for w, r in zip(ws, rs) if len(w) <= 1200]
        rep.add(random_inputs=len(ws), random_values=sum("ok" in r for r in rs), crashes=sum(not ("ok" in r or "err" in r) for r in rs))
        for k in benc.judge(rep, [record(w, r) for w, r in pairs], 2000):
            w, r = pairs[k]
            rep.violation("TLC rejects decode(%r) = %s" % (w[:200], str(r)[:300]), {"input": w.hex(), "got": r})
        xs = large(rnd, 200 if THOROUGH else 40)
        reqs, want = [], []
        for x in xs:
            e = enc(x)
            for t in (b"", rnd.choice([b"e", b"i1e", b"0:", b"\xff" * 20, e[:50]])):
                reqs.append(e + t)
                want.append((expect(x), len(e)))
            for c_ in {len(e) - 1, len(e) - 2, len(e) // 2, rnd.randrange(1, len(e))} - {0}:
                reqs.append(e[:c_])
                want.append(None)
        for w, x, r in zip(reqs, want, harness.run(h, [{"op": "dec", "hex": w.hex()} for w in reqs], 15, 6)):
            if not (("err" in r) if x is None else (r.get("ok") == x[0] and r["n"] == x[1])):
                rep.violation("decoding %d bytes %r... gave %s" % (len(w), w[:60], str(r)[:200]), {"input": w[:400].hex(), "len": len(w), "got": str(r)[:400]})
        rep.add(large_inputs=len(reqs))
        rep.sample({"input": repr(pairs[40][0])[:200], "reply": str(pairs[40][1])[:200]})
    else:
        rep.notes.append("harness does not fit this tree")
    # the same values inside the metadata a running client has to read, and behind a metadata message
    jobs, good = [], sorted(values, key=lambda w: rnd.random())
    extra = [w for w in inputs(rnd, 60)[:400] if dec_ok(w)]
    per = 400
    for j in range(4 if THOROUGH else 2):
        ts = []
        for k in range(4):
            vs = good[(j * 4 + k) * per:(j * 4 + k + 1) * per] or good[:per]
            vs = vs + extra[(j * 4 + k) * 20:(j * 4 + k + 1) * 20]
            x = b"l" + b"".join(vs) + b"e"
            ts.append({"torrent": {"name": "t%d" % k, "length": 70, "pl": 64, "seed": k, "extra_raw": x.hex()}, "eps": 12})
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 25}))
    c.go("values in metadata", jobs, [survived(), completed])
    return c.finish()


def dec_ok(w):
    from ..torrent import bdec
    try:
        x, n = bdec(w)
        return n == len(w) and enc(x) == w and promised(x)
    except Exception:
        return False


def promised(x):
    """Integers of 64 bits, keys that are text."""
    if isinstance(x, int):
        return -(1 << 63) <= x < 1 << 63
    if isinstance(x, list):
        return all(map(promised, x))
    if isinstance(x, dict):
        return all(promised(v) and (isinstance(k, str) or benc.is_text(list(k))) for k, v in x.items())
    return True


def expect(x):
    """Python value -> what the harness prints."""
    if isinstance(x, int):
        return {"i": str(x)}
    if isinstance(x, bytes):
        return {"s": x.hex()}
    if isinstance(x, list):
        return {"l": [expect(y) for y in x]}
    return {"d": [[k.hex(), expect(v)] for k, v in sorted(x.items())]}
