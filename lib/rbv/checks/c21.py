"""C21: exchanges with HTTP trackers."""
import json
import random
import socket
import struct
from urllib.parse import urlsplit

from .. import build, sandbox, tlc
from ..build import ToolError
from ..campaign import Campaign
from ..report import SEED, THOROUGH
from ..torrent import benc

MAXMS = 6000
WHOLE = ["length", "length0", "close", "http10", "chunked", "split", "coded"]
CUT = ["cut", "cutchunk", "badlength"]
LATE = ["late"]
BAD = ["status:400", "status:403", "status:404", "status:500", "status:503", "closeearly", "cuthead", "nothttp"]
SLOW = ["silent", "deaf", "headsilent", "halfsilent", "drip", "headdrip", "hugelength"]
KIND = dict([(h, "whole") for h in WHOLE] + [(h, "cut") for h in CUT] + [(h, "late") for h in LATE] + [(h, "bad") for h in BAD + SLOW])
KIND["hugelength"] = "cut"


def bodies(rnd, n):
    """Replies: lists of all sizes in dictionaries of all kinds; replies without a list; truncated, damaged and other ones."""
    def peers(k):
        return b"".join(rnd.choice([rnd.randbytes(4), b"\x0a\x00\x00\x01", b"\xff\xff\xff\xff", bytes(4)]) + struct.pack(">H", rnd.choice([0, 1, 80, 255, 256, 6881, 65535, rnd.randrange(65536)])) for _ in range(k))

    def d(p, **kw):
        x = {b"interval": 1800, b"complete": rnd.randrange(99), b"incomplete": 0}
        x = {k: v for k, v in x.items() if rnd.random() < .7}
        if rnd.random() < .3:
            x[b"peers6"] = rnd.randbytes(18)
        if rnd.random() < .3:
            x[rnd.choice([b"zz", b"a", b"flags", b"warning message", b"peer", b"peers2", "é".encode()])] = rnd.choice([b"peers", b"5:peers6:abcdef", [b"peers", b"x"], {b"peers": b"abcdef"}, -1, []])
        if p is not None:
            x[b"peers"] = p
        x.update({k.encode(): v for k, v in kw.items()})
        return benc(x)
    good = [d(peers(k)) for k in (0, 1, 1, 2, 3, 5, 7, 10, 16, 40, 50, 100, 199)] + [d(peers(rnd.randrange(30))) for _ in range(n)] + [d(b"e" * 6), d(b"5:peers:" + b"\0" * 4), d(b"i1e0:d") + b""]
    good.append(benc({b"peers": b""}))
    none = [d(None) for _ in range(6)] + [d([{b"ip": b"10.0.0.1", b"port": 80}]), d([]), d(6), d(-1), d({}), d({b"peers": b"abcdef"}), benc({b"failure reason": b"nope"}), b"de", b"le", b"i6e", b"6:abcdef", benc([b"peers", b"abcdef"]), b"",
            b"<html>peers</html>", b"hello", b"\xff\xfe", b"{}", b"5:peers", b"\n", b" d5:peers0:e", benc({b"Peers": b"abcdef"}), benc({b"peers ": b"abcdef"})]
    ragged = [d(peers(k)[:-c]) for k in (1, 2, 9) for c in (1, 3, 5)] + [good[5] + t for t in (b"\n", b"e", b"x", b"0:", good[4])]
    trunc = []
    for g in good[:14]:
        trunc += [g[:c] for c in ({len(g) - 1, len(g) // 2, 1, 2} if len(g) > 60 else range(len(g)))]
    odd = []
    for _ in range(n):
        b = bytearray(rnd.choice(good))
        for _ in range(rnd.randrange(1, 3)):
            k = rnd.randrange(len(b))
            op = rnd.randrange(3)
            if op == 0:
                b[k] = rnd.choice(b"ilde0123456789:-\xff")
            elif op == 1:
                b.insert(k, rnd.choice(b"ilde0123456789:-\xff"))
            else:
                del b[k]
        odd.append(bytes(b))
    odd += [b"l" * 50000, b"d1:a" * 20000, b"d5:peers99999999999999999999:abcdefe", b"d5:peers18446744073709551615:abcdefe", b"d5:peersi999999999999999999999999ee", b"d5:peers-6:abcdefe"]
    return good, none, ragged, trunc, odd


def hashes(rnd):
    return rnd.choice([rnd.randbytes(20), rnd.randbytes(20), bytes(range(32, 52)), bytes(range(48, 68)), b"%&=+?#/ .-_~*'()!@\"<"[:20].ljust(20, b"\0"), bytes([rnd.choice([0, 37, 38, 43, 61, 255, 128, 127, 126, 10])]) * 20,
                       b"-_.~abcXYZ0189%41%00"])


def record(x, o):
    rep = o["rep"]
    u = urlsplit(x["url"])
    flat = []
    out = "ok" if "ok" in rep else "err" if "err" in rep else "crash"
    for e in rep.get("ok", []):
        ip, port = e.rsplit(":", 1)
        flat += list(socket.inet_aton(ip) + struct.pack(">H", int(port)))
    return {"how": KIND[x["how"]], "body": list(bytes.fromhex(x["body"])), "out": out, "flat": flat, "ms": rep.get("ms", 99999), "asked": o["req"] is not None,
            "req": o["req"] or {"method": [], "target": [], "host": []}, "path": list(u.path.encode()), "host": list(u.netloc.encode()), "hash": list(bytes.fromhex(x["hash"])),
            "own": [list(f.encode()) for f in u.query.split("&") if f]}


def run(c, h, cases, par=6):
    n = max(1, min(par, len(cases)))
    parts = [cases[i::n] for i in range(n)]
    res = sandbox.run_all([("httptrk:exchanges", {"cases": p}) for p in parts], h, par, 600 if THOROUGH else 200)
    out = []
    for p, r in zip(parts, res):
        if "error" in r:
            raise ToolError(r["error"])
        out += list(zip(p, r["out"]))
    return out


def judge(c, pairs):
    found = []
    small = []
    for x, o in pairs:
        if x["how"] == "scheme":
            if "err" not in o["rep"] or o["conns"] or o["rep"]["ms"] > MAXMS:
                found.append((x, "the address %s was not refused: %s" % (x["url"], str(o)[:200])))
            continue
        if x["how"] == "refused":
            if "err" not in o["rep"] or o["rep"]["ms"] > MAXMS:
                found.append((x, "a tracker that cannot be reached gave %s" % str(o["rep"])[:200]))
            continue
        if "list" in x:         # too long for TLC: the list is known by construction
            if record(x, o)["flat"] != list(bytes.fromhex(x["list"])) or "ok" not in o["rep"]:
                found.append((x, "%s: a list of %d peers gave %s" % (x["how"], len(x["list"]) // 12, ("%d peers, or others" % len(o["rep"]["ok"])) if "ok" in o["rep"] else str(o["rep"])[:200])))
            continue
        if len(x["body"]) > 8000:
            if not ("err" in o["rep"] and o["rep"]["ms"] <= MAXMS):
                found.append((x, "a body of %d bytes (%r...) gave %s" % (len(x["body"]) // 2, bytes.fromhex(x["body"][:40]), str(o["rep"])[:200])))
            continue
        small.append((x, o))
    for i in range(0, len(small), 500):
        part = small[i:i + 500]
        r = tlc.run("HttpTrace", {"File": "t.ndjson", "MaxMs": MAXMS}, postcondition="Done", workers=1, timeout=600, files={"t.ndjson": "".join(json.dumps(record(x, o)) + "\n" for x, o in part)})
        if not r.ok:
            raise ToolError("HttpTrace: %s %s" % (r.violated or r.error, r.out[-2000:]))
        c.rep.add(states=r.distinct, transitions=r.states, traces_validated_against_impl=len(part))
        for p in r.printed:
            x, o = part[p["bad"] - 1]
            found.append((x, "TLC rejects the %s: %s, body %r, gave %s; request %s" % (p["what"], x["how"], bytes.fromhex(x["body"])[:100], str(o["rep"])[:200], bytes((o["req"] or {"target": []})["target"])[:160])))
    return found


def check():
    c = Campaign("C21")
    rnd = random.Random(SEED * 13)
    r = tlc.run("HttpTracker", {"Deadline": 4 if THOROUGH else 3, "BodyParts": 3 if THOROUGH else 2}, invariants=["Inv_Peers", "Inv_End"], properties=["Live_Ends", "Act_NoReason"], workers=4)
    c.rep.model("HttpTracker", r, "one exchange, the server and the clock free")
    h = build.harness("h_tracker")
    if not h:
        c.rep.notes.append("harness does not fit this tree: the program has no way to an HTTP tracker of its own, nothing was checked")
        return c.finish()
    good, none, ragged, trunc, odd = bodies(rnd, 400 if THOROUGH else 60)
    paths = ["/announce", "/announce", "/", "/a/b/announce.php", "/announce?passkey=0123abc", "/x?a=1&b=%20", "/announce?", "/?", "/a?b", "/announce?k=a%26b%3Dc", "/announce?x=1&", "/announce#top", "/announce?k=v#a?b&c"]
    ips = ["10.9.8.7:8000", "127.0.0.1:8000", "192.0.2.1:8000"]

    def case(how, body):
        return {"how": how, "body": body.hex(), "url": "http://%s%s" % (rnd.choice(ips), rnd.choice(paths)), "hash": hashes(rnd).hex()}
    cases = [case(w, g) for g in good for w in (WHOLE if THOROUGH else rnd.sample(WHOLE, 4))]
    cases += [case(rnd.choice(WHOLE), b) for b in none + ragged + trunc + odd]
    cases += [case(w, g) for w in CUT + BAD for g in rnd.sample(good, 4) + [b""]]
    cases += [case(w, g) for w in SLOW + LATE for g in rnd.sample(good[1:], 8 if THOROUGH else 3)]
    cases += [{"how": "scheme", "body": "", "url": u, "hash": "00" * 20} for u in ("ws://10.0.0.1:8000/announce", "ftp://10.0.0.1:8000/announce", "gopher://10.0.0.1:8000/", "wss://10.0.0.1/announce", "magnet:?xt=x", "file:///etc/hostname",
                                                                            "tcp://10.0.0.1:8000/announce", "http+unix://x/announce", "htp://10.0.0.1:8000/", "s://10.0.0.1:8000/", "data:text/plain,d5:peers6:abcdefe")]
    cases += [{"how": "refused", "body": "", "url": u, "hash": "00" * 20} for u in ("http://10.0.0.1:9/announce", "http://nonexistent.invalid/announce", "http://10.0.0.1:8000000/", "http://[::1]:9/announce") if u.count("8000000") == 0]
    for k in (600, 683, 1400, 2500, 5461, 5462, 8192, 10923, 12000) + ((40000, 65535, 65537, 80000, 170000) if THOROUGH else (70000,)):
        lst = b"".join(socket.inet_aton("10.%d.%d.%d" % (rnd.randrange(256), i >> 8 & 255, i & 255)) + struct.pack(">H", 1 + i % 65535) for i in range(k))
        for how in WHOLE if k in (1400, 12000) else rnd.sample(["length", "chunked", "split", "close"], 1):
            cases.append(dict(case(how, benc({b"interval": 1800, b"peers": lst})), list=lst.hex()))
    rnd.shuffle(cases)
    c.rep.add(exchanges=len(cases))
    pairs = run(c, h, cases)
    c.rep.sample({"case": pairs[0][0], "seen": str(pairs[0][1])[:400]})
    c.rep.add(lists_taken=sum("ok" in o["rep"] for _, o in pairs), errors=sum("err" in o["rep"] for _, o in pairs), longest_ms=max(o["rep"].get("ms", 0) for _, o in pairs))
    found = judge(c, pairs)
    if found:
        again = [x for x, _ in found][:60]
        for _ in range(2):
            f2 = judge(c, run(c, h, again, 2))
            if f2:
                for x, what in f2[:10]:
                    c.rep.violation(what, {"case": x})
                break
        else:
            c.rep.add(unconfirmed=len(found))
            c.rep.cov.setdefault("unconfirmed_what", []).extend(w for _, w in found[:5])
    return c.finish()
