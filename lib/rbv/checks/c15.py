"""C15: a request body is the magnet of exactly one torrent, or is refused."""
import json
import random

from .. import build, harness, sandbox, tlc
from ..build import ToolError
from ..campaign import Campaign
from ..report import SEED, THOROUGH

PRE = b"magnet:?xt=urn:btih:"
B32 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"


def b32(h):
    n = int.from_bytes(h, "big")
    return bytes(B32[(n >> (155 - 5 * i)) & 31] for i in range(32))


TAILS = [b"&tr=%ff%fe", b"&tr=", b"&tr", b"&tr=udp://tracker.invalid:80/announce", b"&tr=http://[::1", b"&tr=http://[::1]:99999/", b"&tr=%", b"&tr=%zz", b"&dn=%ff%00%fe", b"&dn=" + b"%41" * 300, b"&dn=+%2B+", b"&dn",
         b"&xl=99999999999999999999999", b"&xl=-1", b"&x.pe=1.2.3.4:5", b"&x.pe=[::1]:99999", b"&ws=http://a/%ff", b"&=", b"&&&&", b"&%", b"&so=0-5,9", b"&so=5-0", b"#frag", b"&xt=urn:btmh:1220", b"&xt=", b"&xt",
         b"&tr=a&tr=b&tr=" + b"c" * 500, b"&kt=a+b", b"&mt=http://x", b"&as=http://x", b"&xs=http://x", b"&dn=a=b=c", b"&dn=\xc3\xa9\xf0\x9f\x98\x80", b"&dn=../../x", b"&dn=%2e%2e%2fx", b"&\x01\x7f", b"&dn=\r\nX: y", b"&tr=wss://x", b"&tr=UDP://X",
         b"&" + b"a=b&" * 2000, b"&dn=;,?:@", b"&tr=udp%3A%2F%2F%5B"]


def rand_bodies(rnd, n):
    """Random hashes in every form, and random damage."""
    out = []
    for i in range(n):
        h = rnd.choice([rnd.randbytes(20), bytes([rnd.choice([0, 255, 127, 128, 15, 240, 160, 10])]) * 20, rnd.randbytes(10) + bytes(10)])
        f = rnd.choice(["hex", "HEX", "Hex", "b32", "b32", "b32low"])
        d = {"hex": h.hex().encode(), "HEX": h.hex().upper().encode(), "Hex": bytes(rnd.choice([c, ord(chr(c).upper())]) for c in h.hex().encode()), "b32": b32(h), "b32low": b32(h).lower()}[f]
        t = rnd.choice([b"", b"", b"&", b"&dn=a%20b&tr=udp%3A%2F%2Fx", "&dn=ß𝄞".encode(), b"&xt=urn:btih:" + rnd.randbytes(20).hex().encode(), b"&" + b"x" * rnd.choice([10, 1000, 8000])] + [rnd.choice(TAILS)] * 7)
        w = bytearray(PRE + d + t)
        if rnd.random() < .55:
            for _ in range(rnd.choice([1, 1, 1, 2, 5])):
                k = rnd.choice([rnd.randrange(len(w)), rnd.randrange(20, min(62, len(w))), rnd.randrange(20, min(62, len(w)))]) if len(w) > 20 else 0
                k = min(k, len(w) - 1) if w else 0
                op = rnd.randrange(5)
                if op == 0 and w:
                    w[k] = rnd.randrange(256)
                elif op == 1:
                    w.insert(k, rnd.choice(b"0aAzZ&=:%+ \x00\xff"))
                elif op == 2 and w:
                    del w[k]
                elif op == 3 and w:
                    w[k] = rnd.choice(b"0123456789abcdefABCDEFGghzZ@[`{/:&=+-_%")
                else:
                    w = w[:k]
        out.append(bytes(w))
    return out


ODD = [b"", b"&", b"magnet:", PRE, PRE + b"&", PRE * 3, PRE[:-1], b"\x00" * 40, "é".encode() * 20, PRE + "é".encode() * 20, PRE + "é".encode() * 16, PRE + "𝄞".encode() * 10, PRE + b"\xff" * 40, PRE + b"0x" + b"a" * 38,
       PRE + b"+" * 40, PRE + b"-1" * 20, PRE + b" " + b"a" * 39, PRE + b"a" * 40 + b"\r\n", PRE + b"=" * 32, PRE + b"A" * 31 + b"=", PRE + b"A" * 24 + b"=" * 8, PRE + b"0" * 32, PRE + b"1" * 32, PRE + b"8" * 32,
       b"https://example.org/?" + PRE + b"a" * 40, b'{"magnet": "' + PRE + b"a" * 40 + b'"}', b"magnet:?dn=x&xt=urn:btih:" + b"a" * 40, b"magnet:?xt=urn:sha1:" + b"A" * 32, b"magnet:?xt=urn:btmh:1220" + b"a" * 64,
       PRE + b"a" * 39, PRE + b"a" * 41, PRE + b"a" * 80, PRE + b"A" * 33, PRE + b"&" * 40, PRE + b"a" * 20 + b"&" + b"a" * 19]


def judge(c, recs, chunk=1500):
    out = []
    for i in range(0, len(recs), chunk):
        r = tlc.run("MagnetTrace", {"File": "t.ndjson"}, postcondition="Done", workers=1, timeout=300, files={"t.ndjson": "".join(json.dumps(x) + "\n" for x in recs[i:i + chunk])})
        if not r.ok:
            raise ToolError("MagnetTrace: %s %s" % (r.violated or r.error, r.out[-2000:]))
        c.rep.add(states=r.distinct, transitions=r.states)
        out += [i + x["bad"] - 1 for x in r.printed]
    return out


CUT = 120        # where a body is decided at the latest


def text(w):
    try:
        w.decode()
        return True
    except UnicodeDecodeError:
        return False


def denoted(w):
    """For bookkeeping only: verdicts are TLC's."""
    return w.startswith(PRE) and len(w[20:].split(b"&")[0]) in (32, 40)


def check():
    c = Campaign("C15")
    rnd = random.Random(SEED * 77)
    r = tlc.run("MagnetGen", {"As": {3, 7, 11, 0} if THOROUGH else {3}, "Bs": {5, 255} if THOROUGH else {5}}, invariants=["Inv_Right", "Inv_Wrong", "Inv_Put", "Inv_Size", "Emit"], workers=1, timeout=600)
    c.rep.model("MagnetGen", r, "bodies by construction (form, beginning, damage, tail): reading gives back what was written, nothing else")
    gen = [bytes(x["w"]) for x in r.printed]
    c.rep.add(enumerated_bodies=len(gen))
    h = build.harness("h_magnet")
    if h:
        ws = gen + ODD + rand_bodies(rnd, 20000 if THOROUGH else 2500)
        rs = harness.run(h, [{"hex": w.hex()} for w in ws], 10, 6)
        recs = [{"op": "parse", "w": list(w[:CUT]), "out": "ok" if "ok" in x else "err" if "err" in x else "crash", "h": list(bytes.fromhex(x["ok"])) if "ok" in x else []} for w, x in zip(ws, rs)]
        c.rep.add(parsed_bodies=len(ws), parsed_ok=sum("ok" in x for x in rs))
        for k in judge(c, recs):
            c.rep.violation("TLC rejects what the parser made of %r: %s" % (ws[k][:120], str(rs[k])[:200]), {"body": ws[k].hex(), "got": rs[k]})
    else:
        c.rep.notes.append("harness does not fit this tree")
    # the whole client: statuses, announces, sessions
    jobs = []
    per = 330
    n = 12 if THOROUGH else 5
    pool = [w for w in gen if not denoted(w)]
    some = [w for w in gen if denoted(w)]
    rnd.shuffle(pool)
    rnd.shuffle(some)
    for j in range(n):
        ws = pool[j::n][:150] + some[j::n][:70] + ODD + [w for w in rand_bodies(rnd, 130)]
        ws += [PRE + rnd.randbytes(20).hex().encode() + t for t in TAILS[j % 2::2] if t != b"#frag"]
        ws += [b"z" * 300000, PRE + b"f" * 270000]
        keep, acc = [], 0
        for w in ws:
            acc += denoted(w)
            if acc <= 160 or not denoted(w):
                keep.append(w)
        rnd.shuffle(keep)
        jobs.append(("intake:bodies", {"tracker": c.urls[0], "bodies": [w.hex() for w in keep], "parallel": [1, 6, 20][j % 3]}))

    def run(js, par):
        found = []
        rs = sandbox.run_all(js, c.binary, par, 150)
        for j, x in zip(js, rs):
            if "error" in x:
                raise ToolError(x["error"])
            if x["envbug"]:
                raise ToolError("environment bug: %r" % x["envbug"][:1])
            ws = [bytes.fromhex(b) for b in j[1]["bodies"]]
            if x["died"] != "killed" or x["panics"] or x["last"] != 200:
                found.append((j, "the client crashed or stopped serving: %s, last status %s" % (x["panics"][:2], x["last"]), {}))
            if x["wrong"]:
                found.append((j, "sessions with peers of another torrent: %s" % x["wrong"], {}))
            cut = [list(w[:CUT]) for w in ws]
            recs = [{"op": "post", "w": w, "st": s, "text": text(b)} for w, b, s in zip(cut, ws, x["sts"])]
            last = list(PRE + b"ab" * 20)
            recs += [{"op": "run", "w": [], "ws": cut + [last], "sts": x["sts"] + [x["last"]], "hs": [list(bytes.fromhex(q)) for q in sorted(set(x["ann"]))]},
                     {"op": "run", "w": [], "ws": cut + [last], "sts": x["sts"] + [x["last"]], "hs": [list(bytes.fromhex(q)) for q in sorted(set(x["sess"]))]}]
            c.rep.add(posts=len(ws), accepted=sum(s == 200 for s in x["sts"]), announced_hashes=len(set(x["ann"])), session_hashes=len(set(x["sess"])), traces_validated_against_impl=1)
            for k in judge(c, recs):
                if k < len(ws):
                    found.append((j, "TLC rejects status %s for the body %r" % (x["sts"][k], ws[k][:150]), {"body": ws[k].hex()[:400], "status": x["sts"][k]}))
                else:
                    found.append((j, "TLC rejects the set of hashes %s" % ("announced" if k == len(ws) else "seen in handshakes"), {"announced": x["ann"], "sessions": x["sess"]}))
        return found, rs
    found, rs = run(jobs, 6)
    c.rep.cov.setdefault("scenarios", []).append({"name": "bodies posted", "processes": n, "spans": [round(x["span"], 1) for x in rs]})
    c.rep.sample({"body": jobs[0][1]["bodies"][0][:200], "status": rs[0]["sts"][0]})
    if found:
        again = []
        for j, _, _ in found:
            if j not in again:
                again.append(j)
        for _ in range(2):
            f2, _ = run(again[:3], 2)
            if f2:
                for j, what, d in f2[:10]:
                    c.rep.violation("bodies posted: " + what, {"detail": d, "job": j})
                break
        else:
            c.rep.add(unconfirmed=len(found))
            c.rep.cov.setdefault("unconfirmed_what", []).extend(x[1] for x in found[:5])
    return c.finish()
