"""Values and byte strings for the bencode checks, and the two ways of judging them."""
import json

from . import tlc
from .build import ToolError


def h2v(v):
    """Harness value -> specification value."""
    (k, x), = v.items()
    if k == "i":
        return {"k": "i", "n": list(x.encode())}
    if k == "s":
        return {"k": "s", "b": list(bytes.fromhex(x))}
    if k == "l":
        return {"k": "l", "e": [h2v(y) for y in x]}
    if k == "d":
        return {"k": "d", "e": [[list(bytes.fromhex(a)), h2v(b)] for a, b in x]}
    return {"k": k}


def v2h(v, text=False):
    """Specification value -> harness value."""
    k = v["k"]
    if k == "i":
        return {"i": bytes(v["n"]).decode()}
    if k == "s":
        return {"t" if text and is_text(v["b"]) else "s": bytes(v["b"]).hex()}
    if k == "l":
        return {"l": [v2h(x, text) for x in v["e"]]}
    return {"d": [[bytes(a).hex(), v2h(b, text)] for a, b in v["e"]]}


def is_text(b):
    try:
        bytes(b).decode()
        return True
    except UnicodeDecodeError:
        return False


def h2e(v):
    """Harness value -> its canonical encoding."""
    (k, x), = v.items()
    if k == "i":
        return b"i%se" % x.encode()
    if k == "s":
        return b"%d:" % (len(x) // 2) + bytes.fromhex(x)
    if k == "l":
        return b"l" + b"".join(h2e(y) for y in x) + b"e"
    if k == "d":
        return b"d" + b"".join(h2e({"s": a}) + h2e(b) for a, b in x) + b"e"
    return b"?"


def p2v(x):
    """Python value -> specification value."""
    if isinstance(x, int):
        return {"k": "i", "n": list(str(x).encode())}
    if isinstance(x, str):
        x = x.encode()
    if isinstance(x, bytes):
        return {"k": "s", "b": list(x)}
    if isinstance(x, list):
        return {"k": "l", "e": [p2v(y) for y in x]}
    return {"k": "d", "e": [[list(a), p2v(b)] for a, b in sorted(((k.encode() if isinstance(k, str) else k), v) for k, v in x.items())]}


def encodable(v):
    """Is it a value of the encoder's types (no negative integers, 64 bits)?"""
    k = v["k"]
    if k == "i":
        return v["n"][0] != 45 and int(bytes(v["n"])) < 1 << 64
    if k == "s":
        return True
    return all(encodable(x if k == "l" else x[1]) for x in v["e"])


def small(v):
    """All integers fit 64 bits."""
    k = v["k"]
    if k == "i":
        return -(1 << 63) <= int(bytes(v["n"])) < 1 << 63
    if k == "s":
        return True
    return all(small(x if k == "l" else x[1]) for x in v["e"])


def enumerate_inputs(rep, alphabet, maxlen, nest=4):
    r = tlc.run("BencodeGen", {"Alphabet": set(alphabet), "MaxLen": maxlen, "MaxNest": nest, "Tails": set()},
                invariants=["Inv_Exact", "Inv_OneReading", "Inv_Live", "Emit"], workers=1, timeout=600)
    rep.model("BencodeGen", r, "every byte sequence over %s up to %d that can begin a canonical encoding, and one byte more" % (bytes(sorted(alphabet)), maxlen))
    return r.printed


def judge(rep, recs, chunk=4000):
    """Indices of the recorded calls TLC rejects."""
    from concurrent.futures import ThreadPoolExecutor
    parts = [(i, recs[i:i + chunk]) for i in range(0, len(recs), chunk)]

    def one(p):
        r = tlc.run("BencodeTrace", {"File": "t.ndjson"}, postcondition="Done", workers=1, timeout=900,
                    files={"t.ndjson": "".join(json.dumps(x) + "\n" for x in p[1])})
        if not r.ok:
            raise ToolError("BencodeTrace: %s %s" % (r.violated or r.error, r.out[-2000:]))
        return [p[0] + x["bad"] - 1 for x in r.printed], r
    out = []
    with ThreadPoolExecutor(4) as ex:
        for bad, r in ex.map(one, parts):
            out += bad
            rep.add(states=r.distinct, transitions=r.states)
    return out
