"""Strategies: enumerated by TLC from SessionGen.tla, made concrete here."""
import random

from . import tlc
from .swarm import JUNK

JBAD = ["j:" + k for k, v in JUNK.items() if v[1] == "bad"]
NOISE = ["have", "bitfield", "noext", "cancel", "unknown", "reject16", "ka", "fill:5:255:200"]
FRAG = ["half", "halfmsg", "biglen", "hugelen"]
HS = {"good": ["good"], "bad": ["bad"] + ["bad%d" % k for k in range(20)], "frag": ["short", "junk", "shortclose"],
      "late": ["unchokefirst"], "silent": ["silent"], "close": ["close"], "slow": ["slow"]}
BIG = ["big:%d" % n for n in (17000, 66000, 132000, 300000, 1000000)]
CORRUPT = ["corrupt", "corruptlast", "zero", "short", "empty", "long", "other", "rev", "dupbyte", "short1"]
MCORRUPT = ["corrupt", "short", "long", "empty"]
CHATTER = ["chatter", "kachatter", "bfchatter"]

ALL_PRE = {"noise", "ka", "bad", "frag", "ext0", "extnout", "choke", "unchoke", "silent", "close", "rst", "chatter",
           "noise12", "unsol", "pause"}
ALL_ANS = {"good", "corrupt", "dup", "goodchoke", "noisegood", "badgood", "choking", "extgood", "silent", "close", "rst",
           "frag", "bad", "choke", "chatter", "reject", "noise", "pausegood"}


def generate(kind, n, hs=("good",), pre=(), ans=(), pre_max=0, ans_max=0, base=True, report=None):
    """-> [{hs, pre, ans, out, demand, nreq}] with TLC's predictions."""
    r = tlc.run("SessionGen", {"Kind": kind, "N": n, "HsTok": set(hs), "PreTok": set(pre), "AnsTok": set(ans),
                               "PreMax": pre_max, "AnsMax": ans_max, "Base": base,
                               "IdleMax": 10, "ChatMax": 40, "MaxParts": 64}, workers=1, timeout=300)
    if report is not None:
        report.model("SessionGen/%s/%d" % (kind, n), r, "enumerates %d peer strategies and predicts each outcome" % len(r.printed))
    elif not r.ok:
        raise tlc.ToolError("SessionGen: %s\n%s" % (r.error, r.out[-3000:]))
    # TLC's order is stable, make ours independent of it anyway
    return sorted(r.printed, key=lambda s: (s["hs"], s["pre"], s["ans"]))


def rot(rnd, pool, state, name):
    """Variants in turn, so that all are used."""
    k = state.setdefault(name, rnd.randrange(len(pool)))
    state[name] = k + 1
    return pool[k % len(pool)]


class Concrete:
    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.st = {}

    def pre(self, tok, meta):
        r = lambda p, n: rot(self.rnd, p, self.st, n)
        if tok == "noise":
            return [r(NOISE, "noise")]
        if tok == "noise12":
            return [r(NOISE, "noise") for _ in range(12)]
        if tok == "bad":
            return [r(JBAD, "bad")]
        if tok == "frag":
            return [r(FRAG, "frag")]
        if tok == "chatter":
            return [r(CHATTER, "chat")]
        if tok == "big":
            return [r(BIG, "big")]
        if tok == "unsol":
            return ["piece0"]
        return [tok]

    def ans(self, tok, meta):
        r = lambda p, n: rot(self.rnd, p, self.st, n)
        one = lambda t: "+".join(self.pre(t, meta))
        if tok == "corrupt":
            return r(MCORRUPT, "mcor") if meta else r(CORRUPT, "cor")
        if tok == "dup":
            return "dup" if meta else "good+good"
        if tok == "goodchoke":
            return "good+choke"
        if tok == "noisegood":
            return one("noise") + "+good"
        if tok == "badgood":
            return one("bad") + "+good"
        if tok in ("biggood", "pausegood", "kaslowgood"):
            return one(tok[:-4]) + "+good"
        if tok == "choking":
            return "choke+unchoke+good"
        if tok == "extgood":
            return "ext+good"
        if tok == "reject":
            return "reject" if meta else "reject16"
        if tok == "frag":
            return r(["stall", "stallclose", "half", "halfmsg"], "afrag")
        if tok == "good":
            return "good"
        return one(tok)

    def make(self, s, **kw):
        meta = s["kind"] == "meta"
        d = {"hs": rot(self.rnd, HS[s["hs"]], self.st, "hs" + s["hs"]),
             "pre": [x for t in s["pre"] for x in self.pre(t, meta)],
             "ans": [self.ans(t, meta) for t in s["ans"]],
             "at": self.rnd.randrange(1 << 16), "bit": self.rnd.randrange(8),
             "abs": {k: s[k] for k in ("hs", "pre", "ans", "demand", "out")}}
        d.update(kw)
        return d

    POOL = {"noise": NOISE, "bad": JBAD, "frag": FRAG, "chatter": CHATTER, "big": BIG, "corrupt": CORRUPT}

    def every(self, s, **kw):
        """All concrete forms of a strategy in which one token has several."""
        n = max([len(HS[s["hs"]])] + [len(self.POOL.get(t, [0])) for t in s["pre"] + [a[:-4] if a.endswith("good") and a != "good" else a for a in s["ans"]]])
        return [self.make(s, **kw) for _ in range(n)]


def weight(s):
    return (s["hs"] != "good") + len(s["ans"]) + max(0, len(s["pre"]) - 2 if "ext" in s["pre"] else len(s["pre"]))


def pick(rnd, strategies, n, must=()):
    """n strategies: all the single-token ones first (they cover every class), then a seeded sample."""
    s = sorted(strategies, key=lambda x: (weight(x), x["hs"], x["pre"], x["ans"]))
    head = [x for x in s if weight(x) <= 1]
    if len(head) > n:
        rnd.shuffle(head)
        return head[:n]
    tail = s[len(head):]
    rnd.shuffle(tail)
    return head + tail[:n - len(head)]
