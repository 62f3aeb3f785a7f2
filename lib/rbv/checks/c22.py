"""C22: torrents downloaded at the same time do not interfere."""
import json
import time

from .. import sandbox, tlc
from ..build import ToolError
from ..campaign import Campaign
from ..report import THOROUGH, SEED
from ..world import PEER_PORT, STALL_PORT
from ..campaign import completed
from .c12 import capacity

SILENT = [{"pre": ["silent"]}, {"pre": ["chatter"]}, {"pre": ["unchoke"]}, {"pre": ["ext", "kachatter"]}, {"ans": ["silent"]}, {"ans": ["chatter"]}]
FAST = [{"hs": "close", "ka": 0}, {"hs": "bad"}, {"pre": ["rst"]}, {"ans": ["corrupt"]}, {"ans": ["choke"]}, {"pre": ["unchoke", "j:ext_trunc"]}]


def validate(rs, rep):
    enc = [{"good": r["good"], "ev": r["ev"]} for r in rs]
    r = tlc.run("ManyTrace", {}, constraint="Undecided", postcondition="Report", workers=1, timeout=300, files={"traces.json": json.dumps(enc)}, dfs=True)
    if not r.ok:
        raise ToolError("ManyTrace: %s\n%s" % (r.error or r.violated, r.out[-3000:]))
    rep.add(states=r.distinct, transitions=r.states, traces_validated_against_impl=len(rs), torrents=sum(len(x["good"]) for x in rs))
    return {p["tid"] - 1: p["at"] for p in r.printed}


def judge(c, jobs, rs):
    out = []
    bad = validate(rs, c.rep)
    for i, (j, r) in enumerate(zip(jobs, rs)):
        if r["died"] != "killed" or r["panics"]:
            out.append((j, "the client crashed: %s" % r["panics"][:2], {}))
        elif i in bad:
            at = bad[i]
            e = r["ev"][at - 1] if at <= len(r["ev"]) else None
            out.append((j, "TLC rejects the history of a client with %d torrents at event %d: %s" % (len(j[1]["torrents"]), at, e), {"at": at, "events": r["ev"][max(0, at - 40):at], "took": r["took"]}))
        if r["foreign"]:
            out.append((j, "bytes on disk that are not the torrent's: %s" % r["foreign"][:2], {}))
    return out


def go(c, name, jobs, parallel):
    t0 = time.time()

    def run(js, par):
        rs = sandbox.run_all(js, c.binary, par, 150)
        for r in rs:
            if "error" in r:
                raise ToolError(r["error"])
            if r["envbug"]:
                raise ToolError("environment bug: %r" % r["envbug"][:1])
        return judge(c, js, rs), rs
    found, rs = run(jobs, parallel)
    c.rep.add(processes=len(jobs))
    c.rep.cov.setdefault("scenarios", []).append({"name": name, "processes": len(jobs), "run_s": round(time.time() - t0, 1), "spans": [round(r["span"], 1) for r in rs][:12]})
    c.rep.sample({"scenario": name, "took": rs[0]["took"], "events": rs[0]["ev"][:12]})
    if not found:
        return
    again = []
    for j, _, _ in found:
        if j not in again:
            again.append(j)
    for _ in range(2):
        f2, _ = run(again[:4], 2)
        if f2:
            for j, what, d in f2[:10]:
                c.rep.violation("%s: %s" % (name, what), {"scenario": name, "detail": d, "job": j})
            return
    c.rep.add(unconfirmed=len(found))
    c.rep.cov.setdefault("unconfirmed_what", []).extend(w for _, w, _ in found[:5])


class Mix:
    def __init__(self, c, j):
        self.rnd, self.j, self.ts = c.rnd, j, []

    def eps(self, n=None, port=PEER_PORT, shared=False):
        n = n or self.rnd.choice([11, 12, 14, 20])
        a = "20.0.0" if shared else "10.%d.0" % (len(self.ts) + 1)
        return [["%s.%d" % (a, i + 1), port] for i in range(n)]

    def tor(self, **kw):
        k = len(self.ts)
        t = {"name": "t%d" % k, "pl": self.rnd.choice([64, 100, 16384, 20000]), "seed": SEED * 1000 + self.j * 100 + k}
        n = self.rnd.choice([1, 2, 3, 7, 12])
        size = t["pl"] * n - self.rnd.randrange(0, t["pl"] // 2)
        if self.rnd.random() < .4:
            parts, left = [], size
            while left > 0:
                m = min(left, self.rnd.randrange(1, size + 1))
                parts.append([["d%d" % self.rnd.randrange(2), "t%df%d" % (k, len(parts))], m])
                left -= m
            t["files"] = parts
        else:
            t["length"] = size
        t.update(kw)
        return t

    def good(self, **kw):
        d = {"torrent": self.tor(), "eps": self.eps(shared=self.rnd.random() < .3), "lax": True}
        if self.rnd.random() < .3:
            d["metaq"] = [dict(self.rnd.choice(FAST)) for _ in range(self.rnd.randrange(1, 3))]
        if self.rnd.random() < .5:
            d["pieceq"] = [dict(self.rnd.choice(FAST)) for _ in range(self.rnd.randrange(1, 4))]
        if self.rnd.random() < .3:
            d["default"] = {"ans": ["slow"]}
        d.update(kw)
        self.ts.append(d)

    def bad(self, kind):
        d = {"torrent": self.tor(), "eps": self.eps(14), "lax": True, "doomed": True}
        name = d["torrent"]["name"]
        if kind == "mute":              # nobody gives the metadata
            d["metaq"] = [dict(self.rnd.choice(SILENT[:5])) for _ in range(14)]
        elif kind == "useless":         # metadata, but no piece
            d["default"] = dict(self.rnd.choice(SILENT))
        elif kind == "liars":
            d["default"] = {"ans": ["corrupt"] * 400, "wait": 0.15}
        elif kind == "gone":            # every peer vanishes after the reachability probe
            d["eps"] = self.eps(12, STALL_PORT)
        elif kind == "few":
            d["eps"] = self.eps(10)
        elif kind == "nobody":
            d["eps"] = []
        elif kind == "dir":             # a directory where the file should be
            d["torrent"] = self.tor(length=12 * 64, pl=64, files=None)
            d["dirs"] = [name]
        elif kind == "file":            # a file where the directory should be
            d["torrent"] = self.tor(files=[[[name + "x", "y"], 900], [[name + "z"], 500]], length=None, pl=64)
            d["files_in_the_way"] = [name + "x"]
        elif kind == "fifo":            # writing never ends
            d["torrent"] = self.tor(length=12 * 64, pl=64, files=None)
            d["fifos"] = [name]
        elif kind == "long":
            d["torrent"] = self.tor(name="n" * 300, length=12 * 64, pl=64, files=None)
        elif kind == "halfway":         # one of the files cannot be written
            d["torrent"] = self.tor(files=[[[name + "a"], 300], [["m" * 300], 300], [[name + "b"], 300]], length=None, pl=64)
        self.ts.append(d)


BAD = ["mute", "useless", "liars", "gone", "few", "nobody", "dir", "file", "long", "halfway", "fifo"]


def check():
    c = Campaign("C22")
    P = {"p1", "p2"} if THOROUGH else {"p1"}
    r = tlc.run("Concurrent", {"Torrents": {"t1", "t2", "t3"}, "Bad": {"t3"}, "Workers": {"w1"}, "W": 1, "Pieces": P, "Own": True}, invariants=["Inv_Width", "Inv_Once"], properties=["Live_Good"], workers=6)
    c.rep.model("Concurrent", r, "two good torrents and one whose steps may take for ever, one HTTP worker; good ones complete")
    r = tlc.run("Concurrent", {"Torrents": {"t1", "t2"}, "Bad": {"t2"}, "Workers": {"w1"}, "W": 1, "Pieces": {"p1"}, "Own": False}, properties=["Live_Good"], workers=2)
    if r.error is None or "Live_Good was violated" not in r.error:
        raise ToolError("torrents living on the workers should starve each other: %s" % r.out[-2000:])
    jobs = []
    for j in range(30 if THOROUGH else 11):
        m = Mix(c, j)
        first = []
        if j % 3 == 0:        # more stuck torrents than the client has workers, then good ones
            for i in range(10):
                m.bad(("mute", "mute", "gone", "useless")[i % 4] if j % 2 == 0 else "mute")
            for i in range(5):
                m.good()
            order = list(range(15))
            waves = [{"post": order[:10], "wait": 0.8}, {"post": order[10:]}]
        else:
            ks = BAD * 1 if j % 3 == 1 else [c.rnd.choice(BAD) for _ in range(8)]
            for k in ks:
                m.bad(k)
            for i in range(8):
                m.good()
            order = list(range(len(m.ts)))
            c.rnd.shuffle(order)
            h = len(order) // 2
            waves = [{"post": order[:h], "wait": c.rnd.choice([0, 0.3, 1.5]), "gap": 0.01}, {"post": order[h:], "gap": c.rnd.choice([0, 0.1])}]
        jobs.append(("many:together", {"torrents": m.ts, "trackers": c.urls, "waves": waves, "due": 15}))
    # many good ones at once
    m = Mix(c, 99)
    for i in range(40 if THOROUGH else 24):
        m.good(eps=m.eps(12))
    jobs.append(("many:together", {"torrents": m.ts, "trackers": c.urls, "waves": [{"post": list(range(len(m.ts))), "gap": 0}], "due": 25}))
    # torrents of many pieces whose peers are the same
    for j in range(6 if THOROUGH else 1):
        m = Mix(c, 200 + j)
        for i in range(8):
            m.good(eps=m.eps(11 + j, shared=True), torrent=m.tor(pl=64, length=64 * (35 + 9 * i) - 5, files=None), pieceq=[], metaq=[], default={})
        jobs.append(("many:together", {"torrents": m.ts, "trackers": c.urls, "waves": [{"post": list(range(8)), "gap": 0}], "due": 25}))
    # paths that differ, names and shapes that do not
    for j in range(6 if THOROUGH else 2):
        m = Mix(c, 400 + j)
        size = [900, 64 * 12, 5000, 20000, 1][(j + SEED) % 5]
        pl = c.rnd.choice([64, 100, 4096])
        for i in range(10):
            n = "s%d" % i
            f = [[[[n, "data"], size], [[n, "info"], 70]], [[["data", n, "x"], size], [["data", n, "y"], 1]], [[["a", "b", "c", n, "data"], size]], [[[n * 30 + "1"], size], [[n * 30 + "2"], 10]]][j % 4]
            m.good(eps=m.eps(11 + i % 3, shared=i % 2 == 0), torrent=m.tor(pl=pl, files=f, length=None), pieceq=[], metaq=[], default={"ans": ["slow"]} if i % 3 else {})
        jobs.append(("many:together", {"torrents": m.ts, "trackers": c.urls, "waves": [{"post": list(range(10)), "gap": 0.01}], "due": 25}))
    # writes that never end, and torrents added before and after
    m = Mix(c, 300)
    for i in range(3):
        m.good()
        m.bad("fifo")
        m.good()
    jobs.append(("many:together", {"torrents": m.ts, "trackers": c.urls, "waves": [{"post": [0, 1, 4], "wait": 1.5}, {"post": [2, 3, 5, 6, 7, 8], "gap": 0.05}], "due": 15}))
    go(c, "torrents together", jobs, 6)
    # each has its five transfers, however many there are
    slow = {"ans": ["slow", "slow", "slow", "slow"], "cap": True}
    jobs = []
    for j in range(4 if THOROUGH else 1):
        jobs.append(("swarm:download", {"torrents": [{"torrent": {"name": "w%d" % k, "length": 12 * 64, "pl": 64, "seed": SEED * 31 + 50 * j + k}, "eps": 11 + k % 3, "lax": True, "default": slow, "capacity": True} for k in range(18)],
                                        "trackers": c.urls, "timeout": 40, "gather": True}))
    c.go("eighteen at once", jobs, [completed, capacity], parallel=2)
    return c.finish()
