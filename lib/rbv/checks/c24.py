"""C24: what is opened is closed again."""
import json
import time

from .. import sandbox, strat, tlc
from ..build import ToolError
from ..campaign import Campaign
from ..report import THOROUGH, SEED
from ..world import DEAF_PORT, PEER_PORT

META_FAIL = [{"hs": "close"}, {"hs": "bad"}, {"hs": "short"}, {"hs": "silent"}, {"pre": ["rst"]}, {"pre": ["close"]}, {"pre": ["silent"]}, {"pre": ["chatter"]}, {"pre": ["unchoke", "j:ext_trunc"]},
             {"pre": ["unchoke", "hugelen"]}, {"pre": ["half"]}, {"pre": ["unchoke", "ext0"]}, {"ans": ["corrupt"]}, {"ans": ["reject"]}, {"ans": ["silent"]}, {"ans": ["rst"]}, {"ans": ["close"]},
             {"pre": ["unchoke", "extnout"]}, {"meta": "flip"}, {"meta": "trunc"}]
PIECE_FAIL = [{"hs": "close"}, {"hs": "bad"}, {"hs": "short"}, {"hs": "silent"}, {"pre": ["rst"]}, {"pre": ["close"]}, {"pre": ["silent"]}, {"pre": ["chatter"]}, {"pre": ["unchoke", "j:piece_4"]},
              {"pre": ["unchoke", "hugelen"]}, {"pre": ["half"]}, {"ans": ["corrupt"]}, {"ans": ["choke"]}, {"ans": ["silent"]}, {"ans": ["rst"]}, {"ans": ["close"]}, {"ans": ["halfmsg"]}, {"ans": ["good", "corrupt"]},
              {"ans": ["stall"]}, {"pre": ["unchoke", "piece0"]}]
USERS = ["get", "cut", "head", "junk", "text", "none", "chunk", "keep"]
MODES = ["good", "silent", "garbage", "mute", "short", "tail", "twice"]
PER = 12          # threads that a torrent may have


def slow(st):
    return bool({"silent", "chatter", "half", "halfmsg", "hugelen", "stall", "short"} & set([st.get("hs")] + st.get("pre", []) + st.get("ans", [])))


def few(rnd, pool, n):
    """n of them, not many of which take long."""
    a, b = [x for x in pool if slow(x)], [x for x in pool if not slow(x)]
    out = rnd.sample(a, 2) + rnd.sample(b, min(len(b), n - 2))
    rnd.shuffle(out)
    return [dict(x) for x in out]


def validate(rs, rep):
    enc = [{"ev": r["ev"], "base": r["base"], "per": PER, "nfd": r["nfd"], "mb": r["mb"], "room": r["room"]} for r in rs]
    r = tlc.run("ResourcesTrace", {}, constraint="Undecided", postcondition="Report", workers=1, timeout=300, files={"traces.json": json.dumps(enc)}, dfs=True)
    if not r.ok:
        raise ToolError("ResourcesTrace: %s\n%s" % (r.error or r.violated, r.out[-3000:]))
    rep.add(states=r.distinct, transitions=r.states, traces_validated_against_impl=len(rs), looks=sum(e["e"] == "look" for x in rs for e in x["ev"]),
            uses=sum(e["e"] == "beg" for x in rs for e in x["ev"]), sessions=sum(r["sessions"] for r in rs))
    return {p["tid"] - 1: p["at"] for p in r.printed}


def judge(c, jobs, rs):
    for j, r in zip(jobs, rs):
        r["room"] = j[1]["room"]
    bad = validate(rs, c.rep)
    out = []
    for i, (j, r) in enumerate(zip(jobs, rs)):
        if r["died"] != "killed" or r["panics"]:
            out.append((j, "the client crashed: %s" % r["panics"][:2], {}))
        elif i in bad:
            at = bad[i]
            e = r["ev"][at - 1] if at <= len(r["ev"]) else None
            going = {}
            for x in r["ev"][:at]:
                if x["e"] in ("beg", "end"):
                    going[x["k"]] = going.get(x["k"], 0) + (1 if x["e"] == "beg" else -1)
            out.append((j, "TLC rejects what a client with %d torrents holds at event %d: %s while %s are in progress" % (r["torrents"], at, e, going), {"at": at, "event": e, "going": going, "base": r["base"]}))
    return out


def check():
    c = Campaign("C24")
    I, L = ["Inv_Held", "Inv_Width", "Inv_Threads"], ["Live_Quiet"]
    T = tlc.Raw
    W = T("[k \\in {\"session\", \"exchange\", \"write\"} |-> CASE k = \"session\" -> 2 [] k = \"exchange\" -> 1 [] OTHER -> 1]")
    base = {"Torrents": {"t1", "t2"}, "Kinds": {"session", "exchange", "write"}, "Width": W, "Ends": {"well", "failed", "silent"}, "Tries": 3 if THOROUGH else 2, "PerTorrent": 7}
    r = tlc.run("Resources", dict(base, Stays=T("{}"), Forgets=T("{}")), invariants=I, properties=L, workers=6, timeout=800)
    c.rep.model("Resources", r, "uses of all kinds that end in all ways; when all is over nothing is held")
    for k, how in (("session", "failed"), ("exchange", "silent"), ("write", "well")):
        r = tlc.run("Resources", dict(base, Tries=1, Stays=T("{}"), Forgets=T("{<<\"%s\", \"%s\">>}" % (k, how))), invariants=["Inv_Held"], workers=2)
        if not r.violated:
            raise ToolError("a forgotten release should be seen: %s" % r.out[-2000:])
    r = tlc.run("Resources", dict(base, Tries=1, Stays={"t1"}, Forgets=T("{}")), invariants=["Inv_Threads"], workers=2)
    if not r.violated:
        raise ToolError("a torrent that keeps its threads should be seen: %s" % r.out[-2000:])
    rnd, jobs, n = c.rnd, [], len(c.urls)

    def tor(k, j, **kw):
        return dict({"name": "w%d" % k, "pl": rnd.choice([100, 16384, 20000]), "seed": SEED * 1000 + j * 100 + k}, **kw)

    def eps(k, m, port=PEER_PORT):
        return [["10.%d.%d.%d" % (k + 1, i // 200, i % 200 + 1), port] for i in range(m)]

    def job(ts, **kw):
        jobs.append(("wear:wear", dict({"torrents": ts, "trackers": c.urls, "seed": SEED * 1000 + len(jobs), "room": 60,
                                        "waves": [{"post": list(range(len(ts))), "users": [], "wait": 1}]}, **kw)))

    def modes(kinds):
        return {str(i): rnd.choice(kinds) for i in range(1, n)}
    for j in range(10 if THOROUGH else 3):      # attempts that fail in all ways, then success
        ts = []
        for k in range(3):
            mf, pf = few(rnd, META_FAIL, 10), few(rnd, PIECE_FAIL, 14)
            t = tor(k, j)
            size = t["pl"] * rnd.choice([6, 9, 20])
            if k == 1:
                t["files"] = [[["d%d" % (i % 2), "w%df%d" % (k, i)], size // 6] for i in range(6)]
            else:
                t["length"] = size
            ts.append({"torrent": t, "eps": eps(k, rnd.choice([16, 22, 30])), "lax": True, "metaq": [dict(x) for x in mf], "pieceq": [dict(x) for x in pf]})
        job(ts, modes=modes(MODES), waves=[{"post": [0], "users": USERS, "wait": 1}, {"post": [1, 2], "users": USERS, "wait": 1}])
    for j in range(4 if THOROUGH else 1):       # nobody gives anything
        ts = [{"torrent": tor(k, 20 + j, length=1000), "eps": eps(k, 12), "lax": True, "doomed": True, "metaq": few(rnd, META_FAIL, 12) + [{"hs": "close"}] * 20} for k in range(6)]
        job(ts, modes=modes(["silent", "mute", "garbage", "short"]), waves=[{"post": list(range(6)), "users": USERS * 3, "wait": 1}])
    for j in range(3 if THOROUGH else 1):       # unreachable peers
        ts = [{"torrent": tor(k, 40 + j, length=5000), "lax": True, "doomed": True, "eps_by_tracker": {str(t): eps(30 + t, 40, (DEAF_PORT, 7990)[t % 2]) + eps(60 + t, 3) for t in range(n)},
               "metaq": [{"hs": "close"}] * 400, "default": {"hs": "close"}} for k in range(3)]
        job(ts, deaf=True)
    for j in range(3 if THOROUGH else 1):       # trackers that are not there, several torrents one after the other
        ts = [{"torrent": tor(k, 60 + j, length=3000), "eps": 12, "lax": True} for k in range(12)]
        for k, junk in ((1, "\xff\xfe"), (2, "{"), (3, "{}"), (5, "")):
            ts[k]["junk_copy"] = junk
        for k in (7, 8):
            ts[k].update(in_the_way=True, doomed=True)
        job(ts, modes={str(i): "down" for i in range(1, n)}, waves=[{"post": [k], "wait": 0.3} for k in range(12)])
    big = 96 if THOROUGH else 40                # much content
    ts = [{"torrent": {"name": "w%d" % k, "pl": 1 << 20, "seed": SEED + 90 + k, "length": big << 20}, "eps": 12, "lax": True, "pieceq": [{"ans": ["good"] * 50 + ["corrupt"]}] * 6} for k in range(3)]
    job(ts, waves=[{"post": [k], "wait": 1} for k in range(3)], timeout=120, room=60)
    t0 = time.time()

    def run(js, par):
        rs = sandbox.run_all(js, c.binary, par, 240)
        for r in rs:
            if "error" in r:
                raise ToolError(r["error"])
            if r["envbug"]:
                raise ToolError("environment bug: %r" % r["envbug"][:1])
        return judge(c, js, rs), rs
    found, rs = run(jobs, 8)
    c.rep.add(processes=len(jobs))
    c.rep.cov.setdefault("scenarios", []).append({"name": "use", "processes": len(jobs), "run_s": round(time.time() - t0, 1), "spans": [round(r["span"], 1) for r in rs][:12],
                                                  "peak": [r["peak"] for r in rs][:12], "threads": [(r["base"], r["threads"], r["torrents"]) for r in rs][:12],
                                                  "mb": [(r["mb"], r["final"]["mb"]) for r in rs][:12], "final": [(r["final"]["threads"], r["final"]["nfd"], r["start"]["nfd"]) for r in rs][:12], "complete": [r["reached"] for r in rs][:12]})
    for r in rs[:3]:
        c.rep.sample({"scenario": "use", "events": r["ev"][:6] + r["ev"][-2:], "final": r["final"]})
    if found:
        again = []
        for j, _, _ in found:
            if j not in again:
                again.append(j)
        for _ in range(2):
            f2, _ = run(again[:4], 2)
            if f2:
                for j, what, d in f2[:10]:
                    c.rep.violation("use: %s" % what, {"detail": d, "job": j})
                return c.finish()
        c.rep.add(unconfirmed=len(found))
        c.rep.cov.setdefault("unconfirmed_what", []).extend(w for _, w, _ in found[:5])
    return c.finish()
