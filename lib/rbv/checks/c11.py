"""C11: every attempt ends in bounded time."""
from .. import models, sess, strat
from ..campaign import Campaign, by_sessions, completed
from ..report import THOROUGH, SEED
from ..world import PEER_PORT, STALL_PORT

SLOWPRE = {"silent", "chatter", "frag", "noise12", "choke", "ext0", "bad"}
SLOWANS = {"silent", "chatter", "frag", "noise", "bad", "reject", "extgood", "corrupt"}
ENDLESS = ["chatter", "kachatter", "bfchatter", "junkchatter", "extchatter", "trickle", "half", "halfmsg", "biglen", "hugelen"]
MORE = [k + "chatter" for k in ("choke", "unchoke", "interested", "notinterested", "request", "data", "cancel", "port", "unknown", "meta", "reject", "hs", "chokehave", "haveka", "pex", "all")]


def check():
    c = Campaign("C11")
    models.session(c.rep, (2,), 5 if THOROUGH else 3, 2, live=True)
    H = list(strat.HS)
    for kind, n in (("piece", 2), ("meta", 2)):
        S = strat.generate(kind, n, hs=H, pre=SLOWPRE, ans=SLOWANS, pre_max=1, ans_max=1, report=c.rep)
        S += [s for s in strat.generate(kind, n, ans=SLOWANS | {"good"}, ans_max=2, report=c.rep) if len(s["ans"]) == 2 and s["ans"][0] == "good"]
        S += strat.generate(kind, n, pre={"unchoke", "choke", "ext", "noise"}, pre_max=2, base=False, report=c.rep)
        slow = [s for s in S if s["demand"] == "fail"]
        slow = strat.pick(c.rnd, slow, 900 if THOROUGH else (90 if kind == "piece" else 34))
        C = strat.Concrete(SEED)
        conc = [C.make(s) for s in slow]
        # every endless behaviour before, and in answer to, the first and the second request
        base = next(s for s in S if "chatter" in s["pre"] and s["demand"] == "fail")
        for tok in ENDLESS + (MORE if kind == "piece" or THOROUGH else c.rnd.sample(MORE, 5)):
            for where in ("nego", "half1", "half2", "first", "second"):
                d = C.make(base)
                d["abs"] = dict(d["abs"], demand="any")
                d["pre"] = {"nego": [tok], "half1": ["unchoke", tok], "half2": ["ext", tok]}.get(where, ["unchoke", "ext"])
                d["ans"] = {"first": [tok], "second": ["good", tok]}.get(where, [])
                if not (kind == "meta" and (where in ("half1", "nego") or tok in MORE and where == "first" or tok in ("half", "halfmsg", "biglen", "hugelen")) and not THOROUGH):
                    conc.append(d)
        c.rep.add(strategies=len(conc))
        jobs = (sess.piece_jobs(conc, n, seed=SEED, nproc=14, ntor=3, timeout=75) if kind == "piece" else
                sess.meta_jobs([dict(x, abs=dict(x["abs"], demand="fail")) for x in conc], n, seed=SEED, opts={"lax": True}, per=2 if not THOROUGH else 6, ntor=5, timeout=75))
        c.go("%s attempts" % kind, jobs, [by_sessions("C11"), completed], parallel=14, confirm=1)
    # peers that vanish: the reachability probe is answered, nothing after it
    jobs = []
    for j in range(6 if THOROUGH else 2):
        ts = []
        for k in range(5):
            good = [["10.%d.0.%d" % (k + 1, i + 1), PEER_PORT] for i in range(11)]
            gone = [["10.%d.1.%d" % (k + 1, i + 1), STALL_PORT] for i in range(1 + (j + k) % 3)]
            eps = gone + good if k % 2 else good[:5] + gone + good[5:]
            ts.append({"torrent": {"name": "g%d" % k, "length": 30 * 64 - 3, "pl": 64, "seed": 10 * j + k + SEED}, "eps": eps})
        jobs.append(("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 75, "gather": True}))
    c.go("peers that vanish", jobs, [by_sessions("C11"), completed], parallel=6)
    return c.finish()
