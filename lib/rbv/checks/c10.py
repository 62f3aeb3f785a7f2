"""C10: handshake, hash, unchoke, requests."""
from .. import models, sess, strat
from ..campaign import Campaign, by_sessions, completed
from ..report import THOROUGH, SEED


def check():
    c = Campaign("C10")
    models.session(c.rep, (2,), 6 if THOROUGH else 4, 3 if THOROUGH else 2)
    H = list(strat.HS)
    for kind, n in (("piece", 3), ("meta", 2)):
        pre = strat.ALL_PRE | ({"extless", "extmore", "exthuge"} if kind == "meta" else set())
        S = strat.generate(kind, n, hs=H, pre=pre, ans=strat.ALL_ANS, pre_max=1, ans_max=1, report=c.rep)
        S += strat.generate(kind, n, pre={"unchoke", "choke", "ext", "ext0", "extnout", "noise"}, pre_max=3 if kind == "piece" else 2,
                            base=False, report=c.rep)
        # choke after each block, at every position
        S += strat.generate(kind, n, ans={"good", "goodchoke", "choking", "choke"}, ans_max=n, report=c.rep)
        seen, U = set(), []
        for s in S:
            k = (s["hs"], tuple(s["pre"]), tuple(s["ans"]))
            if k not in seen:
                seen.add(k)
                U.append(s)
        S = strat.pick(c.rnd, U, (2500 if kind == "piece" else 900) if THOROUGH else (300 if kind == "piece" else 110))
        C = strat.Concrete(SEED)
        conc = [x for s in S for x in (C.every(s) if strat.weight(s) == 1 else [C.make(s)])]
        # every message without meaning next to an incomplete introduction
        I = strat.generate(kind, n, pre={"noise", "unchoke", "ext", "ext0", "extnout"}, pre_max=3, base=False, report=c.rep)
        I = [s for s in I if s["pre"].count("noise") == 1 and len(set(s["pre"])) == len(s["pre"]) and s["out"] != "ok"]
        conc += [x for s in (I if THOROUGH else strat.pick(c.rnd, I, 12 if kind == "piece" else 4)) for x in C.every(s)]
        c.rep.add(strategies=len(conc))
        jobs = (sess.piece_jobs(conc, n, seed=SEED, nproc=8, ntor=4) if kind == "piece"
                else sess.meta_jobs(conc, n, seed=SEED, per=8))
        c.go("%s attempts" % kind, jobs, [by_sessions("C10")], parallel=12)
    # long ones: numbers of many digits and bytes
    ts = [{"torrent": {"name": "i%d" % k, "length": n, "pl": n // 3, "seed": SEED * 23 + k, "info_size": size}, "eps": 12, "default": {"ut": 255 - k}, "metaq": [{"ut": 255 - k}]}
          for k, (n, size) in enumerate(((300, 101 * 16384), (300, 258 * 16384 + 5), (15 << 20, 600), (50 * 16384, 11 * 16384 - 1)))]
    c.go("long sessions", [("swarm:download", {"torrents": ts, "trackers": c.urls, "timeout": 60, "gather": True, "watch": False})], [by_sessions("C10"), completed])
    c.rep.assumptions += ["peers answer within the pauses the heartbeat of the environment confirms; late sessions are only partly judged"]
    return c.finish()
