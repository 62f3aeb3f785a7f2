"""C09: what the client understands does not depend on segmentation or keep-alives."""
from .. import sess, strat, tlc
from ..campaign import Campaign, by_outcomes, by_sessions, completed
from ..report import THOROUGH, SEED


def framing(c):
    """Framing.tla: the reader against every segmentation of every short stream."""
    for lens, buf in (((0, 1, 3), 99), ((2, 0, 0, 1), 4), ((9, 0, 3), 5)) + ((((0, 1, 3), 4), ((0, 0, 4, 1), 5), ((3, 2, 1), 6), ((1, 1, 1, 0, 2), 4), ((12, 1, 7), 6), ((6, 6, 0, 6), 4)) if THOROUGH else ()):
        r = tlc.run("Framing", {"Lens": list(lens), "Hdr": 4, "Buf": buf}, invariants=["Inv_Prefix", "Inv_Done"], properties=["Live_All"], workers=4)
        c.rep.model("Framing", r, "every segmentation of a stream of messages with bodies of %s bytes, a socket holding %d" % (list(lens), buf))


def cutsets(rnd):
    out = [{"cuts": [k]} for k in (1, 2, 3, 4, 5, 6, -1)]
    out += [{"cuts": list(k)} for k in ((1, 2, 3), (4, 5), (1, 4), (2, 5, 6), (3, 4, 5, 6, 7), (2, -2), (5, -1))]
    out += [{"cuts": list(range(1, 12))}, {"cuts": [1, 13, 14]}, {"cuts": [20, 48, 67]}, {"cuts": [28, 29]}, {"cuts": [4, 4096, 8192, -100]},
            {"cuts": [19, 20]}, {"cuts": [47, 48]}, {"cuts": [67]}, {"cuts": [9, 12, 13]}, {"cuts": [1460, 2920, 4380]}]
    for o in out:
        o["gap"] = rnd.choice([0.01, 0.03, 0.08])
    out += [{"cuts": [k], "gap": 0.3} for k in (1, 4, 5, 20, -3)]
    out += [{"ka": 1}, {"ka": 3}, {"ka": 12}, {"ka": 1, "cuts": [2], "gap": 0.02}, {"ka": 2, "cuts": [5], "gap": 0.04},
            {"burst": True}, {"burst": True, "ka": 2}, {"burst": True, "cuts": [3], "gap": 0.02}]
    return out


def check():
    c = Campaign("C09")
    framing(c)
    cs = cutsets(c.rnd)
    for kind, n in (("piece", 3), ("meta", 2)):
        S = strat.generate(kind, n, pre={"noise", "ka", "bad", "choke", "ext0"}, ans={"good", "corrupt", "goodchoke", "noisegood", "extgood"},
                           pre_max=1, ans_max=2 if THOROUGH else 1, report=c.rep)
        S = [s for s in S if s["demand"] != "any"]
        C = strat.Concrete(SEED)
        conc = []
        for k in range((12 if kind == "piece" else 4) if THOROUGH else (5 if kind == "piece" else 1)):
            for o in cs:
                s = c.rnd.choice(S) if k else next(x for x in S if x["demand"] == "ok" and not x["ans"] and len(x["pre"]) == 2)
                if o.get("burst") and s["pre"] != ["unchoke", "ext"]:
                    s = S[0] if S[0]["pre"] == ["unchoke", "ext"] else next(x for x in S if x["pre"] == ["unchoke", "ext"] and not x["ans"])
                conc.append(C.make(s, **o))
        # the handshake cut at every offset
        good = next(x for x in S if x["demand"] == "ok" and not x["ans"] and x["pre"] == ["unchoke", "ext"])
        if kind == "piece":
            conc += [C.make(good, hscuts=[k], gap=0.03) for k in range(1, 68, 1 if THOROUGH else 3)]
            conc += [C.make(good, hscuts=[a, b], gap=0.05) for a, b in ((1, 2), (1, 67), (19, 48), (20, 28), (47, 49))]
        # messages larger than what the socket holds, at every place
        B = strat.generate(kind, n, pre={"big"}, ans={"good", "biggood"}, pre_max=1, ans_max=n, report=c.rep)
        B = strat.pick(c.rnd, [s for s in B if "big" in s["pre"] or "biggood" in s["ans"]], (40 if kind == "piece" else 12) if THOROUGH else (10 if kind == "piece" else 5))
        conc += [C.make(s, **(c.rnd.choice(cs) if k % 2 and len(s["pre"]) < 4 else {})) for k, s in enumerate(B)]
        # keep-alives one at a time, for longer than the client would wait for anything else
        B = strat.generate(kind, n, pre={"kaslow"}, ans={"good", "kaslowgood"}, pre_max=1, ans_max=n, report=c.rep)
        B = strat.pick(c.rnd, [s for s in B if ("kaslow" in s["pre"]) + s["ans"].count("kaslowgood") == 1], 40 if THOROUGH else 6 if kind == "piece" else 3)
        conc += [C.make(s) for s in B]
        c.rep.add(strategies=len(conc))
        jobs = (sess.piece_jobs(conc, n, seed=SEED, nproc=10, ntor=3) if kind == "piece" else sess.meta_jobs(conc, n, seed=SEED, per=8, ntor=6))
        c.go("%s attempts, segmented" % kind, jobs, [by_sessions("C09"), by_outcomes, completed], parallel=10)
    return c.finish()
