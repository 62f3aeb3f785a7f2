"""C16: exchanges with UDP trackers that lose, delay, duplicate and garble datagrams."""
import json
import time

from .. import build, sandbox, tlc
from ..build import ToolError
from ..campaign import Campaign
from ..report import THOROUGH, SEED

TOL, BOUND = 2, 16


def validate(exs, rep, chunk=400):
    bad = []
    for b in range(0, len(exs), chunk):
        part = exs[b:b + chunk]
        r = tlc.run("UdpTrace", {"MinTries": TOL + 1, "MaxTries": BOUND}, constraint="Undecided", postcondition="Report", workers=1, timeout=300,
                    files={"traces.json": json.dumps([{"whole": x["whole"], "late": x["late"], "ev": x["ev"]} for x in part])}, dfs=True)
        if not r.ok:
            raise ToolError("UdpTrace: %s\n%s" % (r.error or r.violated, r.out[-3000:]))
        rep.add(states=r.distinct, transitions=r.states, traces_validated_against_impl=len(part))
        bad += [(part[p["tid"] - 1], p["at"]) for p in r.printed]
    return bad


def run(c, jobs, parallel=8):
    """-> [(job, result)]"""
    res = sandbox.run_all(jobs, c.binary, parallel, 200)
    for r in res:
        if "error" in r:
            raise ToolError(r["error"])
        if r["envbug"]:
            raise ToolError("environment bug: %r" % r["envbug"][:1])
    return list(zip(jobs, res))


def judge(c, pairs):
    found = []
    exs, where = [], {}
    for j, r in pairs:
        for x in r["exchanges"]:
            where[id(x)] = j
            exs.append(x)
        if r["died"] != "killed" or r["panics"]:
            found.append((j, "the client crashed: %s" % r["panics"][:2], {}))
        if r["stray"]:
            found.append((j, "peers were contacted that no accepted reply listed: %s" % r["stray"][:3], {}))
    c.rep.add(exchanges=len(exs))
    for x, at in validate(exs, c.rep):
        found.append((where[id(x)], "TLC rejects an exchange at event %d: script %s, %s (%d of %d listed peers contacted)" % (at, {k: x["script"].get(k) for k in "ca"}, x["ev"][max(0, at - 3):at], x["contacts"], x["wanted"]),
                      {"exchange": x, "at": at}))
    # what TLC said would become of it
    for x in exs:
        f = x["script"].get("fate")
        if f is None or x["late"] or not x["whole"]:
            continue
        c.rep.add(outcomes_compared=1)
        got = x["contacts"] > 0
        if x["wanted"] and ((f == "ok" and not got) or (f == "none" and got)):
            found.append((where[id(x)], "the peers were %s: script %s" % ("not taken" if f == "ok" else "taken", x["script"]), {"exchange": x}))
    return found


def go(c, name, jobs):
    t0 = time.time()
    pairs = run(c, jobs)
    c.rep.cov.setdefault("scenarios", []).append({"name": name, "processes": len(jobs), "run_s": round(time.time() - t0, 1), "spans": [round(r["span"], 1) for _, r in pairs][:12]})
    for x in pairs[0][1]["exchanges"][:2]:
        c.rep.sample({"scenario": name, "exchange": x})
    found = judge(c, pairs)
    c.rep.add(processes=len(jobs))
    if found:
        again = []
        for j, _, _ in found:
            if j not in again:
                again.append(j)
        for _ in range(2):
            f2 = judge(c, run(c, again[:4], 2))
            if f2:
                for j, what, d in f2[:10]:
                    c.rep.violation("%s: %s" % (name, what), {"scenario": name, "detail": d, "job": j})
                return pairs
        c.rep.add(unconfirmed=len(found))
        c.rep.cov.setdefault("unconfirmed_what", []).extend(w for _, w, _ in found[:5])
    return pairs


def check():
    c = Campaign("C16")
    r = tlc.run("Udp", {"MaxTries": 4, "MaxReplies": 4 if THOROUGH else 3}, invariants=["Inv_Ids", "Inv_OnlyMatching", "Inv_Bounded", "Inv_Tolerant"], properties=["Act_Matching", "Live_Ends"], workers=6)
    c.rep.model("Udp", r, "all sequences of lost, duplicated, delayed and mismatched datagrams in one exchange")
    r = tlc.run("UdpGen", {"Tol": TOL}, workers=1)
    c.rep.model("UdpGen", r, "enumerates what a tracker does in one step and what becomes of it")
    S = sorted(r.printed, key=lambda p: p["s"])
    rnd = c.rnd
    nt = len(c.urls)
    M, nj = 6, (60 if THOROUGH else 7)

    def both(a, b):
        return "none" if "none" in (a, b) else "any" if "any" in (a, b) else "ok"
    plain = [p for p in S if p["s"] == ["good"]][0]
    combos = [(p, plain) for p in S] + [(plain, p) for p in S]
    while len(combos) < nt * M * nj:
        combos.append((rnd.choice(S), rnd.choice(S)))
    rnd.shuffle(combos)
    combos = combos[:nt * M * nj]
    sizes = [0, 1, 1, 2, 3, 5, 8, 10, 49, 50, 74, 75, 100, 200]
    jobs, k = [], 0
    for j in range(nj):
        sc = {}
        for t in range(nt):
            q = []
            for m in range(M):
                a, b = combos[k]
                k += 1
                q.append({"c": a["s"], "a": b["s"], "fate": both(a["f"], b["f"]), "peers": sizes[k % len(sizes)], "tail": (0, 0, 1, 5)[k % 4], "seed": k + SEED, "delay": (2.35, 1.2, 2.35, 3.1)[k // 3 % 4]})
            sc[str(t)] = q
        jobs.append(("intake:exchanges", {"magnets": M, "seed": SEED * 100 + j, "trackers": c.urls, "scripts": sc}))
    # long lists
    big = {str(t): [{"c": ["good"], "a": ["good"], "fate": "ok", "peers": n, "seed": 1}] for t, n in enumerate((350, 700, 1500) if not THOROUGH else (1000, 4000, 10914))}
    jobs.append(("intake:exchanges", {"magnets": 1, "seed": SEED, "trackers": c.urls, "scripts": big, "timeout": 120}))
    go(c, "exchanges", jobs)
    return c.finish()
