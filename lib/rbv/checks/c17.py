"""C17: every accepted magnet reaches every tracker, and every reachable peer listed for it its torrent."""
import json
import time

from .. import sandbox, tlc
from ..build import ToolError
from ..campaign import Campaign
from ..report import THOROUGH, SEED

BAD = ["silent", "nonsense", "connectonly", "error", "refuse", "down", "empty", "slow"]


def validate(rs, rep):
    enc = [{"ev": r["ev"]} for r in rs]
    r = tlc.run("IntakeTrace", {}, constraint="Undecided", postcondition="Report", workers=1, timeout=300, files={"traces.json": json.dumps(enc)}, dfs=True)
    if not r.ok:
        raise ToolError("IntakeTrace: %s\n%s" % (r.error or r.violated, r.out[-3000:]))
    rep.add(states=r.distinct, transitions=r.states, traces_validated_against_impl=len(rs))
    return {p["tid"] - 1: p["at"] for p in r.printed}


def encode(r):
    """The answer to a post decides whether the magnet was accepted; nothing is due where the machine was late."""
    ok = {e["m"]: e["ok"] for e in r["ev"] if e["e"] == "posted"}
    ev = []
    for e in r["ev"]:
        if e["e"] == "posted" or (e["e"] == "due" and r["lag"] and max(r["lag"]) > 2):
            continue
        ev.append(dict(e, ok=ok.get(e["m"], False)) if e["e"] == "post" else e)
    return dict(r, ev=ev)


def judge(c, jobs, rs):
    out = []
    rs = [encode(r) for r in rs]
    bad = validate(rs, c.rep)
    for i, (j, r) in enumerate(zip(jobs, rs)):
        c.rep.add(magnets=len(r["posts"]), announces=sum(e["e"] == "ann" for e in r["ev"]), sessions=r["sessions"])
        if r["died"] != "killed" or r["panics"]:
            out.append((j, "the client crashed: %s" % r["panics"][:2], {}))
        elif any(st != 200 for _, st in r["posts"]):
            out.append((j, "a magnet was not accepted: %s" % [p for p in r["posts"] if p[1] != 200][:3], {}))
        elif i in bad:
            at = bad[i]
            e = r["ev"][at - 1] if at <= len(r["ev"]) else None
            what = ""
            if e and e["e"] == "due":
                seen = {(x["k"], x["m"]) for x in r["ev"] if x["e"] == "ann"}
                what = "no announce of magnet %d at trackers %s" % (e["m"], [k for k in e["ks"] if (k, e["m"]) not in seen])
                e = None
            elif e and e["e"] == "end":
                what = "peers that were listed and reachable were never contacted for their torrent, e.g. (tracker, magnet, peer) %s" % r["unmet"][:3]
                e = None
            out.append((j, "TLC rejects the history at event %d: %s%s" % (at, what, e or ""), {"at": at, "unmet": r["unmet"], "events": r["ev"][max(0, at - 30):at]}))
    return out


def go(c, name, jobs, parallel):
    t0 = time.time()

    def run(js, par):
        rs = sandbox.run_all(js, c.binary, par, 200)
        for r in rs:
            if "error" in r:
                raise ToolError(r["error"])
            if r["envbug"]:
                raise ToolError("environment bug: %r" % r["envbug"][:1])
        return judge(c, js, rs), rs
    found, rs = run(jobs, parallel)
    c.rep.add(processes=len(jobs))
    c.rep.cov.setdefault("scenarios", []).append({"name": name, "processes": len(jobs), "run_s": round(time.time() - t0, 1), "spans": [round(r["span"], 1) for r in rs][:12], "whole": sum(r["whole"] for r in rs)})
    c.rep.sample({"scenario": name, "events": rs[0]["ev"][:12]})
    if not found:
        return
    again = []
    for j, _, _ in found:
        if j not in again:
            again.append(j)
    for _ in range(2):
        f2, _ = run(again[:4], 2)
        if f2:
            for j, what, d in f2[:10]:
                c.rep.violation("%s: %s" % (name, what), {"scenario": name, "detail": d, "job": j})
            return
    c.rep.add(unconfirmed=len(found))
    c.rep.cov.setdefault("unconfirmed_what", []).extend(w for _, w, _ in found[:5])


def check():
    c = Campaign("C17")
    M, K = ({"m1", "m2"}, {"k1", "k2"})
    peers = {k: {m: {(k, m, 0 if (k, m) == ("k1", "m2") else 1)} for m in M} for k in K}
    for cap in (0, 1):
        r = tlc.run("Intake", {"Magnets": M, "Trackers": K, "Cap": cap, "Peers": peers}, invariants=["Inv_Own", "Inv_OnlyAccepted"], properties=["Live_Announced", "Live_Known"], workers=6)
        c.rep.model("Intake", r, "two magnets, two trackers that fall silent and come back; mailboxes %s" % ("of one place" if cap else "without bounds"))
    n = len(c.urls)
    rnd = c.rnd
    jobs = []
    for j in range(30 if THOROUGH else 6):
        moods = [rnd.choice(BAD) if rnd.random() < (0.2, 0.5, 0.8)[j % 3] else "ok" for _ in range(n)]
        if "ok" not in moods:
            moods[rnd.randrange(n)] = "ok"
        steps, total = [], 0
        kind = j % 6
        p = {"seed": SEED * 100 + j, "trackers": c.urls, "moods": moods, "endings": [["fin"], ["fin", "rst"], ["rst"]][j % 3], "own": 1 + j % 3, "common": 2, "everywhere": 2}
        if kind == 0:                 # a burst
            steps, total = [["post", 60]], 60
            p["own"] = 1
            p["moods"] = [x if i % 4 else "slow" for i, x in enumerate(moods)]
        elif kind == 1:               # everything is down, then everything comes up
            p["moods"] = ["down", "silent", "nonsense"] * (n // 3) + ["down"] * (n % 3)
            steps = [["post", 5]] + [["mood", i, "ok"] for i in range(n)] + [["wait", 0.1], ["post", 10]]
            total = 15
        elif kind == 2:               # unreachable peers in every list
            p["deaf"] = {str(i): 30 for i in range(0, n, 2)}
            steps, total = [["post", 20], ["wait", 2], ["post", 10]], 30
        elif kind == 3:               # turns
            for i in range(12):
                steps += [["post", rnd.choice([1, 1, 2, 5])], ["mood", rnd.randrange(n), rnd.choice(BAD + ["ok"] * 4)], ["mood", rnd.randrange(n), rnd.choice(["silent", "down", "ok"])], ["wait", rnd.choice([0, 0.2, 1])]]
            total = sum(s[1] for s in steps if s[0] == "post")
        elif kind == 4:               # one after the other, trackers silent
            p["moods"] = ["silent"] * (n - 2) + ["ok", "ok"] if j < 6 else ["nonsense"] * (n - 2) + ["ok", "ok"]
            for i in range(25):
                steps += [["post", 1], ["wait", 0.05]]
            total = 25
        else:                         # long lists
            p["own"] = 60
            p["list"] = {"%d" % (j % n): 300 + 700 * (j // 6 % 2), "%d" % ((j + 3) % n): 800}
            p["moods"] = [x if i % 3 and str(i) not in p["list"] else "ok" for i, x in enumerate(moods)]
            steps, total = [["post", 2], ["wait", 0.5], ["post", 2]], 4
        p.update(steps=steps, magnets=total)
        jobs.append(("intake:magnets", p))
    # a client that has seen many
    for j in range(2 if THOROUGH else 1):
        total = 240
        p = {"seed": SEED * 100 + 77 + j, "trackers": c.urls, "moods": ["ok" if i == 4 + j else "empty" for i in range(n)], "own": 1, "common": 1, "everywhere": 1, "odd": 1, "magnets": total,
             "steps": [x for _ in range(total // 20) for x in (["post", 20], ["wait", 0.3])]}
        jobs.append(("intake:magnets", p))
    go(c, "magnets and trackers", jobs, 7)
    return c.finish()
